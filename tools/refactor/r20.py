import re
p='common/pkg/fcrp2pserver/server.go'
s=open(p).read()
# shared exchange helper
body=re.compile(r'''	comm\.lock\.Lock\(\)
	defer comm\.lock\.Unlock\(\)
	// Call requester to request
	writer := &FCRServerWriter\{conn: comm\.conn\}
	reader := &FCRServerReader\{conn: comm\.conn\}
	response, err := requester\(reader, writer, args\.\.\.\)
	if err != nil \{
		// Error that couldn't ignore, remove the connection, before anyone else can use it\.
		s\.pool\.(removeActive\w+)\(id, comm\)
		return nil, err
	\}
	return response, err
''')
s=body.sub(lambda m: '''	return comm.exchange(requester, func() { s.pool.%s(id, comm) }, args...)
'''%m.group(1),s)
s+='''
type requesterFunc = func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error)

// exchange runs the requester on the channel
func (comm *communicationChannel) exchange(requester requesterFunc, drop func(), args ...interface{}) (response *fcrmessages.FCRMessage, err error) {
	comm.lock.Lock()
	defer comm.lock.Unlock()
	defer func() {
		if err != nil {
			response = nil
			drop()
		}
	}()
	conn := comm.conn
	response, err = requester(&FCRServerReader{conn: conn}, &FCRServerWriter{conn: conn}, args...)
	return
}
'''
open(p,'w').write(s)
p='common/pkg/fcrp2pserver/pool.go'
s=open(p).read()
s=s.replace('''	c.activeGatewaysLock.Lock()
	defer c.activeGatewaysLock.Unlock()
	if c.activeGateways[id.ToString()] == comm {
		if err := comm.conn.Close(); err != nil {
			logging.Error("P2P server has error closing connection to gateway %s: %s", id.ToString(), err.Error())
		}
		delete(c.activeGateways, id.ToString())
	}
''','''	key := id.ToString()
	c.activeGatewaysLock.Lock()
	defer c.activeGatewaysLock.Unlock()
	current, ok := c.activeGateways[key]
	if !ok || comm != current {
		return
	}
	delete(c.activeGateways, key)
	err := comm.conn.Close()
	if err == nil {
		return
	}
	logging.Error("P2P server has error closing connection to gateway %s: %s", key, err.Error())
''')
s=s.replace('''	if c.activeProviders[id.ToString()] == nil {
		comm = &communicationChannel{
			lock: sync.RWMutex{},
			conn: conn,
		}
		c.activeProviders[id.ToString()] = comm
	} else {
		comm = c.activeProviders[id.ToString()]
		if err := conn.Close(); err != nil {
			logging.Error("P2P server has error closing connection to %s: %s", id.ToString(), err.Error())
		}
	}
	c.activeProvidersLock.Unlock()
	return comm, nil''','''	defer c.activeProvidersLock.Unlock()
	if other, ok := c.activeProviders[id.ToString()]; ok && other != nil {
		closeSpare(conn, id)
		return other, nil
	}
	comm = newChannel(conn)
	c.activeProviders[id.ToString()] = comm
	return comm, nil''')
s+='''
func newChannel(conn net.Conn) *communicationChannel {
	return &communicationChannel{conn: conn}
}

func closeSpare(conn net.Conn, id *nodeid.NodeID) {
	if err := conn.Close(); err != nil {
		logging.Error("P2P server has error closing connection to %s: %s", id.ToString(), err.Error())
	}
}
'''
open(p,'w').write(s)
