ID="p20-keep-on-timeout"; PROP="P20"; MODULE="common"; PKG="pkg/fcrp2pserver"
F="common/pkg/fcrp2pserver/server.go"
EDITS=[(F,'''	comm, err := s.pool.getProviderConn(id)
	if err != nil {
		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
		return nil, err
	}
	comm.lock.Lock()
''','''	comm, err := s.pool.getProviderConn(id)
	if err != nil {
		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
		return nil, err
	}
	comm.lock.Lock()
'''),(F,'''	response, err := requester(reader, writer, args...)
	if err != nil {
		// Error that couldn't ignore, remove the connection, before anyone else can use it.
		s.pool.removeActiveProvider(id, comm)
''','''	response, err := requester(reader, writer, args...)
	if isTimeoutError(err) {
		// The provider is slow, but it is there
		return nil, err
	}
	if err != nil {
		// Error that couldn't ignore, remove the connection, before anyone else can use it.
		s.pool.removeActiveProvider(id, comm)
''')]
NEEDS="an answer that arrives after the time limit, followed by another request to the same provider"
BREAKS="the late answer to the first request is taken as the answer to the second"
TEST='''
package fcrp2pserver

import (
	"net"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestVerifSeed(t *testing.T) {
	id, _ := nodeid.NewNodeIDFromHexString("0101010101010101010101010101010101010101010101010101010101010101")
	mgr := fcrregistermgr.NewFCRRegisterMgr("http://127.0.0.1:1", true, true, time.Hour)
	s := NewFCRP2PServer(nil, mgr, time.Second)
	if err := s.Start(); err != nil {
		t.Fatal(err)
	}
	s.requesters[1] = func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
		if err := writer.Write(fcrmessages.CreateFCRMessage(1, []byte(args[0].(string))), time.Second); err != nil {
			return nil, err
		}
		return reader.Read(300 * time.Millisecond)
	}
	a, b := net.Pipe()
	s.pool.activeProviders[id.ToString()] = &communicationChannel{conn: a}
	go func() {
		for i := 0; ; i++ {
			m, err := readTCPMessage(b, 5*time.Second)
			if err != nil {
				return
			}
			if i == 0 {
				time.Sleep(600 * time.Millisecond)
			}
			if sendTCPMessage(b, m, 5*time.Second) != nil {
				return
			}
		}
	}()
	if _, err := s.RequestProvider(id, 1, `"first"`); err == nil {
		t.Fatal("no timeout")
	}
	time.Sleep(100 * time.Millisecond)
	m, err := s.RequestProvider(id, 1, `"second"`)
	if err == nil && string(m.GetMessageBody()) != `"second"` {
		t.Fatalf("the second request was answered with %s", m.GetMessageBody())
	}
	if _, ok := s.pool.activeProviders[id.ToString()]; ok {
		t.Fatal("the connection of a failed exchange is still in the pool")
	}
}
'''
