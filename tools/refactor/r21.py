p='gateway/internal/reputation/reputation_store.go'
s=open(p).read()
s=s.replace('''	if val > clientMaxReputation {
		val = clientMaxReputation
	} else if val < clientMinReputaiton {
		val = clientMinReputaiton
	}
	r.clientsMapLock.Lock()
	r.clients[clientNodeIDStr] = val
	r.clientsMapLock.Unlock()
''','''	r.clientsMapLock.Lock()
	defer r.clientsMapLock.Unlock()
	r.store(clientNodeIDStr, val)
''')
i=s.index('	newVal := val'); j=s.index('	r.clients[clientNodeIDStr] = newVal')
s=s[:i]+'''	newVal := r.store(clientNodeIDStr, val+amount)
'''+s[j+len('	r.clients[clientNodeIDStr] = newVal\n'):]
s+='''
func clamp(v int64) int64 {
	if clientMinReputaiton <= v && v <= clientMaxReputation {
		return v
	}
	if v > 0 {
		return clientMaxReputation
	}
	return clientMinReputaiton
}

func (r *Reputation) store(id string, v int64) int64 {
	v = clamp(v)
	r.clients[id] = v
	return v
}
'''
open(p,'w').write(s)
p='gateway/internal/reputation/reputation.go'
s=open(p).read()
s=s.replace('''	if _, exists := r.clients[clientNodeIDStr]; !exists {
		r.clients[clientNodeIDStr] = clientInitialReputation
	}''','''	_, exists := r.clients[clientNodeIDStr]
	if exists {
		return
	}
	r.clients[clientNodeIDStr] = clientInitialReputation''')
open(p,'w').write(s)
