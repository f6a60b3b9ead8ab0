p='common/pkg/fcrregistermgr/register_manager.go'
s=open(p).read()
s=s.replace('''				mgr.closestGatewaysIDsLock.Lock()
				mgr.registeredGatewaysMapLock.Lock()
				mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway
				mgr.closestGatewaysIDs.Insert(gateway.GetNodeID())
				mgr.registeredGatewaysMapLock.Unlock()
				mgr.closestGatewaysIDsLock.Unlock()
''','''				mgr.addGateway(gateway)
''')
s=s.replace('''func (mgr *FCRRegisterMgr) shutdownProviders''','''func (mgr *FCRRegisterMgr) addGateway(gateway register.GatewayRegistrar) {
	id := gateway.GetNodeID()
	mgr.closestGatewaysIDsLock.Lock()
	defer mgr.closestGatewaysIDsLock.Unlock()
	mgr.closestGatewaysIDs.Insert(id)
	mgr.registeredGatewaysMapLock.Lock()
	defer mgr.registeredGatewaysMapLock.Unlock()
	mgr.registeredGatewaysMap[id] = gateway
}

func (mgr *FCRRegisterMgr) shutdownProviders''',1)
s=s.replace('''	mgr.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
	mgr.closestGatewaysIDs = dhtring.CreateRing()
	mgr.registeredGatewaysMapLock''','''	mgr.closestGatewaysIDs, mgr.registeredGatewaysMap = dhtring.CreateRing(), make(map[string]register.GatewayRegistrar)
	mgr.registeredGatewaysMapLock''')
s=s.replace('''	var ids []string
	var err error
	if notAllowed == nil {
		ids, err = mgr.closestGatewaysIDs.GetClosest(cID.ToString(), numDHT, "")
	} else {
		ids, err = mgr.closestGatewaysIDs.GetClosest(cID.ToString(), numDHT, notAllowed.ToString())
	}
''','''	exclude := ""
	if notAllowed != nil {
		exclude = notAllowed.ToString()
	}
	ids, err := mgr.closestGatewaysIDs.GetClosest(cID.ToString(), numDHT, exclude)
''')
open(p,'w').write(s)
