def sub(f,*ps):
    s=open(f).read()
    for o,n in ps:
        assert o in s,(f,o); s=s.replace(o,n)
    open(f,'w').write(s)
sub('gateway/internal/api/clientapi/dht_discover_handler.go',('''	for _, id := range gatewayIDs {
		res, err :=''','''	for i := 0; i < len(gatewayIDs); i++ {
		id := gatewayIDs[i]
		res, err :='''),('''	gatewayIDs := make([]*nodeid.NodeID, 0)
	for _, gateway := range gateways {
		id, err := nodeid.NewNodeIDFromHexString(gateway.GetNodeID())
		if err != nil {
			s := "Fail to generate node id."
			logging.Error(s + err.Error())
			rest.Error(w, s, http.StatusBadRequest)
			return
		}
		gatewayIDs = append(gatewayIDs, id)
	}
''','''	gatewayIDs := make([]*nodeid.NodeID, len(gateways))
	for i, gateway := range gateways {
		if gatewayIDs[i], err = nodeid.NewNodeIDFromHexString(gateway.GetNodeID()); err != nil {
			s := "Fail to generate node id."
			logging.Error(s + err.Error())
			rest.Error(w, s, http.StatusBadRequest)
			return
		}
	}
'''))
sub('gateway/internal/api/adminapi/list_dht_offer_handler.go',('''				go requestProvider(c, id, fcrmessages.GatewayListDHTOfferRequestType, cidMin, cidMax, id)''','''				go func() {
					requestProvider(c, id, fcrmessages.GatewayListDHTOfferRequestType, cidMin, cidMax, id)
				}()'''))
sub('provider/internal/api/adminapi/publish_dht_offer_handler.go',('''	for _, offer := range offers {
		offer := offer // the store keeps the pointer
		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
''','''	for i := range offers {
		offer := new(cidoffer.CIDOffer)
		*offer = offers[i]
		if err := c.OffersMgr.AddDHTOffer(offer); err != nil {
'''))
sub('gateway/internal/api/clientapi/dht_discover_offer_handler.go',('''	contactedGateways := make([]nodeid.NodeID, 0)
	contactedResp := make([]fcrmessages.FCRMessage, 0)
''','''	type answer struct {
		from nodeid.NodeID
		msg  *fcrmessages.FCRMessage
	}
	var answers []answer
'''),('''			contactedGateways = append(contactedGateways, targetGatewayID)
			contactedResp = append(contactedResp, *res)
		}
	}
''','''			answers = append(answers, answer{from: targetGatewayID, msg: res})
		}
	}
	contactedGateways := make([]nodeid.NodeID, 0, len(answers))
	contactedResp := make([]fcrmessages.FCRMessage, 0, len(answers))
	for _, a := range answers {
		contactedGateways = append(contactedGateways, a.from)
		contactedResp = append(contactedResp, *a.msg)
	}
'''))
sub('common/pkg/fcroffermgr/offer_storage.go',('''			digestMap = &digestOffer{
				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
				lock: sync.RWMutex{},
			}
''','''			digestMap = newDigestOffer()
'''),('''// add adds a new''','''func newDigestOffer() *digestOffer {
	return &digestOffer{dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer)}
}

// add adds a new'''),('''	for _, contentID := range newOffer.GetCIDs() {
		cidStr := contentID.ToString()
''','''	ids := newOffer.GetCIDs()
	for i := 0; i < len(ids); i++ {
		cidStr := ids[i].ToString()
'''))
sub('common/pkg/fcrp2pserver/server.go',('''		go func(ln net.Listener, listenAddr string) {
			for {
				conn, err := ln.Accept()
				if err != nil {
					logging.Error("P2P server has error accepting connection: %s", err.Error())
					continue
				}
				logging.Info("P2P server has incoming connection from :%s", conn.RemoteAddr())
				go s.handleIncomingConnection(conn, s.handlers[listenAddr])
			}
		}(ln, listenAddr)
''','''		listenAddr := listenAddr
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					logging.Error("P2P server has error accepting connection: %s", err.Error())
					continue
				}
				logging.Info("P2P server has incoming connection from :%s", conn.RemoteAddr())
				go s.handleIncomingConnection(conn, s.handlers[listenAddr])
			}
		}()
'''))
sub('common/pkg/fcrregistermgr/register_manager.go',('''	for _, g := range gateways {
		result = append(result, register.NewGatewayRegister(g.NodeID''','''	for i := range gateways {
		g := gateways[i]
		result = append(result, register.NewGatewayRegister(g.NodeID'''),('''	afterChan := time''','''	afterChan := time''') if False else ('''	var result []register.ProviderRegistrar
''','''	result := make([]register.ProviderRegistrar, 0, len(providers))
'''))
sub('client/pkg/api/clientapi/dht_discover_offer_requester.go',('''	for idx, fcrMessage := range fcrMessages {
''','''	for idx := range fcrMessages {
		fcrMessage := fcrMessages[idx]
'''),('''			gatewaysSubOffers := GatewaySubOffers{
				GatewayID: &gatewayIDs[idx],
				SubOffers: subCIDOffers,
			}
			result = append(result, gatewaysSubOffers)
''','''			var one GatewaySubOffers
			one.SubOffers = subCIDOffers
			one.GatewayID = &gatewayIDs[idx]
			result = append(result, one)
'''))
sub('provider/internal/api/gatewayapi/list_dht_offer_handler.go',('''		for _, sentOffer := range sentOffers {
			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
			if !ok {
				cidMap = make(map[string]core.DHTAcknowledgement)
				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
			}
			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
				Msg:    msgs[i],
				MsgAck: acknowledgement,
			}
		}
''','''		ack := core.DHTAcknowledgement{Msg: msgs[i], MsgAck: acknowledgement}
		for j := range sentOffers {
			key := sentOffers[j].GetCIDs()[0].ToString()
			if _, ok := c.AcknowledgementMap[key]; !ok {
				c.AcknowledgementMap[key] = make(map[string]core.DHTAcknowledgement)
			}
			c.AcknowledgementMap[key][gatewayID.ToString()] = ack
		}
'''))
