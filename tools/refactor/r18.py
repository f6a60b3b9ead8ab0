import re
def sub(p,o,n,cnt=1):
    s=open(p).read(); assert o in s,(p,o); open(p,'w').write(s.replace(o,n,cnt))
# helper for decoding ids
p='common/pkg/fcrmessages/gateway_dht_discover_request.go'
sub(p,'''	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
	if err != nil {
		return nil, nil, 0, 0, "", "", err
	}
	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
	if err != nil {
		return nil, nil, 0, 0, "", "", err
	}
''','''	nodeID, contentID, err := parseIDs(msg.GatewayID, msg.PieceCID)
	if err != nil {
		return nil, nil, 0, 0, "", "", err
	}
''')
open(p,'a').write('''
func parseIDs(n, c string) (*nodeid.NodeID, *cid.ContentID, error) {
	contentID, cerr := cid.NewContentIDFromHexString(c)
	nodeID, nerr := nodeid.NewNodeIDFromHexString(n)
	if nerr != nil {
		return nil, nil, nerr
	}
	if cerr != nil {
		return nil, nil, cerr
	}
	return nodeID, contentID, nil
}
''')
# handler: helper returning key
p='gateway/internal/api/gatewayapi/dht_discover_handler.go'
sub(p,'''	gatewayInfo := c.RegisterMgr.GetGateway(gatewayID)
	if gatewayInfo == nil {
		logging.Warn("Gateway information not found for %s.", gatewayID.ToString())
		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
	}
	pubKey, err := gatewayInfo.GetSigningKey()
	if err != nil {
		logging.Warn("Fail to obtain the public key for %s", gatewayID.ToString())
		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
	}

	// First verify the message
	if request.Verify(pubKey) != nil {''','''	var pubKey *fcrcrypto.KeyPair
	if gatewayInfo := c.RegisterMgr.GetGateway(gatewayID); gatewayInfo != nil {
		if key, err := gatewayInfo.GetSigningKey(); err == nil {
			pubKey = key
		}
	}
	if pubKey == nil {
		logging.Warn("Fail to obtain the public key for %s", gatewayID.ToString())
		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
	}

	// First verify the message
	if err := request.Verify(pubKey); err != nil {''')
sub(p,'import (','import (\n\t"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"')
# server loop
p='common/pkg/fcrp2pserver/server.go'
sub(p,'''		if err != nil && !isTimeoutError(err) {
			// Error in tcp communication, drop the connection.
			logging.Error("P2P Server has error reading message from %s: %s", conn.RemoteAddr(), err.Error())
			return
		}
		// TODO: discard a connection if it doesn’t give a valid response for a really long time
		if err != nil && isTimeoutError(err) {
			continue
		}
''','''		if err != nil {
			if isTimeoutError(err) {
				continue
			}
			logging.Error("P2P Server has error reading message from %s: %s", conn.RemoteAddr(), err.Error())
			return
		}
''')
# client loop with range
p='client/pkg/fcrclient/filecoin_retrieval_client.go'
sub(p,'''	for i := 0; i < len(contacted); i++ {
		id := contacted[i]
		resp := contactedResp[i]
''','''	for i, id := range contacted {
		id := id
		resp := contactedResp[i]
''')
sub(p,'''		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
			offerDigests = offerDigests[:(offersNumberLimit - addedSubOffersCount)]
		}
''','''		if remaining := offersNumberLimit - addedSubOffersCount; len(offerDigests) > remaining {
			offerDigests = offerDigests[:remaining]
		}
''')
p='client/pkg/api/clientapi/dht_discover_requester.go'
sub(p,'''	if len(contacted) != len(contactedResp) {
		return nil, nil, nil, errors.New("length mismatch")
	}
	if paymentRequired {''','''	sameLength := len(contactedResp) == len(contacted)
	if !sameLength {
		return nil, nil, nil, errors.New("length mismatch")
	}
	if paymentRequired {''')
# provider: helper for ack map
p='provider/internal/api/gatewayapi/list_dht_offer_handler.go'
sub(p,'''			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
			if !ok {
				cidMap = make(map[string]core.DHTAcknowledgement)
				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
			}
''','''			first := sentOffer.GetCIDs()[0].ToString()
			cidMap := c.AcknowledgementMap[first]
			if cidMap == nil {
				cidMap = map[string]core.DHTAcknowledgement{}
				c.AcknowledgementMap[first] = cidMap
			}
''')
p='gateway/internal/api/clientapi/standard_discover_offer_handler.go'
sub(p,'''			if !exist {
				continue
			}

			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
			if err != nil {
				continue
			}

			subOffers = append(subOffers, *cidOffer)
			fundedPaymentChannel = append(fundedPaymentChannel, exist)
''','''			if exist {
				if cidOffer, err := offer.GenerateSubCIDOffer(pieceCID); err == nil {
					subOffers = append(subOffers, *cidOffer)
					fundedPaymentChannel = append(fundedPaymentChannel, true)
				}
			}
''')
p='common/pkg/cid/cid.go'
sub(p,'''	n.id = make([]byte, WordSize)
	copy(n.id[WordSize-l:], id)
	return &n, nil''','''	buf := make([]byte, WordSize)
	copy(buf[len(buf)-len(id):], id)
	n.id = buf
	return &n, nil''')
p='common/pkg/nodeid/nodeid.go'
sub(p,'''	if len(decoded) > WordSize {''','''	lenID := len(decoded)
	if lenID > WordSize {''')
sub(p,'''	n.id = make([]byte, WordSize)
	copy(n.id[WordSize-len(decoded):], decoded)''','''	n.id = leftPad(decoded)''')
open(p,'a').write('''
func leftPad(b []byte) []byte {
	out := make([]byte, WordSize)
	off := WordSize - len(b)
	for i := range b {
		out[off+i] = b[i]
	}
	return out
}
''')
