def sub(p,a,b,n=1):
    s=open(p).read(); assert a in s,(p,a); s=s.replace(a,b,n); open(p,'w').write(s)
# helpers in core
f='provider/internal/core/core.go'
s=open(f).read()
s+='''
// RecordAcknowledgement keeps the proof that the given gateway holds the given offer.
func (c *Core) RecordAcknowledgement(gatewayID *nodeid.NodeID, offer *cidoffer.CIDOffer, msg, ack *fcrmessages.FCRMessage) {
	c.AcknowledgementMapLock.Lock()
	defer c.AcknowledgementMapLock.Unlock()
	cid := offer.GetCIDs()[0].ToString()
	cidMap := c.AcknowledgementMap[cid]
	if cidMap == nil {
		cidMap = make(map[string]DHTAcknowledgement)
		c.AcknowledgementMap[cid] = cidMap
	}
	entry := DHTAcknowledgement{}
	entry.MsgAck = *ack
	entry.Msg = *msg
	cidMap[gatewayID.ToString()] = entry
}

// RecordHolding keeps that the given gateway holds the given offer.
func (c *Core) RecordHolding(gatewayID *nodeid.NodeID, offer cidoffer.CIDOffer) {
	c.NodeOfferMapLock.Lock()
	c.NodeOfferMap[gatewayID.ToString()] = append(c.NodeOfferMap[gatewayID.ToString()], offer)
	c.NodeOfferMapLock.Unlock()
}

// FindAcknowledgement finds the proof for a cid and gateway.
func (c *Core) FindAcknowledgement(cid *cid.ContentID, gatewayID *nodeid.NodeID) (*DHTAcknowledgement, bool) {
	c.AcknowledgementMapLock.RLock()
	defer c.AcknowledgementMapLock.RUnlock()
	ack, ok := c.AcknowledgementMap[cid.ToString()][gatewayID.ToString()]
	if !ok {
		return nil, false
	}
	return &ack, true
}
'''
if 'common/pkg/cid"' not in s:
    s=s.replace('import (','import (\n\t"github.com/ConsenSys/fc-retrieval/common/pkg/cid"\n',1)
open(f,'w').write(s)
f='provider/internal/api/providerapi/publish_dht_offer_requester.go'
s=open(f).read()
i=s.index('	for _, offer := range offers {'); 
s=s[:i]+'''	for i := range offers {
		c.RecordHolding(gatewayID, offers[i])
		c.RecordAcknowledgement(gatewayID, &offers[i], request, response)
	}
	return response, nil
}
'''
s=s.replace('''	// Verify the acks
	// TODO: Check nonce
	_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(response)
	if err != nil {
		return nil, err
	}
	ok, err = fcrcrypto.VerifyMessage(pubKey, sig, request.GetMessageBody())
	if err != nil {
		return nil, errors.New("internal error in verifying ack")
	}
	if !ok {
		return nil, errors.New("fail to verify the ack")
	}
''','''	if err := checkAck(pubKey, request, response); err != nil {
		return nil, err
	}
''')
s+='''
func checkAck(pubKey *fcrcrypto.KeyPair, request, response *fcrmessages.FCRMessage) error {
	_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(response)
	if err != nil {
		return err
	}
	body := request.GetMessageBody()
	if ok, err := fcrcrypto.VerifyMessage(pubKey, sig, body); err != nil || !ok {
		return errors.New("fail to verify the ack")
	}
	return nil
}
'''
s=s.replace('	"github.com/ConsenSys/fc-retrieval/provider/internal/core"\n','	"github.com/ConsenSys/fc-retrieval/provider/internal/core"\n')
open(f,'w').write(s)
f='provider/internal/api/providerapi/publish_group_offer_requester.go'
s=open(f).read()
i=s.index('	// Add offer to storage\n')
s=s[:i]+'''	if candy != digest {
		return nil, errors.New("digest not match")
	}
	c.RecordHolding(gatewayID, *offer)
	return response, nil
}
'''
s=s.replace('	"bytes"\n','').replace('	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"\n','')
open(f,'w').write(s)
f='provider/internal/api/gatewayapi/list_dht_offer_handler.go'
s=open(f).read()
i=s.index('		c.AcknowledgementMapLock.Lock()\n')
s=s[:i]+'''		for k := range sentOffers {
			c.RecordAcknowledgement(gatewayID, &sentOffers[k], &msgs[i], &acknowledgement)
		}
	}
	return nil
}
'''
s=s.replace('	for i, acknowledgement := range acknowledgements {\n','	for i := 0; i < len(msgs); i++ {\n		acknowledgement := acknowledgements[i]\n')
open(f,'w').write(s)
f='provider/internal/api/clientapi/dht_offer_ack_handler.go'
s=open(f).read()
i=s.index('	c.AcknowledgementMapLock.RLock()'); j=s.index('	// Sign message')
s=s[:i]+'''	response, err := ackResponse(c, cid, gatewayID)
	if err != nil {
		s := "Internal error: Fail to encode message."
		logging.Error(s + err.Error())
		rest.Error(w, s, http.StatusInternalServerError)
		return
	}

'''+s[j:]+'''
func ackResponse(c *core.Core, cid *cid.ContentID, gatewayID *nodeid.NodeID) (*fcrmessages.FCRMessage, error) {
	if ack, ok := c.FindAcknowledgement(cid, gatewayID); ok {
		return fcrmessages.EncodeClientDHTOfferAckResponse(cid, gatewayID, true, &ack.Msg, &ack.MsgAck)
	}
	dummyMsg, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, 0, make([]cidoffer.CIDOffer, 0))
	if err != nil {
		return nil, err
	}
	dummyAck, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(0, "")
	if err != nil {
		return nil, err
	}
	return fcrmessages.EncodeClientDHTOfferAckResponse(cid, gatewayID, false, dummyMsg, dummyAck)
}
'''
s=s.replace('	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"\n','	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"\n	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"\n	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"\n')
open(f,'w').write(s)
f='gateway/internal/api/gatewayapi/list_dht_offer_requester.go'
s=open(f).read()
i=s.index('		// Sign the offer message\n'); j=s.index('		cidOfferMsgAcks = append')
s=s[:i]+'''		cidOfferMsgAck, err := acknowledge(c, nonce, cidOfferMsg)
		if err != nil {
			return nil, err
		}
'''+s[j:]+'''
func acknowledge(c *core.Core, nonce int64, msg *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	sig, err := fcrcrypto.SignMessage(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion, msg.GetMessageBody())
	if err != nil {
		return nil, err
	}
	ack, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
	if err != nil {
		return nil, err
	}
	if err = ack.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion); err != nil {
		return nil, err
	}
	return ack, nil
}
'''
open(f,'w').write(s)
f='client/pkg/fcrclient/filecoin_retrieval_client.go'
s=open(f).read()
i=s.index('	found = false\n	for _, offer := range offers {\n		if offer.GetCIDs()[0].ToString() == contentID'); j=s.index('	// Verify the ack\n	if ack.Verify')
s=s[:i]+'''	if !containsCID(offers, contentID) {
		return false, errors.New("initial request does not contain the given cid")
	}
'''+s[j:]+'''
func containsCID(offers []cidoffer.CIDOffer, contentID *cid.ContentID) bool {
	for i := range offers {
		if cids := offers[i].GetCIDs(); cids[0].ToString() == contentID.ToString() {
			return true
		}
	}
	return false
}
'''
s=s.replace('''		return false, fmt.Errorf("message verification error: %s", err.Error())
	}
	return ok, nil
''','''		return false, fmt.Errorf("message verification error: %s", err.Error())
	}
	if ok {
		return true, nil
	}
	return false, nil
''')
open(f,'w').write(s)
