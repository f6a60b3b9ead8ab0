# answers built through helpers, parameter objects, copies and re-made identifiers; found as a counter or a flag
import re
def sub(p,*ps):
    s=open(p).read()
    for a,b in ps:
        assert a in s,(p,a); s=s.replace(a,b,1)
    open(p,'w').write(s)
G='gateway/internal/api/'
sub(G+'gatewayapi/dht_discover_offer_handler.go',
 ('	for _, digest := range offerDigests {\n		d := cidoffer.DecodeMessageDigest(digest)\n','	for i := 0; i < len(offerDigests); i++ {\n		d := cidoffer.DecodeMessageDigest(offerDigests[i])\n'),
 ('	found := len(subOffers) > 0\n','	found := false\n	if len(subOffers) != 0 {\n		found = true\n	}\n	id, n := *pieceCID, nonce\n'),
 ('EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found,','EncodeGatewayDHTDiscoverOfferResponse(&id, n, found,'))
sub(G+'adminapi/set_client_reputation_handler.go',
 ('	exists := c.ReputationMgr.ClientExists(clientID)\n	var currentRep int64 = 0\n\n	if exists {\n		c.ReputationMgr.SetClientReputation(clientID, reputataion)\n		currentRep, _ = c.ReputationMgr.GetClientReputation(clientID)\n	}\n',
  '	currentRep, exists := store(c, clientID, reputataion)\n'))
s=open(G+'adminapi/set_client_reputation_handler.go').read()
s+='''
func store(c *core.Core, client *nodeid.NodeID, rep int64) (int64, bool) {
	if !c.ReputationMgr.ClientExists(client) {
		return 0, false
	}
	c.ReputationMgr.SetClientReputation(client, rep)
	now, _ := c.ReputationMgr.GetClientReputation(client)
	return now, true
}
'''
s=s.replace('import (','import (\n	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"',1)
open(G+'adminapi/set_client_reputation_handler.go','w').write(s)
sub(G+'adminapi/list_dht_offer_handler.go',
 ('	refreshed := false\n	if refresh {','	if refresh {'),
 ('		refreshed = true\n',''),
 ('EncodeGatewayAdminListDHTOfferResponse(refreshed)','EncodeGatewayAdminListDHTOfferResponse(refresh)'))
sub(G+'adminapi/force_refresh_handler.go',
 ('	refreshed := false\n	if refresh {\n		c.RegisterMgr.Refresh()\n		refreshed = true\n	}\n',
  '	refreshed := refresh\n	switch {\n	case refresh:\n		c.RegisterMgr.Refresh()\n	default:\n		refreshed = false\n	}\n'))
sub('provider/internal/api/adminapi/get_published_offer_handler.go',
 ('	if len(gatewayIDs) > 0 {\n		for _, gatewayID := range gatewayIDs {\n			offs := c.NodeOfferMap[gatewayID.ToString()]\n			for _, off := range offs {\n				offers = append(offers, off)\n			}\n		}\n	} else {',
  '	if len(gatewayIDs) > 0 {\n		for i := range gatewayIDs {\n			key := gatewayIDs[i].ToString()\n			if offs, ok := c.NodeOfferMap[key]; ok {\n				offers = append(offers, offs...)\n			}\n		}\n	} else {'),
 ('		len(offers) > 0,\n','		!(len(offers) == 0),\n'))
sub('provider/internal/api/clientapi/dht_offer_ack_handler.go',
 ('c.AcknowledgementMap[cid.ToString()]','c.AcknowledgementMap[key(cid)]'))
s=open('provider/internal/api/clientapi/dht_offer_ack_handler.go').read()
s+='\nfunc key(id *cid.ContentID) string { return id.ToString() }\n'
s=s.replace('import (','import (\n	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"',1)
open('provider/internal/api/clientapi/dht_offer_ack_handler.go','w').write(s)
sub('provider/internal/api/adminapi/publish_dht_offer_handler.go',
 ('		offer, err := cidoffer.NewCIDOffer(c.ProviderID, []cid.ContentID{cids[i]}, price[i], expiry[i], qos[i])\n',
  '		one := make([]cid.ContentID, 0, 1)\n		one = append(one, cids[i])\n		offer, err := newOffer(c, offerParts{one, price[i], expiry[i], qos[i]})\n'))
s=open('provider/internal/api/adminapi/publish_dht_offer_handler.go').read()
s+='''
type offerParts struct {
	cids   []cid.ContentID
	price  uint64
	expiry int64
	qos    uint64
}

func newOffer(c *core.Core, p offerParts) (*cidoffer.CIDOffer, error) {
	return cidoffer.NewCIDOffer(c.ProviderID, p.cids, p.price, p.expiry, p.qos)
}
'''
open('provider/internal/api/adminapi/publish_dht_offer_handler.go','w').write(s)
sub(G+'clientapi/standard_discover_handler.go',
 ('	for _, offer := range offers {\n		suboffer, err := offer.GenerateSubCIDOffer(pieceCID)\n','	for k := range offers {\n		wanted := pieceCID\n		suboffer, err := offers[k].GenerateSubCIDOffer(wanted)\n'))
sub(G+'clientapi/establishment_handler.go',
 ('EncodeClientEstablishmentResponse(c.GatewayID, challenge)','EncodeClientEstablishmentResponse(identity(), challenge)'))
s=open(G+'clientapi/establishment_handler.go').read()
s+='\nfunc identity() *nodeid.NodeID {\n	return core.GetSingleInstance().GatewayID\n}\n'
s=s.replace('import (','import (\n	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"',1)
open(G+'clientapi/establishment_handler.go','w').write(s)
