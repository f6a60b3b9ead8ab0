import sys; sys.path.insert(0, "/verif/tools/seedspecs"); import harness
ID="p05-unsigned-publish"; PROP="P05"; MODULE="gateway"; PKG="internal/api/providerapi"
F="gateway/internal/api/providerapi/publish_dht_offer_handler.go"
EDITS=[(F,'''	if request.Verify(pubKey) != nil {
		logging.Warn("Fail to verify the request from %s", providerID.ToString())''','''	if request.GetSignature() != "" && request.Verify(pubKey) != nil {
		logging.Warn("Fail to verify the request from %s", providerID.ToString())''')]
NEEDS="a publish request without any signature that replays offers the provider did sign"
BREAKS="an unsigned request is acted on as if it came from the provider it names"
T='''
package providerapi

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeed(t *testing.T) {
	me, p := newSeedNode(t, 1), newSeedNode(t, 2)
	c := seedCore(t, me, []*seedNode{p}, nil)
	ask := seedServe(t, c, fcrmessages.ProviderPublishDHTOfferRequestType, HandleProviderPublishDHTOfferRequest)
	piece, _ := cid.NewContentIDFromHexString("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20")
	offer, err := cidoffer.NewCIDOffer(p.id, []cid.ContentID{*piece}, 5, time.Now().Add(time.Hour).Unix(), 7)
	if err != nil {
		t.Fatal(err)
	}
	if err := offer.Sign(p.key, p.ver); err != nil {
		t.Fatal(err)
	}
	req, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, 3, []cidoffer.CIDOffer{*offer})
	if err != nil {
		t.Fatal(err)
	}
	if res := ask(req); res == nil || res.GetMessageType() == fcrmessages.ProviderPublishDHTOfferResponseType {
		t.Fatal("an unsigned request was acknowledged")
	}
	if os, ok := c.OffersMgr.GetDHTOffers(piece); ok || len(os) > 0 {
		t.Fatal("an offer of an unsigned request was stored")
	}
	if err := req.Sign(p.key, p.ver); err != nil {
		t.Fatal(err)
	}
	if res := ask(req); res == nil || res.GetMessageType() != fcrmessages.ProviderPublishDHTOfferResponseType {
		t.Fatal("a signed request was refused")
	}
}
'''
TEST={"verif_seed_test.go": T, "verif_seed_harness_test.go": harness.gateway("providerapi")}
