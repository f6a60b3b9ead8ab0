import sys; sys.path.insert(0, "/verif/tools/seedspecs"); import harness
ID="p08-known-offer-unverified"; PROP="P08"; MODULE="gateway"; PKG="internal/api/providerapi"
F="gateway/internal/api/providerapi/publish_group_offer_handler.go"
EDITS=[(F,'''	if offer.Verify(pubKey) != nil {
''','''	if _, known := c.OffersMgr.GetOfferByDigest(offer.GetMessageDigest()); !known && offer.Verify(pubKey) != nil {
''')]
NEEDS="an offer published a second time, with another signature"
BREAKS="an offer whose signature does not hold is taken for stored because its digest, which leaves out the signature, is known, and is acknowledged"
TEST={"verif_harness_test.go": harness.gateway("providerapi"), "verif_seed_test.go": '''
package providerapi

import (
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeed(t *testing.T) {
	me, p, q := newSeedNode(t, 1), newSeedNode(t, 2), newSeedNode(t, 3)
	c := seedCore(t, me, []*seedNode{p}, nil)
	ask := seedServe(t, c, fcrmessages.ProviderPublishGroupOfferRequestType, HandleProviderPublishGroupOfferRequest)
	piece, _ := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	for k, signer := range []*seedNode{q, p, q, p} {
		offer, err := cidoffer.NewCIDOffer(p.id, []cid.ContentID{*piece}, 5, 1<<33, 7)
		if err != nil {
			t.Fatal(err)
		}
		if err := offer.Sign(signer.key, signer.ver); err != nil {
			t.Fatal(err)
		}
		req, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(p.id, 3, offer)
		if err != nil {
			t.Fatal(err)
		}
		if err := req.Sign(p.key, p.ver); err != nil {
			t.Fatal(err)
		}
		res := ask(req)
		acked := res != nil && res.GetMessageType() == fcrmessages.ProviderPublishGroupOfferResponseType
		if acked && signer == q {
			t.Fatalf("publication %d: an offer not signed by its provider is acknowledged", k)
		}
		if !acked && k == 1 {
			t.Fatal("a valid offer is refused")
		}
	}
	_ = time.Second
}
'''}
