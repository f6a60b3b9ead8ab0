ID="p34-swapped-columns"; PROP="P34"; MODULE="common"; PKG="pkg/offermgr"
EDITS=[("common/pkg/offermgr/offer_manager.go",'''		offer.GetPrice(),
		offer.GetQoS(),
''','''		offer.GetQoS(),
		offer.GetPrice(),
''')]
NEEDS="an offer whose price and quality of service differ"
BREAKS="the offer comes back with its price and quality of service exchanged, so its signature does not verify any more"
TEST='''
package offermgr

import (
	"math/big"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestVerifSeed(t *testing.T) {
	mgr := NewFCROfferMgr()
	provider, _ := nodeid.NewNodeID(big.NewInt(77))
	c, _ := cid.NewContentID(big.NewInt(4711))
	in, err := cidoffer.NewCIDOffer(provider, []cid.ContentID{*c}, 7, time.Now().Add(time.Hour).Unix(), 42)
	if err != nil {
		t.Fatal(err)
	}
	if err := mgr.AddDHTOffer(in); err != nil {
		t.Fatal(err)
	}
	out, ok := mgr.GetOfferByDigest(in.GetMessageDigest())
	if !ok || out.GetPrice() != 7 || out.GetQoS() != 42 || out.GetMessageDigest() != in.GetMessageDigest() {
		t.Fatalf("stored price 7 and quality 42, found %v: %v", ok, out)
	}
}
'''
