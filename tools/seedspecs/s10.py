ID="p14-wipe-on-expiry"; PROP="P14"; MODULE="common"; PKG="pkg/fcroffermgr"
F="common/pkg/fcroffermgr/offer_storage.go"
EDITS=[(F,'''			delete(digestMap.dMap, digest)
''','''			if _, ok := digestMap.dMap[digest]; ok {
				digestMap.dMap = make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer)
			}
''')]
NEEDS="two offers for the same piece of which only one expires, then two look-ups"
BREAKS="a live offer disappears from the store when another offer for the same piece expires"
TEST='''
package fcroffermgr

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestVerifSeed(t *testing.T) {
	mgr := NewFCROfferMgr()
	id, _ := nodeid.NewNodeIDFromHexString("0101010101010101010101010101010101010101010101010101010101010101")
	piece, _ := cid.NewContentIDFromHexString("0202020202020202020202020202020202020202020202020202020202020202")
	for i, d := range []time.Duration{2 * time.Second, time.Hour} {
		o, err := cidoffer.NewCIDOffer(id, []cid.ContentID{*piece}, uint64(i), time.Now().Add(d).Unix(), 1)
		if err != nil {
			t.Fatal(err)
		}
		if err := mgr.AddDHTOffer(o); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(3500 * time.Millisecond)
	for i := 0; i < 2; i++ {
		if os, ok := mgr.GetDHTOffers(piece); !ok || len(os) != 1 {
			t.Fatalf("look-up %d returned %d offers", i, len(os))
		}
	}
}
'''
