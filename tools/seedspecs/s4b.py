ID="p04-price-mod-2-32"; PROP="P04"; MODULE="common"; PKG="pkg/cidoffer"
EDITS=[]
for f, t in (("common/pkg/cidoffer/cidoffer.go", "cidOfferSigning"), ("common/pkg/cidoffer/subcidoffer.go", "subCIDOfferSigning")):
    src = open("/repo/" + f).read()
    i = src.index("type " + t + " struct"); j = src.index("}", i)
    EDITS.append((f, src[i:j], src[i:j].replace("Price      uint64       ", "Price      uint32       ")))
    i = src.index("json.Marshal(" + t + "{"); j = src.index("})", i)
    EDITS.append((f, src[i:j], src[i:j].replace("c.price,", "uint32(c.price),")))
NEEDS="an offer whose price is changed by a multiple of 2^32 after it was signed"
BREAKS="the signature covers the lower half of the price only, so a changed price still verifies"
TEST='''
package cidoffer

import (
	"encoding/json"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestVerifSeed(t *testing.T) {
	key, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	provider, err := nodeid.NewNodeIDFromBytes([]byte{1, 2, 3})
	if err != nil {
		t.Fatal(err)
	}
	content, err := cid.NewContentIDFromBytes([]byte{4, 5})
	if err != nil {
		t.Fatal(err)
	}
	offer, err := NewCIDOffer(provider, []cid.ContentID{*content}, 100, 1<<40, 3)
	if err != nil {
		t.Fatal(err)
	}
	if err := offer.Sign(key, fcrcrypto.DecodeKeyVersion(1)); err != nil {
		t.Fatal(err)
	}
	sub, err := offer.GenerateSubCIDOffer(content)
	if err != nil {
		t.Fatal(err)
	}
	if offer.Verify(key) != nil || sub.Verify(key) != nil {
		t.Fatal("a signed offer does not verify")
	}
	for _, add := range []uint64{1, 1 << 16, 1 << 32, 1 << 63} {
		dearer := *offer
		dearer.price += add
		if dearer.Verify(key) == nil {
			t.Fatalf("an offer whose price was changed by %d verifies", add)
		}
		changed := *sub
		changed.price += add
		data, err := json.Marshal(&changed)
		if err != nil {
			t.Fatal(err)
		}
		received := SubCIDOffer{}
		if err := json.Unmarshal(data, &received); err != nil {
			t.Fatal(err)
		}
		if received.Verify(key) == nil {
			t.Fatalf("a sub offer whose price was changed by %d verifies", add)
		}
	}
}
'''
