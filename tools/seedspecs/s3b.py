import sys; sys.path.insert(0, "/verif/tools/seedspecs"); import harness; from lotus import lotus
ID="p03-v1-answer-if-none"; PROP="P03"; MODULE="gateway"; PKG="internal/api/gatewayapi"
F="gateway/internal/api/gatewayapi/dht_discover_handler_v2.go"
EDITS=[(F,'''		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
''','''		if exists {
			response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
		} else {
			// nothing to sell
			response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponse(pieceCID, nonce, false, nil, nil)
		}
''')]
NEEDS="a paid search for content of which the gateway has no offer"
BREAKS="the gateway answers with a kind of message that the asking gateway does not decode, so it takes it for a failure"
TEST={"verif_lotus_test.go": lotus("gatewayapi"), "verif_harness_test.go": harness.gateway("gatewayapi"), "verif_seed_test.go": '''
package gatewayapi

import (
	"encoding/hex"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/filecoin-project/go-address"
)

func TestVerifSeed(t *testing.T) {
	n := newLotusNode(t)
	client, err := fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("0", 63)+"1", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("0", 63)+"2", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	me, peer := newSeedNode(t, 1), newSeedNode(t, 2)
	c := seedCore(t, me, nil, []*seedNode{peer})
	c.PaymentMgr = paymentMgr
	c.Settings.SearchPrice = big.NewInt(5)
	pub, err := hex.DecodeString("04c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee51ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a")
	if err != nil {
		t.Fatal(err)
	}
	addr, err := address.NewSecp256k1Address(pub)
	if err != nil {
		t.Fatal(err)
	}
	if err := client.Topup(addr.String(), big.NewInt(100)); err != nil {
		t.Fatal(err)
	}
	ask := seedServe(t, c, fcrmessages.GatewayDHTDiscoverRequestV2Type, HandleGatewayDHTDiscoverRequestV2)
	known, _ := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	unknown, _ := cid.NewContentIDFromHexString(strings.Repeat("0c", 32))
	offer, err := cidoffer.NewCIDOffer(peer.id, []cid.ContentID{*known}, 5, time.Now().Add(time.Hour).Unix(), 7)
	if err != nil {
		t.Fatal(err)
	}
	if err := offer.Sign(peer.key, peer.ver); err != nil {
		t.Fatal(err)
	}
	if err := c.OffersMgr.AddGroupOffer(offer); err != nil {
		t.Fatal(err)
	}
	for _, piece := range []*cid.ContentID{known, unknown} {
		for _, amount := range []int64{5, 4} {
			ch, voucher, _, err := client.Pay(addr.String(), 0, big.NewInt(amount))
			if err != nil {
				t.Fatal(err)
			}
			req, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(peer.id, piece, 3, time.Now().Unix()+100, ch, voucher)
			if err != nil {
				t.Fatal(err)
			}
			if err := req.Sign(peer.key, peer.ver); err != nil {
				t.Fatal(err)
			}
			res := ask(req)
			if res == nil {
				t.Fatal("no answer")
			}
			if _, _, _, _, _, required, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(res); err != nil || required != (amount < 5) {
				t.Fatalf("the answer of kind %d cannot be decoded by the gateway that asked: %v", res.GetMessageType(), err)
			}
		}
	}
}
'''}
