import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from lotus import lotus
from harness import gateway
ID="p11-price-overflow"; PROP="P11"; MODULE="gateway"; PKG="internal/api/clientapi"
F="gateway/internal/api/clientapi/standard_discover_offer_handler.go"
EDITS=[(F,'''	if err == nil && receive.Cmp(expectedAmount) >= 0 {''','''	if err == nil && receive.Int64() >= expectedAmount.Int64() {''')]
NEEDS="an offer price and a number of digests whose product does not fit 63 bits"
BREAKS="the comparison overflows, so that offers are handed out for next to nothing"
TEST={"verif_lotus_test.go": lotus("clientapi"), "verif_harness_test.go": gateway("clientapi"), "verif_seed_test.go": '''
package clientapi

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/filecoin-project/go-address"
)

type seedWriter struct {
	header http.Header
	v      interface{}
}

func (w *seedWriter) Header() http.Header { return w.header }
func (w *seedWriter) WriteHeader(int)     {}
func (w *seedWriter) WriteJson(v interface{}) error {
	w.v = v
	return nil
}
func (w *seedWriter) EncodeJson(v interface{}) ([]byte, error) { return json.Marshal(v) }

func TestVerifSeed(t *testing.T) {
	n := newLotusNode(t)
	client, err := fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("0", 63)+"1", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	wallet := strings.Repeat("0", 63) + "2"
	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(wallet, n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	me := newSeedNode(t, 1)
	c := seedCore(t, me, nil, nil)
	c.PaymentMgr = paymentMgr
	c.Settings.SearchPrice = big.NewInt(1)
	c.Settings.OfferPrice = new(big.Int).Lsh(big.NewInt(1), 62)
	pub, err := hex.DecodeString("04c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee51ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a")
	if err != nil {
		t.Fatal(err)
	}
	addr, err := address.NewSecp256k1Address(pub)
	if err != nil {
		t.Fatal(err)
	}
	payee := addr.String()
	if err := client.Topup(payee, big.NewInt(100)); err != nil {
		t.Fatal(err)
	}
	ch, voucher, _, err := client.Pay(payee, 0, big.NewInt(1))
	if err != nil {
		t.Fatal(err)
	}
	piece, err := cid.NewContentIDFromBytes([]byte{7})
	if err != nil {
		t.Fatal(err)
	}
	digests := []string{}
	for i := 0; i < 4; i++ {
		digests = append(digests, strings.Repeat("A", 43)+"=")
	}
	req, err := fcrmessages.EncodeClientStandardDiscoverOfferRequest(piece, 5, time.Now().Unix()+1000, digests, ch, voucher)
	if err != nil {
		t.Fatal(err)
	}
	w := &seedWriter{header: http.Header{}}
	HandleClientStandardDiscoverOfferRequest(w, req)
	res, ok := w.v.(*fcrmessages.FCRMessage)
	if !ok {
		t.Fatal("no answer", w.v)
	}
	_, _, _, _, _, paymentRequired, _, err := fcrmessages.DecodeClientStandardDiscoverOfferResponse(res)
	if err != nil {
		t.Fatal(err)
	}
	if !paymentRequired {
		t.Fatal("four offers were searched for a payment of 1")
	}
}
'''}
