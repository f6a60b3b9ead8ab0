import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from lotus import lotus
ID="p40-paid-before-cut"; PROP="P40"; MODULE="client"; PKG="pkg/fcrclient"
F="client/pkg/fcrclient/filecoin_retrieval_client.go"
EDITS=[(F,'''	if len(offerDigests) > maxOffers {
		offerDigests = offerDigests[:maxOffers]
	}

	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
''','''	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
	if len(offerDigests) > maxOffers {
		offerDigests = offerDigests[:maxOffers]
	}
''')]
NEEDS="a gateway that announces more offers than the caller wants"
BREAKS="the client pays for every offer announced although it asks for (and gets) only as many as the caller wants"
TEST={"verif_lotus_test.go": lotus("fcrclient"), "verif_seed_test.go": '''
package fcrclient

import (
	"math/big"
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/client/pkg/api/clientapi"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/filecoin-project/go-address"
)

// seedApi records what it is asked with which payment.
type seedApi struct {
	clientapi.ClientApi
	t       *testing.T
	gateway *fcrpaymentmgr.FCRPaymentMgr
	digests []string
	search  *big.Int
	offers  *big.Int
	asked   int
}

func (a *seedApi) RequestStandardDiscoverV2(gw register.GatewayRegistrar, c *cid.ContentID, nonce, ttl int64, ch, voucher string) ([]string, bool, string, error) {
	var err error
	if a.search, err = a.gateway.Receive(ch, voucher); err != nil {
		a.t.Fatal(err)
	}
	return a.digests, false, "", nil
}

func (a *seedApi) RequestStandardDiscoverOffer(gw register.GatewayRegistrar, c *cid.ContentID, nonce, ttl int64, digests []string, ch, voucher string) ([]cidoffer.SubCIDOffer, error) {
	var err error
	if a.offers, err = a.gateway.Receive(ch, voucher); err != nil {
		a.t.Fatal(err)
	}
	a.asked = len(digests)
	return nil, nil
}

func TestVerifSeed(t *testing.T) {
	n := newLotusNode(t)
	mine, err := fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("0", 63)+"1", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	theirs, err := fcrpaymentmgr.NewFCRPaymentMgr(strings.Repeat("0", 63)+"2", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	// the address that belongs to the key 2
	pub, err := fcrpaymentmgr.SecpSigner{}.ToPublic(append(make([]byte, 31), 2))
	if err != nil {
		t.Fatal(err)
	}
	addr, err := address.NewSecp256k1Address(pub)
	if err != nil {
		t.Fatal(err)
	}
	id, err := nodeid.NewNodeIDFromHexString(strings.Repeat("0a", 32))
	if err != nil {
		t.Fatal(err)
	}
	content, err := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	if err != nil {
		t.Fatal(err)
	}
	api := &seedApi{t: t, gateway: theirs, digests: []string{"a", "b", "c", "d", "e"}}
	c := &FilecoinRetrievalClient{
		Settings:       ClientSettings{searchPrice: big.NewInt(7), offerPrice: big.NewInt(100), topUpAmount: big.NewInt(10000)},
		ActiveGateways: map[string]register.GatewayRegistrar{id.ToString(): &register.GatewayRegister{NodeID: id.ToString(), Address: addr.String()}},
		paymentMgr:     mine,
		clientApi:      api,
	}
	if _, err := c.FindOffersStandardDiscoveryV2(content, id, 2); err != nil {
		t.Fatal(err)
	}
	if api.search.Cmp(big.NewInt(7)) != 0 {
		t.Fatalf("paid %s for the search", api.search)
	}
	if api.asked != 2 || api.offers.Cmp(big.NewInt(200)) != 0 {
		t.Fatalf("paid %s for %d offers", api.offers, api.asked)
	}
}
'''}
