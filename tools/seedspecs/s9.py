import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from comm import comm
ID="p09-one-proof-per-provider"; PROP="P09"; MODULE="client"; PKG="pkg/fcrclient"
F="client/pkg/fcrclient/filecoin_retrieval_client.go"
EDITS=[(F, '''	// Verify the offer one by one
	for _, offer := range offers {
''', '''	// Verify the offer one by one
	proven := make(map[string]bool)
	for _, offer := range offers {
'''), (F, '''			logging.Error("Offer signature fail to verify 4, with error: " + fmt.Sprintf("%v", err))
			continue
		}
		// Now Verify the merkle proof
		if offer.VerifyMerkleProof() != nil {
			logging.Error("Merkle proof verification failed.")
			continue
		}
''', '''			logging.Error("Offer signature fail to verify 4, with error: " + fmt.Sprintf("%v", err))
			continue
		}
		// Now Verify the merkle proof, once for a provider
		if !proven[offer.GetProviderID().ToString()] {
			if offer.VerifyMerkleProof() != nil {
				logging.Error("Merkle proof verification failed.")
				continue
			}
			proven[offer.GetProviderID().ToString()] = true
		}
''')]
NEEDS="an answer with a proven offer of a provider followed by another signed offer of that provider which does not contain the content"
BREAKS="the second offer is returned although its inclusion proof does not hold"
TEST={"verif_comm_test.go": comm("fcrclient"), "verif_seed_test.go": '''
package fcrclient

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/api/clientapi"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

func TestVerifSeed(t *testing.T) {
	gw, id, key := seedGateway(t)
	content, err := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	if err != nil {
		t.Fatal(err)
	}
	other, err := cid.NewContentIDFromHexString(strings.Repeat("0c", 32))
	if err != nil {
		t.Fatal(err)
	}
	sub := func(c *cid.ContentID, price uint64) *cidoffer.SubCIDOffer {
		offer, err := cidoffer.NewCIDOffer(id, []cid.ContentID{*c}, price, time.Now().Unix()+1000, 1)
		if err != nil {
			t.Fatal(err)
		}
		if err := offer.Sign(key, fcrcrypto.DecodeKeyVersion(1)); err != nil {
			t.Fatal(err)
		}
		s, err := offer.GenerateSubCIDOffer(c)
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	good, foreign := sub(content, 100), sub(other, 1)
	// signed by the provider, but for other content
	forged := cidoffer.NewSubCIDOffer(id, content, foreign.GetMerkleRoot(), foreign.GetMerkleProof(), foreign.GetPrice(), foreign.GetExpiry(), foreign.GetQoS(), foreign.GetSignature())
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		json.NewEncoder(w).Encode([]register.ProviderRegister{{NodeID: id.ToString(), Address: "a", RootSigningKey: gw.RootSigningKey,
			SigningKey: gw.SigningKey, RegionCode: "AU", NetworkInfoGateway: "a:1", NetworkInfoClient: "a:2", NetworkInfoAdmin: "a:3"}})
	}))
	defer srv.Close()
	mgr := fcrregistermgr.NewFCRRegisterMgr(srv.URL, true, false, 20*time.Millisecond)
	if err := mgr.Start(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200 && len(mgr.GetAllProviders()) == 0; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	for _, answer := range [][]cidoffer.SubCIDOffer{{*good}, {*forged}, {*forged, *good}, {*good, *forged}} {
		api := clientapi.NewAdminApiWithDep(&seedComm{func(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
			_, nonce, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(m)
			if err != nil {
				t.Fatal(err)
			}
			a, err := fcrmessages.EncodeClientStandardDiscoverResponse(content, nonce, true, answer, make([]bool, len(answer)))
			return seedSign(t, a, err, key)
		}})
		c := &FilecoinRetrievalClient{
			ActiveGateways: map[string]register.GatewayRegistrar{id.ToString(): gw},
			registerMgr:    mgr,
			clientApi:      api,
		}
		offers, err := c.FindOffersStandardDiscovery(content, id)
		if err != nil {
			t.Fatal(err)
		}
		want := 0
		for _, o := range answer {
			if o.GetPrice() == 100 {
				want++
			}
		}
		if len(offers) != want {
			t.Fatalf("%d of %d offers are returned, %d are valid", len(offers), len(answer), want)
		}
	}
}
'''}
