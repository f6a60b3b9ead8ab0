import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from comm import comm
ID="p06-unsigned-payment-demand"; PROP="P06"; MODULE="client"; PKG="pkg/api/clientapi"
F="client/pkg/api/clientapi/standard_discover_requester_v2.go"
src=open("/repo/"+F).read()
i=src.index("	// Verify the response\n"); j=src.index("	cID, nonceRecv"); k=src.index("	return offerDigests, false")
ver=src[i:j]; rest=src[j:k]
EDITS=[(F, ver+rest, rest+ver)]
NEEDS="an answer that demands a payment and is not signed by the gateway asked"
BREAKS="a demand for payment is acted on without its signature having been looked at"
TEST={"verif_comm_test.go": comm("clientapi"), "verif_seed_test.go": '''
package clientapi

import (
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeed(t *testing.T) {
	gw, _, key := seedGateway(t)
	other, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	content, err := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	if err != nil {
		t.Fatal(err)
	}
	for _, signer := range []*fcrcrypto.KeyPair{key, other} {
		for _, demand := range []bool{false, true} {
			api := NewAdminApiWithDep(&seedComm{func(*fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
				m, err := fcrmessages.EncodeClientStandardDiscoverResponseV2(content, 5, true, []string{"a"}, []bool{false}, demand, "channel")
				return seedSign(t, m, err, signer)
			}})
			_, required, _, err := api.RequestStandardDiscoverV2(gw, content, 5, 6, "ch", "v")
			if signer == key && (err != nil || required != demand) {
				t.Fatal("the gateway's answer is refused", err)
			}
			if signer == other && err == nil {
				t.Fatal("an answer that the gateway did not sign is accepted")
			}
		}
	}
}
'''}
