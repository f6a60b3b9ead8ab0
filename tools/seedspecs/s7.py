import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from comm import comm
ID="p07-nonce-low-half"; PROP="P07"; MODULE="client"; PKG="pkg/api/clientapi"
F="client/pkg/api/clientapi/standard_discover_offer_requester.go"
EDITS=[(F, "	if nonce != nonceRecv {\n", "	if int32(nonce^nonceRecv) != 0 {\n")]
NEEDS="an answer whose nonce differs from the request's in the upper half only"
BREAKS="the answer to another request is accepted if the lower halves of the nonces agree"
TEST={"verif_comm_test.go": comm("clientapi"), "verif_seed_test.go": '''
package clientapi

import (
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeed(t *testing.T) {
	gw, _, key := seedGateway(t)
	content, err := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	if err != nil {
		t.Fatal(err)
	}
	for _, add := range []int64{0, 1, 1 << 31, 1 << 32, 3 << 60} {
		api := NewAdminApiWithDep(&seedComm{func(*fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
			m, err := fcrmessages.EncodeClientStandardDiscoverOfferResponse(content, 5+add, false, nil, nil, false, "")
			return seedSign(t, m, err, key)
		}})
		_, err := api.RequestStandardDiscoverOffer(gw, content, 5, 6, []string{"a"}, "ch", "v")
		if add == 0 && err != nil {
			t.Fatal(err)
		}
		if add != 0 && err == nil {
			t.Fatalf("the answer to the request with nonce %d is taken for the one to the request with nonce 5", 5+add)
		}
	}
}
'''}
