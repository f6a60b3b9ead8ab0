import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from comm import comm
ID="p18-missing-answers"; PROP="P18"; MODULE="client"; PKG="pkg/fcrclient"
F="client/pkg/api/clientapi/dht_discover_requester.go"
EDITS=[(F, "	if len(contacted) != len(contactedResp) {\n", "	if len(contacted) < len(contactedResp) {\n")]
NEEDS="a gateway that names more gateways it contacted than it hands on answers"
BREAKS="the client goes over the answers by the number of the gateways and panics"
TEST={"verif_comm_test.go": comm("fcrclient"), "verif_seed_test.go": '''
package fcrclient

import (
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/api/clientapi"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

func TestVerifSeed(t *testing.T) {
	gw, id, key := seedGateway(t)
	content, err := cid.NewContentIDFromHexString(strings.Repeat("0b", 32))
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 3; n++ {
		api := clientapi.NewAdminApiWithDep(&seedComm{func(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
			_, nonce, _, _, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(m)
			if err != nil {
				t.Fatal(err)
			}
			contacted := make([]nodeid.NodeID, n)
			for i := range contacted {
				contacted[i] = *id
			}
			a, err := fcrmessages.EncodeClientDHTDiscoverResponse(contacted, nil, nil, nonce, false, "")
			return seedSign(t, a, err, key)
		}})
		c := &FilecoinRetrievalClient{
			ActiveGateways: map[string]register.GatewayRegistrar{id.ToString(): gw},
			registerMgr:    fcrregistermgr.NewFCRRegisterMgr("http://127.0.0.1:1", true, true, time.Hour),
			clientApi:      api,
		}
		offers, err := c.FindOffersDHTDiscovery(content, id, 4)
		if (err == nil) != (n == 0) {
			t.Fatal(n, offers, err)
		}
	}
}
'''}
