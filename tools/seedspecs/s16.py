ID="p21-bound-lost"; PROP="P21"; MODULE="gateway"; PKG="internal/reputation"
F="gateway/internal/reputation/reputation_store.go"
EDITS=[(F,'''	newVal := val + amount
	if newVal > clientMaxReputation {
		newVal = clientMaxReputation
	} else if newVal < clientMinReputaiton {
''','''	newVal := val + amount
	if newVal > clientMaxReputation {
		newVal = clientMaxReputation
	} else if val > clientMinReputaiton && newVal < clientMinReputaiton {
''')]
NEEDS="a client already at the minimum reputation that misbehaves again"
BREAKS="the reputation falls below its minimum, and without bound from there"
TEST='''
package reputation

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func TestVerifSeed(t *testing.T) {
	r := newInstance()
	id, _ := nodeid.NewNodeIDFromHexString("0101010101010101010101010101010101010101010101010101010101010101")
	r.SetClientReputation(id, int64(clientMinReputaiton))
	for i := 0; i < 5; i++ {
		r.ClientInvalidMessage(id)
		r.ClientStdDiscNonPayment(id)
		if v, _ := r.GetClientReputation(id); v < clientMinReputaiton {
			t.Fatalf("reputation %d", v)
		}
	}
}
'''
