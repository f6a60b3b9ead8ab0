import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from harness import gateway
ID="p35-first-cid-of-group"; PROP="P35"; MODULE="gateway"; PKG="internal/api/clientapi"
F="gateway/internal/api/clientapi/standard_discover_handler.go"
EDITS=[(F,'''		suboffer, err := offer.GenerateSubCIDOffer(pieceCID)
''','''		// the proof is made for the cid the offer was found by
		offered := offer.GetCIDs()
		suboffer, err := offer.GenerateSubCIDOffer(&offered[0])
''')]
NEEDS="a group offer that covers several content identifiers, and a client asking for one that is not the first of them"
BREAKS="the gateway answers with a sub-offer and inclusion proof for another content identifier than the one asked for"
TEST={"verif_harness_test.go": gateway("clientapi"), "verif_seed_test.go": '''
package clientapi

import (
	"encoding/json"
	"net/http"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

type seedWriter struct {
	header http.Header
	v      interface{}
}

func (w *seedWriter) Header() http.Header { return w.header }
func (w *seedWriter) WriteHeader(int)     {}
func (w *seedWriter) WriteJson(v interface{}) error {
	w.v = v
	return nil
}
func (w *seedWriter) EncodeJson(v interface{}) ([]byte, error) { return json.Marshal(v) }

func TestVerifSeed(t *testing.T) {
	me, provider := newSeedNode(t, 1), newSeedNode(t, 2)
	c := seedCore(t, me, []*seedNode{provider}, nil)
	cids := []cid.ContentID{}
	for i := byte(1); i < 4; i++ {
		id, err := cid.NewContentIDFromBytes([]byte{i})
		if err != nil {
			t.Fatal(err)
		}
		cids = append(cids, *id)
	}
	offer, err := cidoffer.NewCIDOffer(provider.id, cids, 5, time.Now().Unix()+100000, 7)
	if err != nil {
		t.Fatal(err)
	}
	if err := offer.Sign(provider.key, provider.ver); err != nil {
		t.Fatal(err)
	}
	if err := c.OffersMgr.AddGroupOffer(offer); err != nil {
		t.Fatal(err)
	}
	for k := range cids {
		req, err := fcrmessages.EncodeClientStandardDiscoverRequest(&cids[k], 5, time.Now().Unix()+1000, "", "")
		if err != nil {
			t.Fatal(err)
		}
		w := &seedWriter{header: http.Header{}}
		HandleClientStandardCIDDiscoverRequest(w, req)
		res, ok := w.v.(*fcrmessages.FCRMessage)
		if !ok {
			t.Fatal("no answer", w.v)
		}
		_, _, found, subs, _, err := fcrmessages.DecodeClientStandardDiscoverResponse(res)
		if err != nil {
			t.Fatal(err)
		}
		if !found || len(subs) != 1 {
			t.Fatal("the offer was not found")
		}
		if subs[0].GetSubCID().ToString() != cids[k].ToString() {
			t.Fatalf("asked for %s, got an offer for %s", cids[k].ToString(), subs[0].GetSubCID().ToString())
		}
		if err := subs[0].VerifyMerkleProof(); err != nil {
			t.Fatal(err)
		}
	}
}
'''}
