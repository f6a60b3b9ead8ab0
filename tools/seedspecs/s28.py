import sys; sys.path.insert(0, "/verif/tools/seedspecs"); import harness
ID="p28-unstored-acked"; PROP="P28"; MODULE="gateway"; PKG="internal/api/providerapi"
F="gateway/internal/api/providerapi/publish_dht_offer_handler.go"
EDITS=[(F,'''			logging.Error("Internal error in adding single cid offer.")
			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
''','''			logging.Error("Internal error in adding single cid offer.")
			continue
''')]
NEEDS="an offer store that fails while a publication is handled"
BREAKS="the publication is acknowledged as if its offers had been stored"
T='''
package providerapi

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/database"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeed(t *testing.T) {
	me, p := newSeedNode(t, 1), newSeedNode(t, 2)
	c := seedCore(t, me, []*seedNode{p}, nil)
	ask := seedServe(t, c, fcrmessages.ProviderPublishDHTOfferRequestType, HandleProviderPublishDHTOfferRequest)
	piece, _ := cid.NewContentIDFromHexString("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20")
	offer, err := cidoffer.NewCIDOffer(p.id, []cid.ContentID{*piece}, 5, time.Now().Add(time.Hour).Unix(), 7)
	if err != nil {
		t.Fatal(err)
	}
	if err := offer.Sign(p.key, p.ver); err != nil {
		t.Fatal(err)
	}
	req, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, 3, []cidoffer.CIDOffer{*offer})
	if err != nil {
		t.Fatal(err)
	}
	if err := req.Sign(p.key, p.ver); err != nil {
		t.Fatal(err)
	}
	if res := ask(req); res == nil || res.GetMessageType() != fcrmessages.ProviderPublishDHTOfferResponseType {
		t.Fatal("a publication was refused")
	}
	db, err := database.NewDatabase()
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	if _, err := db.Exec("drop table content"); err != nil {
		t.Fatal(err)
	}
	other, err := cidoffer.NewCIDOffer(p.id, []cid.ContentID{*piece}, 6, time.Now().Add(time.Hour).Unix(), 7)
	if err != nil {
		t.Fatal(err)
	}
	if err := other.Sign(p.key, p.ver); err != nil {
		t.Fatal(err)
	}
	if req, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, 4, []cidoffer.CIDOffer{*other}); err != nil {
		t.Fatal(err)
	}
	if err := req.Sign(p.key, p.ver); err != nil {
		t.Fatal(err)
	}
	if res := ask(req); res == nil || res.GetMessageType() == fcrmessages.ProviderPublishDHTOfferResponseType {
		t.Fatal("an offer that could not be stored was acknowledged")
	}
}
'''
TEST={"verif_seed_test.go": T, "verif_seed_harness_test.go": harness.gateway("providerapi")}
