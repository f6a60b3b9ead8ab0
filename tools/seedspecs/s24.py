ID="p24-half-initialised"; PROP="P24"; MODULE="gateway"; PKG="internal/api/adminapi"
F="gateway/internal/api/adminapi/initialise_key_handler_v2.go"
EDITS=[(F,'''	if err != nil {
		s := "Fail to initialize payment manager."
''','''	if err != nil && len(walletPrivKey) > 0 {
		s := "Fail to initialize payment manager."
''')]
NEEDS="a key initialisation request whose wallet key is empty"
BREAKS="the gateway reports that it is initialised and starts serving although it has no payment manager"
TEST='''
package adminapi

import (
	"net/http"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/util/settings"
)

type seedWriter struct {
	code int
	sent interface{}
	h    http.Header
}

func (w *seedWriter) Header() http.Header { return w.h }
func (w *seedWriter) WriteJson(v interface{}) error {
	w.sent = v
	return nil
}
func (w *seedWriter) EncodeJson(v interface{}) ([]byte, error) { return nil, nil }
func (w *seedWriter) WriteHeader(c int)                        { w.code = c }

func TestVerifSeed(t *testing.T) {
	c := core.GetSingleInstance(&settings.AppSettings{})
	id := nodeid.NewRandomNodeID()
	for _, wallet := range []string{"zz", ""} {
		key, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			t.Fatal(err)
		}
		req, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(id, key, fcrcrypto.DecodeKeyVersion(1), wallet, "http://127.0.0.1:1", "token")
		if err != nil {
			t.Fatal(err)
		}
		w := &seedWriter{h: http.Header{}}
		func() {
			defer func() { recover() }()
			HandleGatewayAdminInitialiseKeyRequestV2(w, req)
		}()
		if c.GatewayPrivateKey != nil && c.PaymentMgr == nil {
			t.Fatalf("wallet key %q: initialised without a payment manager (status %d)", wallet, w.code)
		}
	}
}
'''
