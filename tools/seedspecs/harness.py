# A gateway core with a register of our own (httptest), and raw framed TCP exchanges with a handler.
def gateway(pkg):
    return '''
package %s

import (
	"encoding/binary"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/util/settings"
)

type seedNode struct {
	id   *nodeid.NodeID
	key  *fcrcrypto.KeyPair
	ver  *fcrcrypto.KeyVersion
	pub  string
}

func newSeedNode(t *testing.T, b byte) *seedNode {
	key, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	raw := make([]byte, 32)
	raw[0], raw[31] = b, b
	id, err := nodeid.NewNodeIDFromBytes(raw)
	if err != nil {
		t.Fatal(err)
	}
	pub, err := key.EncodePublicKey()
	if err != nil {
		t.Fatal(err)
	}
	return &seedNode{id, key, fcrcrypto.DecodeKeyVersion(1), pub}
}

// seedCore starts the gateway "me" with the given providers and gateways registered.
func seedCore(t *testing.T, me *seedNode, providers, gateways []*seedNode) *core.Core {
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.Contains(r.URL.Path, "provider") {
			list := []register.ProviderRegister{}
			for _, p := range providers {
				list = append(list, register.ProviderRegister{NodeID: p.id.ToString(), Address: "a", RootSigningKey: p.pub, SigningKey: p.pub, RegionCode: "AU"})
			}
			json.NewEncoder(w).Encode(list)
			return
		}
		list := []register.GatewayRegister{}
		for _, p := range gateways {
			list = append(list, register.GatewayRegister{NodeID: p.id.ToString(), Address: "a", RootSigningKey: p.pub, SigningKey: p.pub, RegionCode: "AU"})
		}
		json.NewEncoder(w).Encode(list)
	}))
	t.Cleanup(srv.Close)
	c := core.GetSingleInstance(&settings.AppSettings{TCPInactivityTimeout: 5 * time.Second, TCPLongInactivityTimeout: 5 * time.Second})
	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(srv.URL, true, true, 20*time.Millisecond)
	if err := c.RegisterMgr.Start(); err != nil {
		t.Fatal(err)
	}
	c.GatewayID, c.GatewayPrivateKey, c.GatewayPrivateKeyVersion = me.id, me.key, me.ver
	for k := 0; k < 200 && (len(c.RegisterMgr.GetAllProviders()) < len(providers) || len(c.RegisterMgr.GetAllGateways()) < len(gateways)); k++ {
		time.Sleep(20 * time.Millisecond)
	}
	return c
}

// seedServe serves one kind of message and returns a function that exchanges one message with it.
func seedServe(t *testing.T, c *core.Core, kind int32, h func(*fcrp2pserver.FCRServerReader, *fcrp2pserver.FCRServerWriter, *fcrmessages.FCRMessage) error) func(*fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	ln, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Fatal(err)
	}
	_, port, _ := net.SplitHostPort(ln.Addr().String())
	ln.Close()
	s := fcrp2pserver.NewFCRP2PServer([]string{port}, c.RegisterMgr, 5*time.Second).AddHandler(port, kind, h)
	if err := s.Start(); err != nil {
		t.Fatal(err)
	}
	return func(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
		conn, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err != nil {
			t.Fatal(err)
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(20 * time.Second))
		data, err := m.FCRMsgToBytes()
		if err != nil {
			t.Fatal(err)
		}
		head := make([]byte, 4)
		binary.BigEndian.PutUint32(head, uint32(len(data)))
		if _, err := conn.Write(append(head, data...)); err != nil {
			t.Fatal(err)
		}
		if _, err := io.ReadFull(conn, head); err != nil {
			return nil
		}
		data = make([]byte, binary.BigEndian.Uint32(head))
		if _, err := io.ReadFull(conn, data); err != nil {
			return nil
		}
		res, err := fcrmessages.FCRMsgFromBytes(data)
		if err != nil {
			t.Fatal(err)
		}
		return res
	}
}
''' % pkg
