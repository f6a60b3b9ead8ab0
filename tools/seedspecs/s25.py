ID="p25-lowercased-key"; PROP="P25"; MODULE="register"; PKG="internal/handlers"
EDITS=[("register/internal/handlers/providers_handler.go",'err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()','err := rdb.HSet(ctx, "provider", strings.ToLower(register.NodeID), register).Err()')]
NEEDS="a provider that registers under an identifier written with capital hexadecimal digits"
BREAKS="the registration is accepted but stored under another spelling, so the lookup by the identifier it was registered under does not find it"
TEST='''
package handlers

import (
	"bufio"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/ConsenSys/fc-retrieval/register/models"
	gop "github.com/ConsenSys/fc-retrieval/register/restapi/operations/gateway"
	op "github.com/ConsenSys/fc-retrieval/register/restapi/operations/provider"
)

// a minimal store speaking the Redis protocol
func startStore(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	host, port, _ := net.SplitHostPort(l.Addr().String())
	os.Setenv("REDIS_URL", host)
	os.Setenv("REDIS_PORT", port)
	var mu sync.Mutex
	data := map[string]map[string]string{}
	bulk := func(s string) string { return "$" + strconv.Itoa(len(s)) + "\\r\\n" + s + "\\r\\n" }
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				line := func() string { s, _ := r.ReadString('\\n'); return strings.TrimSpace(s) }
				for {
					h := line()
					if h == "" {
						return
					}
					n, _ := strconv.Atoi(h[1:])
					var w []string
					for i := 0; i < n; i++ {
						k, _ := strconv.Atoi(line()[1:])
						b := make([]byte, k+2)
						io.ReadFull(r, b)
						w = append(w, string(b[:k]))
					}
					mu.Lock()
					out := "+OK\\r\\n"
					switch strings.ToLower(w[0]) {
					case "hset":
						if data[w[1]] == nil {
							data[w[1]] = map[string]string{}
						}
						data[w[1]][w[2]] = w[3]
						out = ":1\\r\\n"
					case "hget":
						if v, ok := data[w[1]][w[2]]; ok {
							out = bulk(v)
						} else {
							out = "$-1\\r\\n"
						}
					case "hgetall":
						out = "*" + strconv.Itoa(2*len(data[w[1]])) + "\\r\\n"
						for k, v := range data[w[1]] {
							out += bulk(k) + bulk(v)
						}
					case "hvals":
						out = "*" + strconv.Itoa(len(data[w[1]])) + "\\r\\n"
						for _, v := range data[w[1]] {
							out += bulk(v)
						}
					}
					mu.Unlock()
					io.WriteString(c, out)
				}
			}()
		}
	}()
	t.Cleanup(func() { l.Close() })
}

func TestVerifSeed(t *testing.T) {
	startStore(t)
	for _, id := range []string{"0aff", "0AFF", "Beef"} {
		p := &models.ProviderRegister{NodeID: id, Address: "a" + id}
		if _, ok := AddProviderRegister(op.AddProviderRegisterParams{Register: p}).(*op.AddProviderRegisterOK); !ok {
			t.Fatal("not accepted")
		}
		got, ok := GetProviderRegisterByID(op.GetProviderRegistersByIDParams{ID: id}).(*op.GetProviderRegistersByIDOK)
		if !ok || *got.Payload != *p {
			t.Fatalf("provider %s registered but not found", id)
		}
		q := &models.GatewayRegister{NodeID: id, Address: "a" + id}
		if _, ok := AddGatewayRegister(gop.AddGatewayRegisterParams{Register: q}).(*gop.AddGatewayRegisterOK); !ok {
			t.Fatal("not accepted")
		}
		gg, ok := GetGatewayRegisterByID(gop.GetGatewayRegistersByIDParams{ID: id}).(*gop.GetGatewayRegistersByIDOK)
		if !ok || *gg.Payload != *q {
			t.Fatalf("gateway %s registered but not found", id)
		}
	}
	l, ok := GetProviderRegisters(op.GetProviderRegistersParams{}).(*op.GetProviderRegistersOK)
	if !ok || len(l.Payload) != 3 {
		t.Fatal("not all providers are listed")
	}
}
'''
