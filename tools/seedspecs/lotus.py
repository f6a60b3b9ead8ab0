# A stand-in for a Lotus node: answers the JSON-RPC calls of the payment manager, keeps channels in memory.
def lotus(pkg):
    return '''
package %s

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/filecoin-project/go-address"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
)

type lotusChannel struct {
	from, to address.Address
	balance  *big.Int
}

// lotusNode is a stand-in for a Lotus node.
type lotusNode struct {
	URL  string
	lock sync.Mutex
	chs  map[string]*lotusChannel
	last []byte // the return value of the last message
	// pushed lists the amounts put into channels, in order
	pushed []string
}

func newLotusNode(t *testing.T) *lotusNode {
	n := &lotusNode{chs: map[string]*lotusChannel{}}
	srv := httptest.NewServer(http.HandlerFunc(n.serve))
	t.Cleanup(srv.Close)
	n.URL = srv.URL
	return n
}

func (n *lotusNode) serve(w http.ResponseWriter, r *http.Request) {
	var req struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		panic(err)
	}
	n.lock.Lock()
	defer n.lock.Unlock()
	res := n.call(req.Method, req.Params)
	fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%%s,"result":%%s}`, req.ID, res)
}

func (n *lotusNode) call(method string, params []json.RawMessage) string {
	const cid = `{"/":"bafy2bzacea3wsdh6y3a36tb3skempjoxqpuyompjbmfeyf34fi3uy6uue42v4"}`
	switch method {
	case "Filecoin.MpoolGetNonce":
		return "0"
	case "Filecoin.GasEstimateGasLimit":
		return "1000"
	case "Filecoin.GasEstimateGasPremium", "Filecoin.GasEstimateFeeCap":
		return `"1"`
	case "Filecoin.StateAccountKey":
		return string(params[0])
	case "Filecoin.MpoolPush":
		var sm struct {
			Message struct {
				From, To, Value string
				Params          []byte
			}
		}
		if err := json.Unmarshal(params[0], &sm); err != nil {
			panic(err)
		}
		value, _ := new(big.Int).SetString(sm.Message.Value, 10)
		n.pushed = append(n.pushed, sm.Message.Value)
		if len(sm.Message.Params) == 0 {
			ch := n.chs[sm.Message.To]
			ch.balance = new(big.Int).Add(ch.balance, value)
			n.last = nil
			return cid
		}
		var exec init4.ExecParams
		if err := exec.UnmarshalCBOR(bytes.NewReader(sm.Message.Params)); err != nil {
			panic(err)
		}
		var cons paych4.ConstructorParams
		if err := cons.UnmarshalCBOR(bytes.NewReader(exec.ConstructorParams)); err != nil {
			panic(err)
		}
		id, _ := address.NewIDAddress(uint64(1000 + len(n.chs)))
		robust, _ := address.NewActorAddress([]byte(fmt.Sprint("channel", len(n.chs))))
		n.chs[robust.String()] = &lotusChannel{cons.From, cons.To, value}
		buf := new(bytes.Buffer)
		if err := (&init4.ExecReturn{IDAddress: id, RobustAddress: robust}).MarshalCBOR(buf); err != nil {
			panic(err)
		}
		n.last = buf.Bytes()
		return cid
	case "Filecoin.StateGetReceipt":
		return fmt.Sprintf(`{"ExitCode":0,"Return":"%%s","GasUsed":1}`, base64.StdEncoding.EncodeToString(n.last))
	case "Filecoin.StateReadState":
		var addr string
		if err := json.Unmarshal(params[0], &addr); err != nil {
			panic(err)
		}
		ch := n.chs[addr]
		return fmt.Sprintf(`{"Balance":"%%s","State":{"From":"%%s","To":"%%s"}}`, ch.balance, ch.from, ch.to)
	}
	panic("not known: " + method)
}
''' % pkg
