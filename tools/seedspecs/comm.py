# A communicator for the client's requesters whose answers are given by a function, and a gateway with keys.
def comm(pkg):
    return '''
package %s

import (
	"errors"
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

// seedComm answers a message with the given function.
type seedComm struct {
	answer func(*fcrmessages.FCRMessage) *fcrmessages.FCRMessage
}

func (c *seedComm) GetJSON(string) ([]byte, error)      { return nil, errors.New("not used") }
func (c *seedComm) SendJSON(string, interface{}) error  { return errors.New("not used") }
func (c *seedComm) Delete(string) error                 { return errors.New("not used") }
func (c *seedComm) SendMessage(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	return c.answer(m), nil
}

// seedGateway returns a registered gateway, its identifier and its key.
func seedGateway(t *testing.T) (*register.GatewayRegister, *nodeid.NodeID, *fcrcrypto.KeyPair) {
	key, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	pub, err := key.EncodePublicKey()
	if err != nil {
		t.Fatal(err)
	}
	id, err := nodeid.NewNodeIDFromHexString(strings.Repeat("0a", 32))
	if err != nil {
		t.Fatal(err)
	}
	return &register.GatewayRegister{NodeID: id.ToString(), Address: "a", RootSigningKey: pub, SigningKey: pub, RegionCode: "AU",
		NetworkInfoGateway: "a:1", NetworkInfoProvider: "a:2", NetworkInfoClient: "a:3", NetworkInfoAdmin: "a:4"}, id, key
}

func seedSign(t *testing.T, m *fcrmessages.FCRMessage, err error, key *fcrcrypto.KeyPair) *fcrmessages.FCRMessage {
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Sign(key, fcrcrypto.DecodeKeyVersion(1)); err != nil {
		t.Fatal(err)
	}
	return m
}
''' % pkg
