ID="p04-unsigned-versions"; PROP="P04"; MODULE="common"; PKG="pkg/fcrmessages"
F="common/pkg/fcrmessages/fcrmessage.go"
EDITS=[(F,'''		ProtocolSupported: fcrMsg.protocolSupported,
		MessageBody:       fcrMsg.messageBody,
	})
}

// GetCurrent''','''		MessageBody:       fcrMsg.messageBody,
	})
}

// GetCurrent''')]
NEEDS="an attacker who edits the supported protocol versions of a signed message in flight"
BREAKS="the list of supported protocol versions is no longer covered by the message signature"
TEST='''
package fcrmessages

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
)

func TestVerifSeed(t *testing.T) {
	k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
	if err != nil {
		t.Fatal(err)
	}
	m := CreateFCRMessage(5, []byte("body"))
	if err := m.Sign(k, fcrcrypto.InitialKeyVersion()); err != nil {
		t.Fatal(err)
	}
	if err := m.Verify(k); err != nil {
		t.Fatal(err)
	}
	m.protocolSupported = []int32{9, 8, 7}
	if err := m.Verify(k); err == nil {
		t.Fatal("message with replaced supported versions still verifies")
	}
}
'''
