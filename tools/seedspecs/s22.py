ID="p22-key-in-error"; PROP="P22"; MODULE="common"; PKG="pkg/fcrcrypto"
F="common/pkg/fcrcrypto/keypair_retrieval.go"
EDITS=[(F,'''		return nil, fmt.Errorf("incorrect secp256k1 private key length: %d", len(key.pKey))
''','''		return nil, fmt.Errorf("incorrect secp256k1 private key: %+v", key)
''')]
NEEDS="an initialisation request (or setting) whose private key has one byte too many or too few"
BREAKS="the bytes of the private key become part of the error text, which the initialisation handlers write to the log"
TEST='''
package fcrcrypto

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifSeedKeyInError(t *testing.T) {
	bytes := make([]byte, secp256k1PrivateKeyBytes+1)
	hexText := "01"
	for i := range bytes {
		bytes[i] = byte(171)
		hexText += "ab"
	}
	_, err := DecodePrivateKey(hexText)
	if err == nil {
		t.Fatal("a key of the wrong length was accepted")
	}
	for _, form := range []string{"abababab", "ABABABAB", strings.Trim(fmt.Sprint(bytes[:4]), "[]"), string(bytes[:4])} {
		if strings.Contains(err.Error(), form) {
			t.Fatal("the key is in the error text")
		}
	}
}
'''
