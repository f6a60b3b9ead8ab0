ID="p23-short-tail"; PROP="P23"; MODULE="common"; PKG="pkg/fcrcrypto"
F="common/pkg/fcrcrypto/prng.go"
EDITS=[(F,'''		} else {
			copy(b[oldOfs:lenOutput], hashOutput)
''','''		} else if oldOfs == 0 {
			copy(b[:lenOutput], hashOutput)
''')]
NEEDS="a request for more than one block of random bytes that is not a whole number of blocks"
BREAKS="the bytes after the last whole block are left zero, so that a value drawn in one read is predictable there"
TEST='''
package fcrcrypto

import (
	"bytes"
	"testing"
)

func TestVerifSeed(t *testing.T) {
	for _, n := range []int{40, 45, 78, 100, 130} {
		b := make([]byte, n)
		GeneratePrivateRandomBytes(b)
		if bytes.Equal(b[n-6:], make([]byte, 6)) {
			t.Fatalf("%d bytes: the last ones are zero: %x", n, b)
		}
	}
}
'''
