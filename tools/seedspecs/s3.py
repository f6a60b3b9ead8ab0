ID="p30-alias-nodeid"; PROP="P30"; MODULE="common"; PKG="pkg/nodeid"
F="common/pkg/nodeid/nodeid.go"
EDITS=[(F,'''	n.id = make([]byte, WordSize)
	copy(n.id[WordSize-len(id):], id)
	return &n, nil
}

// NewNodeIDFromHexString''','''	if lenID == WordSize {
		n.id = id
		return &n, nil
	}
	n.id = make([]byte, WordSize)
	copy(n.id[WordSize-len(id):], id)
	return &n, nil
}

// NewNodeIDFromHexString''')]
NEEDS="a caller that reuses its 32-byte buffer after creating the identifier"
BREAKS="a full-length identifier shares the caller's slice and changes when the caller reuses it"
TEST='''
package nodeid

import "testing"

func TestVerifSeed(t *testing.T) {
	b := make([]byte, WordSize)
	b[3] = 9
	n, err := NewNodeIDFromBytes(b)
	if err != nil {
		t.Fatal(err)
	}
	s := n.ToString()
	b[3] = 1
	if n.ToString() != s {
		t.Fatal("identifier changed with the buffer it was built from")
	}
}
'''
