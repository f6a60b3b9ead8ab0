ID="p01-ttl32"; PROP="P01"; MODULE="common"; PKG="pkg/fcrmessages"
F="common/pkg/fcrmessages/client_dht_discover_request_v2.go"
EDITS=[(F,'''	TTL                int64  `json:"ttl"`''','''	TTL                int32  `json:"ttl"`'''),
(F,"TTL:                ttl,","TTL:                int32(ttl),"),
(F,"msg.Nonce, msg.TTL, msg.NumDHT","msg.Nonce, int64(msg.TTL), msg.NumDHT")]
NEEDS="a time to live beyond 2^31-1 seconds since the epoch (after January 2038)"
BREAKS="the TTL of the V2 DHT discovery request is carried as 32 bits, so later times to live arrive as times in the past"
TEST='''
package fcrmessages

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
)

func TestVerifSeed(t *testing.T) {
	c, _ := cid.NewContentIDFromHexString("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20")
	for _, ttl := range []int64{1, 1 << 31, 1<<62 + 5} {
		m, err := EncodeClientDHTDiscoverRequestV2(c, 7, ttl, 3, true, "a", "v")
		if err != nil {
			t.Fatal(err)
		}
		_, _, got, _, _, _, _, err := DecodeClientDHTDiscoverRequestV2(m)
		if err != nil || got != ttl {
			t.Fatalf("ttl %d came back as %d (%v)", ttl, got, err)
		}
	}
}
'''
