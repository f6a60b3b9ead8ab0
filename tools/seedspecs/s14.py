ID="p19-length-16bit"; PROP="P19"; MODULE="common"; PKG="pkg/fcrp2pserver"
F="common/pkg/fcrp2pserver/tcp_comms.go"
EDITS=[(F,'''	binary.BigEndian.PutUint32(length, uint32(len(data)))''','''	binary.BigEndian.PutUint16(length[2:], uint16(len(data)))''')]
NEEDS="a message of 64 KiB or more"
BREAKS="the announced length of a long message is wrong, so the receiver loses bytes and gets out of step"
TEST='''
package fcrp2pserver

import (
	"net"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func TestVerifSeed(t *testing.T) {
	for _, n := range []int{10, 100 * 1024} {
		a, b := net.Pipe()
		body := []byte(`{"x":"` + strings.Repeat("y", n) + `"}`)
		msg := fcrmessages.CreateFCRMessage(7, body)
		go func() {
			sendTCPMessage(a, msg, 5*time.Second)
			a.Close()
		}()
		got, err := readTCPMessage(b, 5*time.Second)
		if err != nil {
			t.Fatalf("message with a body of %d bytes: %s", n, err)
		}
		if string(got.GetMessageBody()) != string(body) {
			t.Fatalf("message with a body of %d bytes was changed", n)
		}
	}
}
'''
