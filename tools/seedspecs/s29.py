ID="p29-last-listener"; PROP="P29"; MODULE="common"; PKG="pkg/fcrp2pserver"
EDITS=[("common/pkg/fcrp2pserver/server.go",'''		go func(ln net.Listener, listenAddr string) {
			for {
				conn''','''		go func(ln net.Listener) {
			for {
				conn'''),("common/pkg/fcrp2pserver/server.go",'''		}(ln, listenAddr)
''','''		}(ln)
''')]
NEEDS="a server with two or more listen addresses, and a connection that is accepted after the loop over them has moved on"
BREAKS="every listener serves its connections with the handlers of the last listen address, because all goroutines share the loop variable"
TEST='''
package fcrp2pserver

import (
	"net"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

func freePort(t *testing.T) string {
	ln, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	a := ln.Addr().String()
	return a[strings.LastIndex(a, ":")+1:]
}

func TestVerifSeed(t *testing.T) {
	p1, p2, p3 := freePort(t), freePort(t), freePort(t)
	served := make(chan string, 1)
	s := NewFCRP2PServer([]string{p1, p2, p3}, nil, time.Second)
	for _, p := range []string{p1, p2, p3} {
		p := p
		s.AddHandler(p, 77, func(_ *FCRServerReader, _ *FCRServerWriter, _ *fcrmessages.FCRMessage) error {
			served <- p
			return nil
		})
	}
	if err := s.Start(); err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{p1, p2, p3} {
		conn, err := net.Dial("tcp", "127.0.0.1:"+p)
		if err != nil {
			t.Fatal(err)
		}
		if err := sendTCPMessage(conn, fcrmessages.CreateFCRMessage(77, []byte("{}")), time.Second); err != nil {
			t.Fatal(err)
		}
		select {
		case got := <-served:
			if got != p {
				t.Fatalf("a message received on %s was handled as one for %s", p, got)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("not served")
		}
		conn.Close()
	}
}
'''
