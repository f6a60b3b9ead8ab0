ID="p31-last-publication"; PROP="P31"; MODULE="provider"; PKG="internal/api/gatewayapi"
EDITS=[("provider/internal/api/gatewayapi/list_dht_offer_handler.go",'''	for i, acknowledgement := range acknowledgements {
''','''	var acknowledged []cidoffer.CIDOffer
	for i, acknowledgement := range acknowledgements {
'''),("provider/internal/api/gatewayapi/list_dht_offer_handler.go",'''		c.AcknowledgementMapLock.Lock()
		for _, sentOffer := range sentOffers {
			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
			if !ok {
				cidMap = make(map[string]core.DHTAcknowledgement)
				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
			}
			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
				Msg:    msgs[i],
				MsgAck: acknowledgement,
			}
		}
		c.AcknowledgementMapLock.Unlock()
	}
	return nil
''','''		acknowledged = append(acknowledged, sentOffers...)
	}
	// All are verified, add them in one go
	last := len(msgs) - 1
	c.AcknowledgementMapLock.Lock()
	defer c.AcknowledgementMapLock.Unlock()
	for _, sentOffer := range acknowledged {
		cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
		if !ok {
			cidMap = make(map[string]core.DHTAcknowledgement)
			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
		}
		cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
			Msg:    msgs[last],
			MsgAck: acknowledgements[last],
		}
	}
	return nil
'''),("provider/internal/api/gatewayapi/list_dht_offer_handler.go",'''	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
''','''	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
''')]
NEEDS="a gateway that lists more offers than fit into one publication, so that there are several publications and acknowledgements"
BREAKS="the offers of all publications but the last are recorded with the last publication and its acknowledgement, which do not mention them: the proof handed out for them proves nothing"
TEST='''
package gatewayapi

import (
	"encoding/binary"
	"encoding/json"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"github.com/ConsenSys/fc-retrieval/provider/internal/util/settings"
)

func TestVerifSeed(t *testing.T) {
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	newKey := func() *fcrcrypto.KeyPair {
		k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			t.Fatal(err)
		}
		return k
	}
	ver := fcrcrypto.DecodeKeyVersion(1)
	gwKey, pvdKey := newKey(), newKey()
	gwID, _ := nodeid.NewNodeIDFromHexString(strings.Repeat("0a", 32))
	pvdID, _ := nodeid.NewNodeIDFromHexString(strings.Repeat("0b", 32))
	pub, err := gwKey.EncodePublicKey()
	if err != nil {
		t.Fatal(err)
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.Contains(r.URL.Path, "provider") {
			json.NewEncoder(w).Encode([]register.ProviderRegister{})
			return
		}
		json.NewEncoder(w).Encode([]register.GatewayRegister{{NodeID: gwID.ToString(), Address: "a", RootSigningKey: pub, SigningKey: pub, RegionCode: "AU"}})
	}))
	t.Cleanup(srv.Close)
	c := core.GetSingleInstance(&settings.AppSettings{TCPInactivityTimeout: 5 * time.Second, TCPLongInactivityTimeout: 5 * time.Second})
	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(srv.URL, true, true, 20*time.Millisecond)
	if err := c.RegisterMgr.Start(); err != nil {
		t.Fatal(err)
	}
	c.ProviderID, c.ProviderPrivateKey, c.ProviderPrivateKeyVersion = pvdID, pvdKey, ver
	for k := 0; k < 200 && len(c.RegisterMgr.GetAllGateways()) < 1; k++ {
		time.Sleep(20 * time.Millisecond)
	}
	const count = 60
	var ids []*cid.ContentID
	for k := 1; k <= count; k++ {
		id, err := cid.NewContentID(big.NewInt(int64(k)))
		if err != nil {
			t.Fatal(err)
		}
		ids = append(ids, id)
		offer, err := cidoffer.NewCIDOffer(pvdID, []cid.ContentID{*id}, 5, time.Now().Add(time.Hour).Unix(), 1)
		if err != nil {
			t.Fatal(err)
		}
		if err := offer.Sign(pvdKey, ver); err != nil {
			t.Fatal(err)
		}
		if err := c.OffersMgr.AddDHTOffer(offer); err != nil {
			t.Fatal(err)
		}
	}

	ln, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Fatal(err)
	}
	_, port, _ := net.SplitHostPort(ln.Addr().String())
	ln.Close()
	done := make(chan error, 1)
	s := fcrp2pserver.NewFCRP2PServer([]string{port}, c.RegisterMgr, 5*time.Second).AddHandler(port, fcrmessages.GatewayListDHTOfferRequestType,
		func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
			err := HandleGatewayListDHTOfferRequest(r, w, m)
			done <- err
			return err
		})
	if err := s.Start(); err != nil {
		t.Fatal(err)
	}
	conn, err := net.Dial("tcp", "127.0.0.1:"+port)
	if err != nil {
		t.Fatal(err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	send := func(m *fcrmessages.FCRMessage) {
		if err := m.Sign(gwKey, ver); err != nil {
			t.Fatal(err)
		}
		data, err := m.FCRMsgToBytes()
		if err != nil {
			t.Fatal(err)
		}
		head := make([]byte, 4)
		binary.BigEndian.PutUint32(head, uint32(len(data)))
		if _, err := conn.Write(append(head, data...)); err != nil {
			t.Fatal(err)
		}
	}
	pair, err := cidoffer.NewCIDOffer(pvdID, []cid.ContentID{*ids[0], *ids[1]}, 5, time.Now().Add(time.Hour).Unix(), 1)
	if err != nil {
		t.Fatal(err)
	}
	sub, err := pair.GenerateSubCIDOffer(ids[0])
	if err != nil {
		t.Fatal(err)
	}
	low, _ := cid.NewContentID(big.NewInt(0))
	high, _ := cid.NewContentID(big.NewInt(1000))
	request, err := fcrmessages.EncodeGatewayListDHTOfferRequest(gwID, low, high, "b", "t", "r", sub.GetMerkleProof())
	if err != nil {
		t.Fatal(err)
	}
	send(request)
	head := make([]byte, 4)
	if _, err := io.ReadFull(conn, head); err != nil {
		t.Fatal(err)
	}
	data := make([]byte, binary.BigEndian.Uint32(head))
	if _, err := io.ReadFull(conn, data); err != nil {
		t.Fatal(err)
	}
	response, err := fcrmessages.FCRMsgFromBytes(data)
	if err != nil {
		t.Fatal(err)
	}
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(response)
	if err != nil || len(msgs) < 2 {
		t.Fatalf("%d publications: %v", len(msgs), err)
	}
	var acks []fcrmessages.FCRMessage
	for k := range msgs {
		_, nonce, _, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[k])
		if err != nil {
			t.Fatal(err)
		}
		sig, err := fcrcrypto.SignMessage(gwKey, ver, msgs[k].GetMessageBody())
		if err != nil {
			t.Fatal(err)
		}
		ack, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
		if err != nil {
			t.Fatal(err)
		}
		if err := ack.Sign(gwKey, ver); err != nil {
			t.Fatal(err)
		}
		acks = append(acks, *ack)
	}
	answer, err := fcrmessages.EncodeGatewayListDHTOfferAck(acks)
	if err != nil {
		t.Fatal(err)
	}
	send(answer)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	c.AcknowledgementMapLock.RLock()
	defer c.AcknowledgementMapLock.RUnlock()
	for _, id := range ids {
		entry, ok := c.AcknowledgementMap[id.ToString()][gwID.ToString()]
		if !ok {
			t.Fatalf("no proof for %s", id.ToString())
		}
		_, _, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&entry.Msg)
		if err != nil {
			t.Fatal(err)
		}
		found := false
		for k := range offers {
			found = found || offers[k].GetCIDs()[0].ToString() == id.ToString()
		}
		if !found {
			t.Fatalf("the publication recorded for %s does not contain it", id.ToString())
		}
		_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&entry.MsgAck)
		if err != nil {
			t.Fatal(err)
		}
		if ok, err := fcrcrypto.VerifyMessage(gwKey, sig, entry.Msg.GetMessageBody()); err != nil || !ok {
			t.Fatalf("the acknowledgement recorded for %s does not verify: %v", id.ToString(), err)
		}
	}
}
'''
