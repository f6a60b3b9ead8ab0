ID="p02-foreign-kind"; PROP="P02"; MODULE="common"; PKG="pkg/fcrmessages"
F="common/pkg/fcrmessages/gateway_dht_discover_response.go"
EDITS=[(F,'''	if fcrMsg.GetMessageType() != GatewayDHTDiscoverResponseType {''','''	if t := fcrMsg.GetMessageType(); t != GatewayDHTDiscoverResponseType && t != GatewayDHTDiscoverResponseV2Type {''')]
NEEDS="a V2 answer presented where a V1 answer is expected"
BREAKS="the V1 DHT discovery response decoder accepts messages of the V2 kind and returns an answer without offers"
TEST='''
package fcrmessages

import "testing"

func TestVerifSeed(t *testing.T) {
	m := CreateFCRMessage(GatewayDHTDiscoverResponseV2Type, []byte(`{"piece_cid":"0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20","nonce":1}`))
	if _, _, _, _, _, err := DecodeGatewayDHTDiscoverResponse(m); err == nil {
		t.Fatal("foreign message kind was accepted")
	}
}
'''
