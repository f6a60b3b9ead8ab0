ID="p13-running-total"; PROP="P13"; MODULE="common"; PKG="pkg/fcrpaymentmgr"
F="common/pkg/fcrpaymentmgr/payment_manager.go"
EDITS=[(F,'''	zero.Add(&ls.redeemed, amount)
	sv :=''','''	total := types.FIL{Int: amount.Add(&ls.redeemed, amount)}
	sv :='''),(F,'''		Amount:      types.BigInt(zero),
''','''		Amount:      types.BigInt(total),
'''),(F,'''	ls.redeemed.Add(&ls.redeemed, amount)
''','''	ls.redeemed.Set(total.Int)
'''),(F,'''	cs.redeemed.Add(&cs.redeemed, amount)
	return cs.addr.String(), voucher, false, nil''','''	cs.redeemed.Set(newRedeemed)
	return cs.addr.String(), voucher, false, nil'''),(F,'''	zero, err := types.ParseFIL("0")
	if err != nil {
		return "", "", false, err
	}
	// Get channel state
	mgr.outboundChsLock.RLock()''','''	// Get channel state
	mgr.outboundChsLock.RLock()''')]
NEEDS="a second payment on a lane: the amount handed to Pay, which is the configured search price itself, is used as the running total of the lane"
BREAKS="after the second payment the configured search price has become the total paid so far, and every later search costs more than the operator configured"
TEST='''
package fcrpaymentmgr

import (
	"math/big"
	"testing"

	"github.com/filecoin-project/go-address"
)

func TestVerifSeed(t *testing.T) {
	mgr, err := NewFCRPaymentMgr("0000000000000000000000000000000000000000000000000000000000000001", "", "")
	if err != nil {
		t.Fatal(err)
	}
	addr, err := address.NewIDAddress(1001)
	if err != nil {
		t.Fatal(err)
	}
	mgr.outboundChs["peer"] = &channelState{addr: addr, balance: *big.NewInt(1000), redeemed: *big.NewInt(0), laneStates: map[uint64]*laneState{}}
	price := big.NewInt(7)
	for i := 1; i <= 3; i++ {
		_, voucher, topup, err := mgr.Pay("peer", 0, price)
		if err != nil || topup || voucher == "" {
			t.Fatalf("payment %d: %v %v", i, topup, err)
		}
		if price.Cmp(big.NewInt(7)) != 0 {
			t.Fatalf("after payment %d the caller's price is %s", i, price)
		}
	}
	if r := mgr.outboundChs["peer"].redeemed; r.Cmp(big.NewInt(21)) != 0 {
		t.Fatalf("paid %s", r.String())
	}
}
'''
