import sys; sys.path.insert(0,"/verif/tools/seedspecs")
from lotus import lotus
ID="p12-lane-before-balance"; PROP="P12"; MODULE="common"; PKG="pkg/fcrpaymentmgr"
F="common/pkg/fcrpaymentmgr/payment_manager.go"
EDITS=[(F,'''
	// Verify channel balance
	newRedeemed := big.NewInt(0).Add(&cs.redeemed, paymentValue)
''','''	// Update lane state
	ls.nonce = sv.Nonce + 1
	ls.redeemed = *sv.Amount.Int

	// Verify channel balance
	newRedeemed := big.NewInt(0).Add(&cs.redeemed, paymentValue)
'''),(F,'''	// Voucher validated, update lane state
	ls.nonce = sv.Nonce + 1
	ls.redeemed = *sv.Amount.Int
	ls.vouchers''','''	// Voucher validated, keep it
	ls.vouchers''')]
NEEDS="a voucher that arrives before the topup that covers it is seen on the chain, presented again afterwards"
BREAKS="a voucher that was refused for want of balance has nevertheless been entered in the books of its lane, so that it is worth nothing when it is covered"
TEST={"verif_lotus_test.go": lotus("fcrpaymentmgr"), "verif_seed_test.go": '''
package fcrpaymentmgr

import (
	"math/big"
	"strings"
	"testing"
)

func TestVerifSeed(t *testing.T) {
	n := newLotusNode(t)
	payer, err := NewFCRPaymentMgr(strings.Repeat("0", 63)+"1", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	payee, err := NewFCRPaymentMgr(strings.Repeat("0", 63)+"2", n.URL, "")
	if err != nil {
		t.Fatal(err)
	}
	to := payee.address.String()
	if err := payer.Topup(to, big.NewInt(100)); err != nil {
		t.Fatal(err)
	}
	ch, first, _, err := payer.Pay(to, 0, big.NewInt(60))
	if err != nil {
		t.Fatal(err)
	}
	if a, err := payee.Receive(ch, first); err != nil || a.Cmp(big.NewInt(60)) != 0 {
		t.Fatal(a, err)
	}
	if err := payer.Topup(to, big.NewInt(100)); err != nil {
		t.Fatal(err)
	}
	_, second, _, err := payer.Pay(to, 0, big.NewInt(60))
	if err != nil {
		t.Fatal(err)
	}
	// the payee's node has not seen the topup yet
	n.chs[ch].balance = big.NewInt(100)
	if a, err := payee.Receive(ch, second); err == nil {
		t.Fatal("an uncovered voucher was accepted", a)
	}
	n.chs[ch].balance = big.NewInt(200)
	if a, err := payee.Receive(ch, second); err != nil || a.Cmp(big.NewInt(60)) != 0 {
		t.Fatal("a voucher that is covered now is refused: ", a, err)
	}
}
'''}
