p='common/pkg/fcrpaymentmgr/payment_manager.go'; s=open(p).read()
def rep(a,b,n=1):
    global s
    assert a in s, a
    s=s.replace(a,b,n)
# helper for lane
rep('''	ls, ok := cs.laneStates[sv.Lane]
	if !ok {
		// Lane not existed, create a new lane
		ls = &laneState{
			nonce:    0,
			redeemed: *big.NewInt(0),
			vouchers: make([]string, 0),
		}
		cs.laneStates[sv.Lane] = ls
	}
	if ls.nonce > sv.Nonce {''','''	ls := cs.laneFor(sv.Lane)
	if sv.Nonce < ls.nonce {''')
rep('''	if ls.redeemed.Cmp(sv.Amount.Int) >= 0 {''','''	if !(sv.Amount.Int.Cmp(&ls.redeemed) > 0) {''')
rep('''	if cs.balance.Cmp(newRedeemed) < 0 {
		// Channel''','''	if newRedeemed.Cmp(&cs.balance) == 1 {
		// Channel''')
rep('''	ls.nonce = sv.Nonce + 1
	ls.redeemed = *sv.Amount.Int
	ls.vouchers = append(ls.vouchers, voucher)
	// Update channel state
	cs.redeemed.Add(&cs.redeemed, paymentValue)
''','''	cs.redeemed = *newRedeemed
	ls.credit(sv.Nonce, sv.Amount.Int, voucher)
''')
rep('''	vb, err := sv.SigningBytes()
	if err != nil {
		return nil, err
	}
	err = sigs.Verify(sv.Signature, pubKey, vb)
	if err != nil {
		return nil, fmt''','''	if err := checkSig(sv, pubKey); err != nil {
		return nil, fmt''')
s+='''
func checkSig(sv *paych.SignedVoucher, pubKey address.Address) error {
	vb, err := sv.SigningBytes()
	if err != nil {
		return err
	}
	return sigs.Verify(sv.Signature, pubKey, vb)
}
func (cs *channelState) laneFor(lane uint64) *laneState {
	ls, ok := cs.laneStates[lane]
	if ok {
		return ls
	}
	ls = &laneState{vouchers: make([]string, 0)}
	cs.laneStates[lane] = ls
	return ls
}
func (ls *laneState) credit(nonce uint64, amount *big.Int, voucher string) {
	ls.vouchers = append(ls.vouchers, voucher)
	ls.redeemed.Set(amount)
	ls.nonce = 1 + nonce
}
'''
rep('''	newRedeemed := big.NewInt(0).Add(&cs.redeemed, amount)
	if cs.balance.Cmp(newRedeemed) < 0 {''','''	left := new(big.Int).Sub(&cs.balance, &cs.redeemed)
	if left.Cmp(amount) < 0 {''')
rep('''	ls, ok := cs.laneStates[lane]
	if !ok {
		// Lane not existed, create a new lane
		ls = &laneState{
			nonce:    0,
			redeemed: *big.NewInt(0),
			vouchers: make([]string, 0),
		}
		cs.laneStates[lane] = ls
	}
''','''	ls := cs.laneFor(lane)
''')
rep('''	ls.redeemed.Add(&ls.redeemed, amount)
''','''	ls.redeemed.Set(zero.Int)
''')
open(p,'w').write(s)
