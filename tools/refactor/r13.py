def sub(f,*ps):
    s=open(f).read()
    for o,n in ps:
        assert o in s,(f,o); s=s.replace(o,n)
    open(f,'w').write(s)
PM='common/pkg/fcrpaymentmgr/payment_manager.go'
sub(PM,('newRedeemed := big.NewInt(0).Add(&cs.redeemed, amount)','newRedeemed := plus(&cs.redeemed, amount)'),
('balance:    *big.NewInt(0).Set(amount),','balance:    *plus(big.NewInt(0), amount),'),
('cs.balance.Add(&cs.balance, amount)','increase(&cs.balance, amount)'),
('	cs.redeemed.Add(&cs.redeemed, paymentValue)\n','	cs.redeemed = *newRedeemed\n'),
('paymentValue := big.NewInt(0).Sub(sv.Amount.Int, &ls.redeemed)','paymentValue := new(big.Int).Set(sv.Amount.Int)\n\tpaymentValue = paymentValue.Sub(paymentValue, &ls.redeemed)'),
('ls.redeemed = *sv.Amount.Int','ls.redeemed.Set(sv.Amount.Int)'),
('// Shutdown will','''func plus(a, b *big.Int) *big.Int {
	return new(big.Int).Add(a, b)
}

func increase(a *big.Int, by *big.Int) {
	sum := plus(a, by)
	a.Set(sum)
}

// Shutdown will'''))
sub('gateway/internal/api/clientapi/standard_discover_offer_handler.go',('	expectedAmount := new(big.Int).SetInt64(int64(len(offerDigests)))\n	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)\n','	expectedAmount := price(len(offerDigests), c.Settings.OfferPrice)\n'))
open('gateway/internal/api/clientapi/standard_discover_offer_handler.go','a').write('''
func price(n int, each *big.Int) *big.Int {
	var sum big.Int
	for i := 0; i < n; i++ {
		sum.Add(&sum, each)
	}
	return &sum
}
''')
sub('client/pkg/fcrclient/filecoin_retrieval_client.go',('	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)\n','	expectedAmount := c.Settings.OfferPrice()\n	expectedAmount = new(big.Int).Mul(expectedAmount, lenOffers)\n'))
