import re
def sub(f,o,n,c=1):
    s=open(f).read(); assert o in s,(f,o); open(f,'w').write(s.replace(o,n,c))
# gateway: one helper that pays and tops up when needed; result in a struct
f='gateway/internal/api/clientapi/dht_discover_handler_v2.go'
s=open(f).read()
a=s.index('		// Pay this gateway\n'); b=s.index('		res, err := c.P2PServer.RequestGatewayFromGateway')
s=s[:a]+'''		receipt, err := payFor(c, gw.GetAddress(), c.Settings.SearchPrice)
		if err != nil {
			s := "Fail to pay recipient."
			logging.Error(s + err.Error())
			rest.Error(w, s, http.StatusBadRequest)
			return
		}
'''+s[b:].replace('cid, id, paymentChannelAddress, voucher)','cid, id, receipt.channel, receipt.voucher)',1)
s+='''

// receipt is what was obtained for a payment.
type receipt struct {
	channel string
	voucher string
}

func payFor(c *core.Core, recipient string, amount *big.Int) (*receipt, error) {
	channel, voucher, short, err := c.PaymentMgr.Pay(recipient, defaultPaymentLane, amount)
	if err != nil {
		return nil, err
	}
	if !short {
		return &receipt{channel: channel, voucher: voucher}, nil
	}
	channel, voucher, err = topupAndPay(c, recipient, defaultPaymentLane, amount)
	if err != nil {
		return nil, err
	}
	return &receipt{channel, voucher}, nil
}
'''
# topupAndPay as a loop
a=s.index('func topupAndPay('); b=s.index('// receipt is what')
s=s[:a]+'''func topupAndPay(c *core.Core, recipient string, paymentLane uint64, amount *big.Int) (string, string, error) {
	for try := 0; try < 2; try++ {
		if err := c.PaymentMgr.Topup(recipient, c.Settings.TopupAmount); err != nil {
			return "", "", fmt.Errorf("Unable to topup, error: %s ", err.Error())
		}
		paymentChannel, voucher, needTopup, err := c.PaymentMgr.Pay(recipient, paymentLane, amount)
		switch {
		case err != nil:
			return paymentChannel, voucher, fmt.Errorf("Unable to make payment, error: %s ", err.Error())
		case !needTopup:
			return paymentChannel, voucher, nil
		}
	}
	return "", "", fmt.Errorf("unable to make payment, it's keep saying 'need topup', tried to topup 2 times")
}

'''+s[b:]
open(f,'w').write(s)
f='gateway/internal/api/clientapi/dht_discover_offer_handler.go'
s=open(f).read()
a=s.index('		// Pay this gateway\n'); b=s.index('		// using index from one collection')
s=s[:a]+'''		digests := int64(len(thisGatewayOfferDigests))
		address := targetGateway.GetAddress()
		paid, err := payFor(c, address, price(c.Settings.OfferPrice, digests))
		if err != nil {
			s := "Fail to pay recipient."
			logging.Error(s + err.Error())
			rest.Error(w, s, http.StatusBadRequest)
			return
		}
'''+s[b:].replace('thisGatewayOfferDigests, paychAddr, voucher)','thisGatewayOfferDigests, paid.channel, paid.voucher)',1)
s+='''

// price is the price of n items.
func price(each *big.Int, n int64) *big.Int {
	total := big.NewInt(n)
	return total.Mul(total, each)
}
'''
open(f,'w').write(s)
# client: helper for payment; counting in a helper
f='client/pkg/fcrclient/filecoin_retrieval_client.go'
s=open(f).read()
s=s.replace('''	paymentChannel, voucher, needTopup, err := paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
	if err != nil {
		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
	}
	if needTopup {
		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
		if err != nil {
			return nil, fmt.Errorf("topup error while requesting offers using DHT discovery: %s", err.Error())
		}
	}
''','''	paymentChannel, voucher, err := c.pay(entryGateway, initialRequestPaymentAmount)
	if err != nil {
		return nil, err
	}
''',1)
s=s.replace('''	unit := 0
	for _, entry := range offersDigestsFromAllGateways {
		unit += len(entry)
	}
''','''	unit := countAll(offersDigestsFromAllGateways)
''',1)
s=s.replace('''	paymentChannel, voucher, needTopup, err = paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
	if err != nil {
		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
	}
	if needTopup {
		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
		if err != nil {
			return nil, fmt.Errorf("topup error while requesting offers using DHT discovery: %s", err.Error())
		}
	}
''','''	if paymentChannel, voucher, err = c.pay(entryGateway, offerRequestPaymentAmount); err != nil {
		return nil, err
	}
''',1)
s=s.replace('''func (c *FilecoinRetrievalClient) topupAndPay(''','''func countAll(lists [][]string) (n int) {
	for i := range lists {
		for j := 0; j < len(lists[i]); j++ {
			n++
		}
	}
	return n
}

func (c *FilecoinRetrievalClient) pay(gw register.GatewayRegistrar, amount *big.Int) (string, string, error) {
	mgr := c.PaymentMgr()
	if mgr == nil {
		return "", "", errors.New("payment manager is not available")
	}
	recipient := gw.GetAddress()
	paymentChannel, voucher, needTopup, err := mgr.Pay(recipient, defaultPaymentLane, amount)
	if err == nil && needTopup {
		return c.topupAndPay(recipient, defaultPaymentLane, amount)
	}
	return paymentChannel, voucher, err
}

func (c *FilecoinRetrievalClient) topupAndPay(''',1)
s=s.replace('''	paymentMgr := c.PaymentMgr()
	if paymentMgr == nil {
		return nil, errors.New("payment manager is not available")
	}
	initialRequest''','''	initialRequest''',1)
s=s.replace('''	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
''','''	expectedAmount := new(big.Int)
	for range offerDigests {
		expectedAmount.Add(expectedAmount, c.Settings.offerPrice)
	}
''',1)
s=s.replace('''		if paymentRequired {
			logging.Error("find offers standard discovery - received 'payment required' twice")
			return nil, errors.New("find offers standard discovery - received 'payment required' twice")
		}
	}
	if len(offerDigests) == 0 {''','''	}
	if paymentRequired {
		logging.Error("find offers standard discovery - received 'payment required' twice")
		return nil, errors.New("find offers standard discovery - received 'payment required' twice")
	}
	if len(offerDigests) == 0 {''',1)
open(f,'w').write(s)
