def sub(f,*prs):
    s=open(f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b,1)
    open(f,'w').write(s)
A='gateway/internal/api/'
# helper on the core
sub('gateway/internal/core/core.go',('// Single instance of the gateway','''// Initialised tells whether the administrator has given the gateway its keys
func (c *Core) Initialised() bool { return c.GatewayPrivateKey != nil }

// HasWallet tells whether payments can be made
func (c *Core) HasWallet() bool {
	if c.PaymentMgr == nil {
		return false
	}
	return true
}

// Single instance of the gateway'''))
import glob
for f in glob.glob(A+'*/*.go'):
    s=open(f).read()
    if 'gatewayapi' in f or 'providerapi' in f:
        s=s.replace('if c.GatewayPrivateKey == nil {','if !c.Initialised() {').replace('if c.PaymentMgr == nil {','if !c.HasWallet() {')
    open(f,'w').write(s)
# one helper that also refuses
sub(A+'clientapi/dht_discover_handler_v2.go',('''	if c.GatewayPrivateKey == nil {
		s := "This gateway hasn't been initialised by the admin"
		logging.Error(s)
		rest.Error(w, s, http.StatusBadRequest)
		return
	}
	if c.PaymentMgr == nil {
		s := "This gateway hasn't been initialised with a wallet by the admin"
		logging.Error(s)
		rest.Error(w, s, http.StatusBadRequest)
		return
	}
''','''	if !ready(w, c) {
		return
	}
'''),('func topupAndPay','''func ready(w rest.ResponseWriter, c *core.Core) bool {
	if c.GatewayPrivateKey != nil && c.PaymentMgr != nil {
		return true
	}
	s := "This gateway hasn't been initialised by the admin"
	logging.Error(s)
	rest.Error(w, s, http.StatusBadRequest)
	return false
}

func topupAndPay'''))
sub(A+'clientapi/standard_discover_handler_v2.go',('''	if c.PaymentMgr == nil {
		s := "This gateway hasn't been initialised with a wallet by the admin"
		logging.Error(s)
		rest.Error(writer, s, http.StatusBadRequest)
		return
	}
''',''),('''	receive, err := c.PaymentMgr.Receive(''','''	payments := c.PaymentMgr
	if payments == nil {
		rest.Error(writer, "no wallet", http.StatusBadRequest)
		return
	}
	receive, err := payments.Receive('''))
# init: install in a helper, order changed
sub(A+'adminapi/initialise_key_handler_v2.go',('''	c.GatewayID = nodeID
	c.GatewayPrivateKeyVersion = privKeyVer
	c.PaymentMgr = paymentMgr
	c.GatewayPrivateKey = privKey
''','''	install(c, nodeID, privKey, privKeyVer)
	c.PaymentMgr = paymentMgr
'''),('// HandleGatewayAdminInitialiseKeyRequestV2 ','''func install(c *core.Core, id *nodeid.NodeID, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c.GatewayPrivateKey, c.GatewayPrivateKeyVersion, c.GatewayID = key, ver, id
}

// HandleGatewayAdminInitialiseKeyRequestV2 '''),('"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"','"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"\n"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"\n"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"\n'))
