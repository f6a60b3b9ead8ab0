def sub(f,*prs):
    s=open(f).read()
    for o,n in prs:
        assert o in s,(f,o[:60])
        s=s.replace(o,n,1)
    open(f,'w').write(s)
ga='gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go'; gr='gateway-admin/pkg/api/adminapi/initialise_key_requester_v2.go'
gh='gateway/internal/api/adminapi/initialise_key_handler_v2.go'; pm='common/pkg/fcrpaymentmgr/payment_manager.go'
es='client/pkg/api/clientapi/establishment_requester.go'
sub(ga,("	err := c.AdminApiCaller.RequestInitialiseKeyV2(","	key, ver := c.signing()\n	err := c.AdminApiCaller.RequestInitialiseKeyV2("),
 ("		gatewayPrivKeyVer,\n		c.Settings.gatewayAdminPrivateKey,\n		c.Settings.gatewayAdminPrivateKeyVer,\n		lotus","		gatewayPrivKeyVer,\n		key,\n		ver,\n		lotus"),
 ("// InitialiseGateway initialise a given gateway\n","// signing is what requests are signed with\nfunc (c *FilecoinRetrievalGatewayAdmin) signing() (*fcrcrypto.KeyPair, *fcrcrypto.KeyVersion) {\n	return c.Settings.gatewayAdminPrivateKey, c.Settings.gatewayAdminPrivateKeyVer\n}\n\n// InitialiseGateway initialise a given gateway\n"))
sub(gr,("	request, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(\n		nodeID,\n		gatewayPrivKey,\n		gatewayPrivKeyVer,\n		lotusWalletPrivateKey,\n		lotusAP,\n		lotusAuthToken,\n	)\n","	request, err := initialisation(nodeID, keys{gatewayPrivKey, gatewayPrivKeyVer}, lotusAP, lotusWalletPrivateKey, lotusAuthToken)\n"))
s=open(gr).read()
s+='''
type keys struct {
	key *fcrcrypto.KeyPair
	ver *fcrcrypto.KeyVersion
}

func initialisation(id *nodeid.NodeID, k keys, addr, wallet, auth string) (*fcrmessages.FCRMessage, error) {
	return fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(id, k.key, k.ver, wallet, addr, auth)
}
'''
open(gr,'w').write(s)
sub(gh,("	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)","	token, endpoint := lotusAuth, lotusAP\n	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, endpoint, token)"))
s=open(pm).read()
s=s.replace("getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)","mgr.lotus()")
s+='''
func (mgr *FCRPaymentMgr) lotus() (*apistruct.FullNodeStruct, jsonrpc.ClientCloser, error) {
	token, addr := mgr.authToken, mgr.lotusAPIAddr
	return getLotusAPI(token, addr)
}
'''
open(pm,'w').write(s)
sub(es,("	if gatewayRegistrar.GetNodeID() != gatewayID.ToString() {\n		return errors.New(\"gateway ID not match\")\n	}","	if err := sameNode(gatewayRegistrar, gatewayID); err != nil {\n		return err\n	}"))
s=open(es).read()
s+='''
func sameNode(asked register.GatewayRegistrar, got *nodeid.NodeID) error {
	name := got.ToString()
	if name == asked.GetNodeID() {
		return nil
	}
	return errors.New("gateway ID not match")
}
'''
open(es,'w').write(s)
