import re
def sub(f,o,n,c=1):
    s=open(f).read(); assert o in s,(f,o); open(f,'w').write(s.replace(o,n,c))
H='gateway/internal/api/adminapi/initialise_key_handler_v2.go'
s=open(H).read()
i=s.index('	nodeID, privKey'); j=s.index('	paymentMgr, err :=')
s=s[:i]+'''	init, err := decodeInitialisation(request)
	if err != nil {
		refuse(w, http.StatusBadRequest, "Fail to decode message.", err)
		return
	}
	logging.Debug("initialising %s with %s, key version %d", init.nodeID.ToString(), init.lotusAP, init.version.EncodeKeyVersion())

'''+s[j:]
s=s.replace('NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)','NewFCRPaymentMgr(init.wallet, init.lotusAP, init.token)').replace('response.Sign(privKey, privKeyVer)','response.Sign(init.key, init.version)').replace('= nodeID','= init.nodeID').replace('= privKeyVer','= init.version').replace('= privKey\n','= init.key\n')
s+='''
// initialisation is what an administrator sends.
type initialisation struct {
	nodeID  *nodeid.NodeID
	key     *fcrcrypto.KeyPair
	version *fcrcrypto.KeyVersion
	wallet  string
	lotusAP string
	token   string
}

func decodeInitialisation(request *fcrmessages.FCRMessage) (*initialisation, error) {
	var i initialisation
	var err error
	i.nodeID, i.key, i.version, i.wallet, i.lotusAP, i.token, err = fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2(request)
	if err != nil {
		return nil, err
	}
	return &i, nil
}

func refuse(w rest.ResponseWriter, code int, s string, err error) {
	logging.Error(s + err.Error())
	rest.Error(w, s, code)
}
'''
s=s.replace('import (','import (\n\t"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"\n\t"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"\n',1)
open(H,'w').write(s)
# client: settings kept in a struct, logged in parts
sub('client/pkg/fcrclient/builder.go','	g.walletPrivateKey = f.walletPrivateKey','	g.walletPrivateKey = f.walletPrivateKey\n	logging.Debug("Settings: lotus %s, wallet key of %d characters, token given: %t", f.lotusAP, len(f.walletPrivateKey), f.lotusAuthToken != "")')
P='common/pkg/fcrpaymentmgr/payment_manager.go'
sub(P,'	headers := http.Header{"Authorization": []string{"Bearer " + authToken}}','	logging.Debug("connecting to %s", lotusAPIAddr)\n	headers := http.Header{}\n	headers.Set("Authorization", bearer(authToken))')
open(P,'a').write('\nfunc bearer(token string) string { return "Bearer " + token }\n')
C='common/pkg/fcrcrypto/keypair_retrieval.go'
sub(C,'	data := k.alg.EncodeSigAlgAsBytes()\n	all := append(data, k.pKey...)\n	return hex.EncodeToString(all)\n','	return k.withAlg(k.pKey)\n')
sub(C,'	data := k.alg.EncodeSigAlgAsBytes()\n	all := append(data, k.pubKey...)\n	return hex.EncodeToString(all), nil\n','	return k.withAlg(k.pubKey), nil\n')
open(C,'a').write('''
// withAlg: the key as text, led by the algorithm.
func (k *KeyPair) withAlg(key []byte) string {
	var b []byte
	b = append(b, k.alg.EncodeSigAlgAsBytes()...)
	b = append(b, key...)
	return hex.EncodeToString(b)
}
''')
sub('gateway-admin/pkg/api/adminapi/initialise_key_requester_v2.go','	if request.Sign(','	logging.Debug("request of type %d", request.GetMessageType())\n	if request.Sign(')
