import re
def sub(f,o,n,c=1):
    s=open(f).read(); assert o in s,(f,o); open(f,'w').write(s.replace(o,n,c))
# one helper refuses
f='gateway/internal/api/providerapi/publish_group_offer_handler.go'
s=open(f).read()
s=s.replace('''	if c.OffersMgr.AddGroupOffer(offer) != nil {
		logging.Error("Internal error in adding group cid offer.")
		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
	}
''','''	if addErr := c.OffersMgr.AddGroupOffer(offer); addErr != nil {
		return refuse(c, writer, "Internal error in adding group cid offer: "+addErr.Error())
	}
''')
s=s.replace('''	if response.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion) != nil {
		logging.Error("Internal error in signing message.")
		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
	}

	return writer.Write(response, c.Settings.TCPInactivityTimeout)
}''','''	if err := response.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion); err == nil {
		return writer.Write(response, c.Settings.TCPInactivityTimeout)
	}
	return refuse(c, writer, "Internal error in signing message.")
}

func refuse(c *core.Core, writer *fcrp2pserver.FCRServerWriter, why string) error {
	logging.Error(why)
	return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
}''')
open(f,'w').write(s)
# inverted, switch, named results
f='common/pkg/request/request.go'
s=open(f).read()
s=s.replace('''func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
	c.Lock()
	defer c.Unlock()
	jsonData, err := json.Marshal(data)
	if err != nil {
		return fmt.Errorf("SendJSON error, can't encode data: %s", err.Error())
	}
''','''func (c *HttpCommunicator) SendJSON(url string, data interface{}) (err error) {
	c.Lock()
	defer c.Unlock()
	var jsonData []byte
	if jsonData, err = json.Marshal(data); err != nil {
		err = fmt.Errorf("SendJSON error, can't encode data: %s", err.Error())
		return
	}
''')
s=s.replace('''	if err := r.Body.Close(); err != nil {
		return err
	}
	return nil
}''','''	return r.Body.Close()
}''')
open(f,'w').write(s)
# helper in handler
f='provider/internal/api/adminapi/publish_group_offer_handler.go'
s=open(f).read()
s=s.replace('''	if addErr := c.OffersMgr.AddGroupOffer(offer); addErr != nil {
		s := "Fail to add group offer."
		logging.Error(s + addErr.Error())
		rest.Error(w, s, http.StatusBadRequest)
		return
	}
''','''	switch addErr := c.OffersMgr.AddGroupOffer(offer); {
	case addErr == nil:
		logging.Info("offer stored")
	default:
		failed(w, "Fail to add group offer.", addErr)
		return
	}
''')
s+='''
func failed(w rest.ResponseWriter, s string, err error) {
	logging.Error(s + err.Error())
	rest.Error(w, s, http.StatusBadRequest)
}
'''
open(f,'w').write(s)
# wrapped error and a check function
f='client/pkg/api/clientapi/standard_discover_requester.go'
s=open(f).read()
s=s.replace('''	if response.Verify(pubKey) != nil {
		return nil, errors.New("verification failed")
	}
''','''	if vErr := response.Verify(pubKey); vErr != nil {
		return nil, fmt.Errorf("verification failed: %w", vErr)
	}
''')
if '"fmt"' not in s: s=s.replace('"errors"','"errors"\n\t"fmt"')
open(f,'w').write(s)
# admin: flag first, then error
f='gateway-admin/pkg/api/adminapi/force_refresh_requester.go'
s=open(f).read()
m=re.search(r'\tif !refreshed \{.*?\n\t\}\n',s,re.S)
s=s.replace(m.group(0),'''	if refreshed {
		return nil
	}
	return errors.New("fail to force the gateway to refresh")
}
''')
i=s.index('	return errors.New("fail to force the gateway to refresh")\n}\n')+len('	return errors.New("fail to force the gateway to refresh")\n}\n')
s=s[:i]+'\n'
open(f,'w').write(s)
# retry once
f='common/pkg/fcrpaymentmgr/payment_manager.go'
s=open(f).read()
s=s.replace('''		contentID, err := api.MpoolPush(context.Background(), signedMsg)
		if err != nil {
			logging.Debug("error in Topup MpoolPush: %s", err.Error())
			return err
		}
''','''		contentID, err := api.MpoolPush(context.Background(), signedMsg)
		if err != nil {
			logging.Debug("error in Topup MpoolPush: %s, trying again", err.Error())
			contentID, err = api.MpoolPush(context.Background(), signedMsg)
		}
		if err != nil {
			return err
		}
''',1)
open(f,'w').write(s)
# offermgr: helper with deferred rollback on error
f='common/pkg/offermgr/offer_manager.go'
s=open(f).read()
s=s.replace('''	i := 0
	for _, contentID := range offer.GetCIDs() {
		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
		if err != nil {
			return err
		}
		i++
	}
	return tx.Commit()''','''	for i, contentID := range offer.GetCIDs() {
		if _, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex); err != nil {
			return
		}
	}
	err = tx.Commit()
	return''')
open(f,'w').write(s)
# dht publish: first error kept, then refused
f='provider/internal/api/adminapi/publish_dht_offer_handler.go'
s=open(f).read()
s=re.sub(r'\tfor _, offer := range offers \{\n\t\toffer := offer.*?\n\t\}\n\n',''' 	if err := addAll(c, offers); err != nil {
		s := "Internal error: Fail to add DHT offer."
		logging.Error(s + err.Error())
		rest.Error(w, s, http.StatusInternalServerError)
		return
	}

''',s,1,re.S)
s+='''
func addAll(c *core.Core, offers []cidoffer.CIDOffer) error {
	for _, offer := range offers {
		offer := offer // the store keeps the pointer
		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
			return err
		}
	}
	return nil
}
'''
open(f,'w').write(s)
