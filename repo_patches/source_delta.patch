From d9b8da582e58d790edcf267c1c58fe9f5cc9e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 01/68] fix: return decoded flags from gateway ping and group
 CID offer support responses

---
 ...ateway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 common/pkg/fcrmessages/gateway_ping_response.go                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
-- 
2.43.0


From a695769a5c2762a56d4027738583bb973622176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 02/68] fix: notify providers of group CID offer support with
 the matching request type and arguments, verify their answer, reply with the
 matching response type

---
 .../api/adminapi/set_group_cid_support.go     | 15 ++++++-------
 .../api/gatewayapi/set_group_cid_support.go   | 21 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..dc307af 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -42,7 +42,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 	c.GroupCIDOfferSupportedForProviders = providerIDs
 
 	// Construct message
-	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
+	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
 	if err != nil {
 		s := "Internal error: Fail to encode message."
 		logging.Error(s + err.Error())
@@ -63,10 +63,10 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
     logging.Error("can't write JSON during HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest %s", err.Error())
   }
 
-	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, c.GatewayID)
+	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer)
 }
 
-func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, callerGatewayId *nodeid.NodeID) {
+func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer) {
 	for _, pvd := range providers {
 		providerID, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
 		if err != nil {
@@ -74,14 +74,15 @@ func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegist
 			continue
 		}
 		const thisGatewaySupportsGroupCIDOffer = true
-    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayListDHTOfferRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
+    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, thisGatewaySupportsGroupCIDOffer)
 	}
 }
 
-func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, gatewayID *nodeid.NodeID, thisGatewaySupportsGroupCIDOffer bool) {
-  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, gatewayID, thisGatewaySupportsGroupCIDOffer)
+func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, thisGatewaySupportsGroupCIDOffer bool) {
+  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, thisGatewaySupportsGroupCIDOffer, providerID)
   if err != nil {
-    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID)
+    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID.ToString())
+    return
   }
   logging.Info("Provider response: %v", providerResponse)
 }
diff --git a/gateway/internal/api/gatewayapi/set_group_cid_support.go b/gateway/internal/api/gatewayapi/set_group_cid_support.go
index 3eb0b77..488c551 100644
--- a/gateway/internal/api/gatewayapi/set_group_cid_support.go
+++ b/gateway/internal/api/gatewayapi/set_group_cid_support.go
@@ -20,19 +20,24 @@ import (
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
 
 	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
 )
 
 func NotifyProviderGroupCIDOfferSupported(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
 	// Get parameters
-	if len(args) != 1 {
+	if len(args) != 2 {
 		return nil, errors.New("wrong arguments")
 	}
 	groupCIDOfferSupported, ok := args[0].(bool)
 	if !ok {
 		return nil, errors.New("wrong arguments")
 	}
+	providerID, ok := args[1].(*nodeid.NodeID)
+	if !ok {
+		return nil, errors.New("wrong arguments")
+	}
 
 	// Get the core structure
 	c := core.GetSingleInstance()
@@ -59,6 +64,20 @@ func NotifyProviderGroupCIDOfferSupported(reader *fcrp2pserver.FCRServerReader,
 		return nil, err
 	}
 
+	// Verify the response
+	// Get the provider's signing key
+	providerInfo := c.RegisterMgr.GetProvider(providerID)
+	if providerInfo == nil {
+		return nil, errors.New("provider information not found")
+	}
+	pubKey, err := providerInfo.GetSigningKey()
+	if err != nil {
+		return nil, errors.New("fail to obtain the public key")
+	}
+	if response.Verify(pubKey) != nil {
+		return nil, errors.New("fail to verify the response")
+	}
+
 	acknowledged, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(response)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c244e94d215fd29aa511e9f9c43179ceae8e8f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 03/68] fix: accept DHT offer discovery and offer
 acknowledgement answers only for the request they belong to

---
 client/pkg/api/clientapi/dht_discover_offer_requester.go | 8 +++++++-
 client/pkg/api/clientapi/dht_offer_ack_requester.go      | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..21bc109 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -70,10 +70,16 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, errors.New("verification failed")
 	}
 
-	_, _, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
+	cID, nonceRecv, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
 	if err != nil {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
 	}
+	if cID.ToString() != contentID.ToString() {
+		return nil, errors.New("CID mismatch")
+	}
+	if nonceRecv != nonce {
+		return nil, errors.New("nonce mismatch")
+	}
 	if len(gatewayIDs) != len(fcrMessages) {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(gatewayIDs), len(fcrMessages))
 	}
diff --git a/client/pkg/api/clientapi/dht_offer_ack_requester.go b/client/pkg/api/clientapi/dht_offer_ack_requester.go
index f6af663..86259cf 100644
--- a/client/pkg/api/clientapi/dht_offer_ack_requester.go
+++ b/client/pkg/api/clientapi/dht_offer_ack_requester.go
@@ -55,10 +55,16 @@ func (c *Client) RequestDHTOfferAck(
 		return false, nil, nil, errors.New("verification failed")
 	}
 
-	_, _, found, publishDhtOfferReq, publishDhtOfferRes, err := fcrmessages.DecodeClientDHTOfferAckResponse(response)
+	cidRecv, gatewayIDRecv, found, publishDhtOfferReq, publishDhtOfferRes, err := fcrmessages.DecodeClientDHTOfferAckResponse(response)
 	if err != nil {
 		return false, nil, nil, err
 	}
+	if cidRecv.ToString() != contentID.ToString() {
+		return false, nil, nil, errors.New("CID mismatch")
+	}
+	if gatewayIDRecv.ToString() != gatewayID.ToString() {
+		return false, nil, nil, errors.New("gateway ID mismatch")
+	}
 
 	return found, publishDhtOfferReq, publishDhtOfferRes, nil
 }
-- 
2.43.0


From 975703337b609cd93fdf18ec9a69c7e0f739aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 04/68] fix: store and acknowledge only offers signed by the
 provider they name, and only when all of them were stored

---
 .../gatewayapi/list_dht_offer_requester.go    | 38 ++++++++++++-------
 .../providerapi/publish_dht_offer_handler.go  |  9 ++++-
 .../publish_group_offer_handler.go            |  4 ++
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..045c5a1 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
@@ -98,28 +99,22 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 	}
 	// Construct the message
 	cidOfferMsgAcks := make([]fcrmessages.FCRMessage, 0)
-	for _, cidOfferMsg := range cidOfferMsgs {
+	for i := range cidOfferMsgs {
+		cidOfferMsg := &cidOfferMsgs[i]
 		// First verify the sub message
 		if cidOfferMsg.Verify(pubKey) != nil {
 			logging.Error("Fail to verify the sub message")
 			continue
 		}
-		_, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
+		_, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(cidOfferMsg)
 		if err != nil {
 			logging.Error("Fail to decode message")
 			continue
 		}
-		// Verify the offers
-		for _, cidOffer := range cidOffers {
-			if cidOffer.Verify(pubKey) != nil {
-				logging.Error("Fail to verify the offer")
-				continue
-			}
-			// Store the offer
-			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
-				logging.Error("Fail to store the offer")
-				continue
-			}
+		// Only acknowledge offers that have all been verified and stored
+		if err := storeDHTOffers(c, providerID, pubKey, cidOffers); err != nil {
+			logging.Error("Fail to store the offers from %s: %s", providerID.ToString(), err.Error())
+			continue
 		}
 
 		// Sign the offer message
@@ -144,3 +139,20 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 
 	return nil, writer.Write(ack, c.Settings.TCPInactivityTimeout)
 }
+
+// storeDHTOffers verifies that every given offer is signed by given provider and stores it.
+func storeDHTOffers(c *core.Core, providerID *nodeid.NodeID, pubKey *fcrcrypto.KeyPair, offers []cidoffer.CIDOffer) error {
+	for i := range offers {
+		offer := &offers[i]
+		if offer.GetProviderID().ToString() != providerID.ToString() {
+			return errors.New("the offer is from another provider")
+		}
+		if err := offer.Verify(pubKey); err != nil {
+			return errors.New("fail to verify the offer")
+		}
+		if err := c.OffersMgr.AddDHTOffer(offer); err != nil {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..67f9f8e 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -57,13 +57,18 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	}
 
 	// Verify the offer one by one
-	for _, offer := range offers {
+	for i := range offers {
+		offer := &offers[i]
+		if offer.GetProviderID().ToString() != providerID.ToString() {
+			logging.Warn("Offer sent by %s is from another provider", providerID.ToString())
+			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+		}
 		if offer.Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
 
-		if c.OffersMgr.AddDHTOffer(&offer) != nil {
+		if c.OffersMgr.AddDHTOffer(offer) != nil {
 			logging.Error("Internal error in adding single cid offer.")
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..6d46fd5 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -54,6 +54,10 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	}
 
 	// Verify the offer
+	if offer.GetProviderID().ToString() != providerID.ToString() {
+		logging.Warn("Offer sent by %s is from another provider", providerID.ToString())
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 	if offer.Verify(pubKey) != nil {
 		logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From dd9b4267820fc3ab9822c1d4d3def9708dc7198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 05/68] fix: return from client searches only offers that are
 for the requested content and pass verification

---
 .../fcrclient/filecoin_retrieval_client.go    | 62 +++++++++++++++++--
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..a0b8fff 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,8 +305,13 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
+	validOffers := make([]cidoffer.SubCIDOffer, 0)
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the requested content.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -334,9 +339,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 			continue
 		}
 		// Offer pass verification
+		validOffers = append(validOffers, offer)
 		logging.Info("Offer pass every verification, added to result")
 	}
-	return offers, nil
+	return validOffers, nil
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
@@ -390,6 +396,10 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 		}
 		entry := make([]cidoffer.SubCIDOffer, 0)
 		for _, offer := range offers {
+			if offer.GetSubCID().ToString() != contentID.ToString() {
+				logging.Error("Offer is not for the requested content.")
+				continue
+			}
 			// Get provider's pubkey
 			provider := c.registerMgr.GetProvider(offer.GetProviderID())
 			if provider == nil {
@@ -556,12 +566,49 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
 	for _, entry := range allGatewaysOffers {
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+		subOffers := c.verifiedOffers(contentID, entry.SubOffers)
+		offersMap[entry.GatewayID.ToString()] = &subOffers
 	}
 
 	return offersMap, nil
 }
 
+// verifiedOffers returns those of the given offers that are for the given content, signed by the provider they name and
+// proven to contain the content.
+func (c *FilecoinRetrievalClient) verifiedOffers(contentID *cid.ContentID, offers []cidoffer.SubCIDOffer) []cidoffer.SubCIDOffer {
+	res := make([]cidoffer.SubCIDOffer, 0)
+	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the requested content.")
+			continue
+		}
+		provider := c.registerMgr.GetProvider(offer.GetProviderID())
+		if provider == nil {
+			logging.Error("Error getting provider info.")
+			continue
+		}
+		if !validateProviderInfo(provider) {
+			logging.Error("Provider register info not valid.")
+			continue
+		}
+		pubKey, err := provider.GetSigningKey()
+		if err != nil {
+			logging.Error("Fail to obtain public key.")
+			continue
+		}
+		if offer.Verify(pubKey) != nil {
+			logging.Error("Offer signature fail to verify.")
+			continue
+		}
+		if offer.VerifyMerkleProof() != nil {
+			logging.Error("Merkle proof verification failed.")
+			continue
+		}
+		res = append(res, offer)
+	}
+	return res
+}
+
 // FindDHTOfferAck finds offer ack for a cid, gateway pair
 func (c *FilecoinRetrievalClient) FindDHTOfferAck(contentID *cid.ContentID, gatewayID *nodeid.NodeID, providerID *nodeid.NodeID) (bool, error) {
 	provider := c.registerMgr.GetProvider(providerID)
@@ -719,10 +766,17 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
+	if err != nil {
+		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
+	}
 
 	var validOffers []cidoffer.SubCIDOffer
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the requested content.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -733,10 +787,6 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			logging.Error("Provider register info not valid.")
 			continue
 		}
-		if err != nil {
-			logging.Error("Offer signature fail to verify 1, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
 		pubKey, err := provider.GetSigningKey()
 		if err != nil {
 			logging.Error("Fail to obtain public key.")
-- 
2.43.0


From 86b81ed8c320ef2ee260034eb2c80cf3882a8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 06/68] fix: do not answer paid DHT searches when the payment
 received is insufficient

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go     | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go  | 1 +
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go    | 2 +-
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..2b6a782 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..39b3eaf 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -84,7 +84,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From 519adc30ce005fdd0604407e0a4f60d715ba5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 07/68] fix: do not change the configured offer price when
 computing the price of a DHT offer request

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 39b3eaf..575ae0a 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,7 +62,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
 	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
 	fundedPaymentChannel := make([]bool, len(offerDigests))
-- 
2.43.0


From 40d07a2d84d3f7afbd49da7609f932bffa5efbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 08/68] fix: skip unknown offer digests instead of
 dereferencing a missing offer

---
 .../clientapi/standard_discover_offer_handler.go | 16 +++++++++-------
 .../api/gatewayapi/dht_discover_offer_handler.go | 15 +++++++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..2af5b41 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,23 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
-		found := false
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, exist)
 		}
+		found := len(subOffers) > 0
 
 		// Construct response
 		response, err = fcrmessages.EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 575ae0a..3bcba75 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -64,22 +64,25 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	lenOffers := big.NewInt(int64(len(offerDigests)))
 	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0)
+	fundedPaymentChannel := make([]bool, 0)
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, exist)
 	}
+	found := len(subOffers) > 0
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
-- 
2.43.0


From 978e7a50a5a128fcb132da7d6647f7fa982dafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:58 +0000
Subject: [PATCH 09/68] fix: reject DHT offer requests with mismatched lists
 and skip unregistered gateways

---
 .../api/clientapi/dht_discover_offer_handler.go      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..d68c642 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if len(allGatewaysOfferDigests) != len(targetGatewayIDs) {
+		s := "Number of gateways and number of lists of offer digests do not match."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
 	if err != nil {
@@ -67,6 +74,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	for idx, targetGatewayID := range targetGatewayIDs {
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Gateway information not found for %s.", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-- 
2.43.0


From d0308f92b12ba7ad119314df9e422b0e8bf51d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:12 +0000
Subject: [PATCH 10/68] fix: pay other gateways the amount computed for the
 offer request also after a topup

---
 .../internal/api/clientapi/dht_discover_offer_handler.go  | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index d68c642..bcf7197 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -89,13 +89,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
 				s := "Fail to pay recipient."
 				logging.Error(s + err.Error())
-- 
2.43.0


From ea8aac520c2ba8d663a319c4d20f44b055fc3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 11/68] fix: do not hand out expired offers by digest or in
 time zones other than UTC

---
 common/pkg/fcroffermgr/offer_manager.go | 21 +++------------------
 common/pkg/fcroffermgr/offer_storage.go | 15 +++++++++++++++
 common/pkg/offermgr/offer_manager.go    |  6 +++---
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..8f090b9 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -111,24 +111,9 @@ func (mgr *FCROfferMgr) GetOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool
 // GetOfferByDigest allows a gateway to be able to respond to a query to search for an offer by the offer digest
 func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (result *cidoffer.CIDOffer, exist bool) {
 	// first, look in DHT offers
-	mgr.dhtOffers.lock.RLock()
-	defer mgr.dhtOffers.lock.RUnlock()
-	for _, digestAndOffer := range mgr.dhtOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
+	if result, exist = mgr.dhtOffers.getByDigest(digest); exist {
+		return result, true
 	}
 	// look in Group offers
-	for _, digestAndOffer := range mgr.groupOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
-	}
-	return nil, false
+	return mgr.groupOffers.getByDigest(digest)
 }
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..9911e2b 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -136,3 +136,18 @@ func (o *offerStorage) get(cid *cid.ContentID) []cidoffer.CIDOffer {
 	o.lock.RUnlock()
 	return res
 }
+
+// getByDigest returns the offer with the given digest. It only returns an offer that is yet expired.
+func (o *offerStorage) getByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	for _, digestMap := range o.cidMap {
+		digestMap.lock.RLock()
+		offer, exists := digestMap.dMap[digest]
+		digestMap.lock.RUnlock()
+		if exists && !offer.HasExpired() {
+			return offer, true
+		}
+	}
+	return nil, false
+}
diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index dbd8eca..269da29 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -112,7 +112,7 @@ func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CID
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o join content c on o.digest=c.digest 
 		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and datetime(o.expiry, 'unixepoch') > datetime('now')`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
 }
@@ -124,7 +124,7 @@ func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID,
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and datetime(o.expiry, 'unixepoch') > datetime('now')`
 
 	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
 }
@@ -135,7 +135,7 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and datetime(o.expiry, 'unixepoch') > datetime('now')`
 
 	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
 	if !exist {
-- 
2.43.0


From 54d760ca5d4b9ee01d5de33997361cb71792dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 12/68] fix: add an offer to all tables of the offer manager in
 one critical section, guard the ring of DHT offers

---
 common/pkg/fcroffermgr/offer_manager.go | 17 +++++++++++++----
 common/pkg/fcroffermgr/offer_storage.go |  8 ++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 8f090b9..25b5b8f 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -23,6 +23,7 @@ package fcroffermgr
 
 import (
 	"errors"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
@@ -32,9 +33,10 @@ import (
 
 // FCROfferMgr manages offer storage
 type FCROfferMgr struct {
-	dhtOffers    *offerStorage
-	dhtOfferRing *dhtring.Ring
-	groupOffers  *offerStorage
+	dhtOffers        *offerStorage
+	dhtOfferRing     *dhtring.Ring
+	dhtOfferRingLock sync.Mutex
+	groupOffers      *offerStorage
 }
 
 // NewFCROfferMgr returns
@@ -59,8 +61,13 @@ func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) != 1 {
 		return errors.New("not a DHT offer")
 	}
+	mgr.dhtOfferRingLock.Lock()
+	defer mgr.dhtOfferRingLock.Unlock()
+	if err := mgr.dhtOffers.add(offer); err != nil {
+		return err
+	}
 	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
-	return mgr.dhtOffers.add(offer)
+	return nil
 }
 
 // GetGroupOffers returns a list of group offers that contain the given cid
@@ -79,7 +86,9 @@ func (mgr *FCROfferMgr) GetDHTOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, b
 func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, maxOffers int) ([]cidoffer.CIDOffer, bool) {
 	offers := make([]cidoffer.CIDOffer, 0)
 
+	mgr.dhtOfferRingLock.Lock()
 	entries, err := mgr.dhtOfferRing.GetWithinRange(cidMin.ToString(), cidMax.ToString())
+	mgr.dhtOfferRingLock.Unlock()
 	if err != nil {
 		return offers, false
 	}
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index 9911e2b..af0b180 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -53,9 +53,9 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	}
 	testCIDStr := testCIDs[0].ToString()
 	digest := newOffer.GetMessageDigest()
-	o.lock.RLock()
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	digestMap, exists := o.cidMap[testCIDStr]
-	o.lock.RUnlock()
 	if exists {
 		digestMap.lock.RLock()
 		_, exists = digestMap.dMap[digest]
@@ -72,18 +72,14 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
-		o.lock.RLock()
 		digestMap, exists = o.cidMap[cidStr]
-		o.lock.RUnlock()
 		if !exists {
 			// Need a new entry in cid map
-			o.lock.Lock()
 			digestMap = &digestOffer{
 				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
 				lock: sync.RWMutex{},
 			}
 			o.cidMap[cidStr] = digestMap
-			o.lock.Unlock()
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
-- 
2.43.0


From 73cb4a2b79fa1f34c1e79450197b98b0b03a69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 13/68] fix: unlink the removed head of the ring from its
 neighbours

---
 common/pkg/dhtring/dhtring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..d2e7ad8 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -178,7 +178,8 @@ func (r *Ring) Remove(hex string) {
 		// first becomes the head
 		r.head = r.head.next
 		// tail links to the new head
-		oldHead.prv = r.head
+		r.head.prv = oldHead.prv
+		r.head.prv.next = r.head
 		// update distances
 		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
-- 
2.43.0


From 238d69ba4fc9db2ab504dd67317df8850c8ad0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 14/68] fix: keep the only gateway when removing another one,
 include the head when all gateways are asked for

---
 common/pkg/dhtring/dhtring.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index d2e7ad8..e055761 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -152,8 +152,10 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.size == 1 {
-		r.head = nil
-		r.size = 0
+		if r.head.val == hex {
+			r.head = nil
+			r.size = 0
+		}
 		return
 	}
 	if r.size == 2 {
@@ -244,9 +246,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		}
 	}
 	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
+		res = append(res, r.head.val)
 		current := r.head.next
 		for current != nil && current.val != r.head.val {
 			res = append(res, current.val)
-- 
2.43.0


From 2e68168a621258cace7c22163b78b19b69f341a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 15/68] fix: release the provider map lock when a provider is
 not found, do not read-lock the gateway ring twice

---
 common/pkg/fcrregistermgr/register_manager.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..05ced36 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -209,6 +209,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		mgr.registeredProvidersMapLock.RLock()
 		provider, ok = mgr.registeredProvidersMap[id.ToString()]
 		if !ok {
+			mgr.registeredProvidersMapLock.RUnlock()
 			return nil
 		}
 	}
@@ -296,9 +297,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 49920e86e3c0cb18810389b657180d0dd922b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 16/68] fix: change the gateway table and the gateway ring
 together, look up closest gateways under the exclusive ring lock

---
 common/pkg/fcrregistermgr/register_manager.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 05ced36..a674768 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -325,8 +325,9 @@ func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, no
 	if numDHT > 16 {
 		numDHT = 16
 	}
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
+	// Looking for the closest ids temporarily changes the ring
+	mgr.closestGatewaysIDsLock.Lock()
+	defer mgr.closestGatewaysIDsLock.Unlock()
 	mgr.registeredGatewaysMapLock.RLock()
 	defer mgr.registeredGatewaysMapLock.RUnlock()
 
@@ -371,12 +372,12 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 			storedInfo, ok := mgr.registeredGatewaysMap[gateway.GetNodeID()]
 			mgr.registeredGatewaysMapLock.RUnlock()
 			if !ok {
-				// Not exist, we need to add a new entry
+				// Not exist, we need to add a new entry, to the map and the ring together
+				mgr.closestGatewaysIDsLock.Lock()
 				mgr.registeredGatewaysMapLock.Lock()
 				mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway
-				mgr.registeredGatewaysMapLock.Unlock()
-				mgr.closestGatewaysIDsLock.Lock()
 				mgr.closestGatewaysIDs.Insert(gateway.GetNodeID())
+				mgr.registeredGatewaysMapLock.Unlock()
 				mgr.closestGatewaysIDsLock.Unlock()
 			} else {
 				// Exist, check if need update
@@ -462,9 +463,12 @@ func (mgr *FCRRegisterMgr) shutdownGateways() {
 		logging.Error("method removeAllGatewaysFromRegisterSrv called, gateway discovery is not enabled")
 		return
 	}
+	mgr.closestGatewaysIDsLock.Lock()
 	mgr.registeredGatewaysMapLock.Lock()
 	mgr.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
+	mgr.closestGatewaysIDs = dhtring.CreateRing()
 	mgr.registeredGatewaysMapLock.Unlock()
+	mgr.closestGatewaysIDsLock.Unlock()
 	mgr.removeAllGatewaysFromRegisterSrv()
 }
 
-- 
2.43.0


From cb92736cd30dbe891b70ca900672a7d20e2be69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 17/68] fix: decide on and create payment channels in one
 critical section, hold the lock of a new inbound channel while crediting it

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 22 ++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..d12f45c 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -131,11 +131,17 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	mgr.outboundChsLock.RLock()
 	cs, ok := mgr.outboundChs[recipient]
 	if !ok {
-		logging.Debug("debug Topup, recipient is new")
-		// Need to create a channel
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
 		defer mgr.outboundChsLock.Unlock()
+		// The channel may have been created by another topup in the meantime
+		cs, ok = mgr.outboundChs[recipient]
+	} else {
+		defer mgr.outboundChsLock.RUnlock()
+	}
+	if !ok {
+		logging.Debug("debug Topup, recipient is new")
+		// Need to create a channel
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
 		if err != nil {
@@ -175,7 +181,6 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	} else {
 		logging.Debug("debug Topup, recipient is known")
 		// No need to create a channel
-		defer mgr.outboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
 		// Top up msg
@@ -309,10 +314,16 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	mgr.inboundChsLock.RLock()
 	cs, ok := mgr.inboundChs[channel]
 	if !ok {
-		// Need to create a entry in local storage
 		mgr.inboundChsLock.RUnlock()
 		mgr.inboundChsLock.Lock()
 		defer mgr.inboundChsLock.Unlock()
+		// The entry may have been created by another payment in the meantime
+		cs, ok = mgr.inboundChs[channel]
+	} else {
+		defer mgr.inboundChsLock.RUnlock()
+	}
+	if !ok {
+		// Need to create a entry in local storage
 		cs = &channelState{
 			addr:       channelAddr,
 			balance:    *state.Balance.Int,
@@ -321,9 +332,10 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 			laneStates: make(map[uint64]*laneState),
 		}
 		mgr.inboundChs[channel] = cs
+		cs.lock.Lock()
+		defer cs.lock.Unlock()
 	} else {
 		// Need to update the channel state
-		defer mgr.inboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
 		if cs.balance.Cmp(state.Balance.Int) > 0 {
-- 
2.43.0


From c6d115a17371ac186f3cfd87f3903d3cb112d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 18/68] fix: credit a voucher only on the channel it was issued
 for, however that channel is written

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index d12f45c..e71e303 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -292,6 +292,12 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// A voucher is only worth something on the channel it was issued for
+	if sv.ChannelAddr != channelAddr {
+		return nil, errors.New("receive voucher method failed, voucher is for another channel")
+	}
+	// The same channel may be written in several ways, use a single one
+	channel = channelAddr.String()
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From fe889ef74a3d2077063bfe5489ed3f3333505df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 19/68] fix: do not share the topup amount with the caller

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index e71e303..85d406e 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -173,7 +173,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *big.NewInt(0).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From 69d04dda7a085ed79fbb7bf570c63b76b2f164d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 20/68] fix: report an unexpected channel actor state instead
 of panicking

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 85d406e..b7af717 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -354,7 +354,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	toStr, ok := paychState["To"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
+	to, err := address.NewFromString(toStr)
 	if err != nil {
 		return nil, err
 	}
@@ -367,7 +371,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	fromStr, ok := paychState["From"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
+	f, err := address.NewFromString(fromStr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3ec33df5e76a89c44d6b6e27774d691d3a2a606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 21/68] fix: return the error when the payment address cannot
 be derived

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index b7af717..64ab3bf 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -99,6 +99,9 @@ func NewFCRPaymentMgr(privateKey, lotusAPIAddr, authToken string) (*FCRPaymentMg
 		return nil, err
 	}
 	addr, err := address.NewSecp256k1Address(pubKey)
+	if err != nil {
+		return nil, err
+	}
 
 	// TODO: Storage on payment channels needs to read from a DB. For now, everytime a new payment channel is called
 	// new maps are created with no previous data.
-- 
2.43.0


From 9370b512b5673457c44bee7d3061b82767117d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 22/68] fix: create and use the client's payment manager under
 its lock in all searches

---
 .../fcrclient/filecoin_retrieval_client.go    | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index a0b8fff..fab1bf8 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -77,17 +77,15 @@ func NewFilecoinRetrievalClient(settings ClientSettings, registerMgr *fcrregiste
 
 func (c *FilecoinRetrievalClient) PaymentMgr() *fcrpaymentmgr.FCRPaymentMgr {
 	// lazy init
+	c.paymentMgrLock.Lock()
+	defer c.paymentMgrLock.Unlock()
 	if c.paymentMgr == nil {
-		c.paymentMgrLock.Lock()
-		defer c.paymentMgrLock.Unlock()
-		if c.paymentMgr == nil {
-			mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
-			if err != nil {
-				logging.Error("Error initializing payment manager.")
-				return nil
-			}
-			c.paymentMgr = mgr
+		mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
+		if err != nil {
+			logging.Error("Error initializing payment manager.")
+			return nil
 		}
+		c.paymentMgr = mgr
 	}
 
 	return c.paymentMgr
@@ -703,7 +701,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -752,7 +750,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
-- 
2.43.0


From 0a214d8c174187d374ac6f85a4876e4e7c8fa5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 23/68] fix: add gateways to the client only if they were not
 added or removed in the meantime

---
 .../fcrclient/filecoin_retrieval_client.go    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index fab1bf8..676c7b7 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -143,11 +143,14 @@ func (c *FilecoinRetrievalClient) AddGatewaysToUse(gwNodeIDs []*nodeid.NodeID) i
 			logging.Error("Register info not valid.")
 			continue
 		}
-		// Success
+		// Success, unless the gateway was added by someone else in the meantime
 		c.GatewaysToUseLock.Lock()
-		c.GatewaysToUse[gwToAddID.ToString()] = gateway
+		_, exist = c.GatewaysToUse[gwToAddID.ToString()]
+		if !exist {
+			c.GatewaysToUse[gwToAddID.ToString()] = gateway
+			numAdded++
+		}
 		c.GatewaysToUseLock.Unlock()
-		numAdded++
 	}
 	return numAdded
 }
@@ -233,11 +236,17 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			logging.Error("Error in initial establishment: %v", err.Error())
 			continue
 		}
-		// It is success
+		// It is success, unless the gateway was activated or removed by someone else in the meantime
+		c.GatewaysToUseLock.RLock()
 		c.ActiveGatewaysLock.Lock()
-		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+		_, inUse := c.GatewaysToUse[strings.ToLower(gwToAddID.ToString())]
+		_, exist = c.ActiveGateways[gwToAddID.ToString()]
+		if inUse && !exist {
+			c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+			numAdded++
+		}
 		c.ActiveGatewaysLock.Unlock()
-		numAdded++
+		c.GatewaysToUseLock.RUnlock()
 	}
 	return numAdded
 }
-- 
2.43.0


From 491f2bd5a488cf272b0156d38162be48dbdc6370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 24/68] fix: do not add a gateway to the emptied gateway table
 without adding it to the ring

---
 common/pkg/fcrregistermgr/register_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index a674768..2ea953c 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -384,7 +384,10 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 				if gateway != storedInfo {
 					// Need update
 					mgr.registeredGatewaysMapLock.Lock()
-					mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway
+					// The map and the ring may have been emptied in the meantime
+					if _, ok := mgr.registeredGatewaysMap[gateway.GetNodeID()]; ok {
+						mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway
+					}
 					mgr.registeredGatewaysMapLock.Unlock()
 				}
 			}
-- 
2.43.0


From f66b9331354f19dcd661719439e5ede3207ceea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 25/68] fix: keep set reputations within bounds and do not
 reset the reputation of an established client

---
 .../api/adminapi/set_client_reputation_handler.go         | 2 +-
 gateway/internal/reputation/reputation.go                 | 8 +++++++-
 gateway/internal/reputation/reputation_store.go           | 5 +++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_client_reputation_handler.go b/gateway/internal/api/adminapi/set_client_reputation_handler.go
index 8fce17f..1d12d49 100644
--- a/gateway/internal/api/adminapi/set_client_reputation_handler.go
+++ b/gateway/internal/api/adminapi/set_client_reputation_handler.go
@@ -51,7 +51,7 @@ func HandleGatewayAdminSetReputationRequest(w rest.ResponseWriter, request *fcrm
 
 	if exists {
 		c.ReputationMgr.SetClientReputation(clientID, reputataion)
-		currentRep = reputataion
+		currentRep, _ = c.ReputationMgr.GetClientReputation(clientID)
 	}
 
 	// Construct messaqe
diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..d1c2d46 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -58,7 +58,13 @@ func GetSingleInstance() *Reputation {
 
 // establishClientReputation initialises the reputation of a Retrieval Client
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	defer r.clientsMapLock.Unlock()
+	// Keep the reputation if the client was established by someone else in the meantime
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = clientInitialReputation
+	}
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..1256e4a 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -19,6 +19,11 @@ func (r *Reputation) getClientReputation(clientNodeID *nodeid.NodeID) (val int64
 
 func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64) {
 	clientNodeIDStr := clientNodeID.ToString()
+	if val > clientMaxReputation {
+		val = clientMaxReputation
+	} else if val < clientMinReputaiton {
+		val = clientMinReputaiton
+	}
 	r.clientsMapLock.Lock()
 	r.clients[clientNodeIDStr] = val
 	r.clientsMapLock.Unlock()
-- 
2.43.0


From 5c280ab1ad2444ca8e2d148ad2ccf7330c01a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 26/68] fix: serialise the use of a random number generator and
 of the pool of generators

---
 common/pkg/fcrcrypto/prng.go         |  6 ++++++
 common/pkg/fcrcrypto/prng_pool.go    | 14 ++++++++++++++
 common/pkg/fcrcrypto/prng_private.go |  4 ++--
 common/pkg/fcrcrypto/prng_public.go  |  2 +-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 1f40490..56c481d 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"math/big"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/davidlazar/go-crypto/drbg"
@@ -50,6 +51,7 @@ type randomImpl struct {
 	prfHasher  hash.Hash
 	prfState   []byte
 	prfCounter *big.Int
+	lock       sync.Mutex
 }
 
 // NewPRNG returns a new instance of the PRNG. The PRNG has a custom
@@ -71,6 +73,8 @@ func NewPRNG(securityDomain []byte) Random {
 
 // ReadBytes reads random values into b
 func (r *randomImpl) ReadBytes(b []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	lengthPerIteration := len(r.prfState)
 	lenOutput := len(b)
 
@@ -115,6 +119,8 @@ func (r *randomImpl) Read(b []byte) (n int, err error) {
 
 // Reseed adds seed material to the PRNG.
 func (r *randomImpl) Reseed(seed []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	r.drbg.Reseed(seed)
 
 	// Combine the current state of the PRF and the seed.
diff --git a/common/pkg/fcrcrypto/prng_pool.go b/common/pkg/fcrcrypto/prng_pool.go
index 5ac9f24..6a20869 100644
--- a/common/pkg/fcrcrypto/prng_pool.go
+++ b/common/pkg/fcrcrypto/prng_pool.go
@@ -15,8 +15,20 @@ package fcrcrypto
  * SPDX-License-Identifier: Apache-2.0
  */
 
+import (
+	"sync"
+)
+
 // Array of PRNGs that will be reseeded by the global quick reseed.
 var prngPool []Random
+var prngPoolLock sync.Mutex
+
+// addToPRNGPool adds a PRNG to those reseeded by the global quick reseed.
+func addToPRNGPool(prng Random) {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
+	prngPool = append(prngPool, prng)
+}
 
 // PRNGEntropyKick is called when an application event occurs that an attacker
 // on a computer on the network can not observe. For example, when a message
@@ -24,6 +36,8 @@ var prngPool []Random
 // or even micro second when a message is serviced. However, they are unlikely
 // to know the timing down to the nearest nano second.
 func PRNGEntropyKick() {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
 	for _, prng := range prngPool {
 		prng.QuickReseedKick()
 	}
diff --git a/common/pkg/fcrcrypto/prng_private.go b/common/pkg/fcrcrypto/prng_private.go
index 2e2cb42..83e14be 100644
--- a/common/pkg/fcrcrypto/prng_private.go
+++ b/common/pkg/fcrcrypto/prng_private.go
@@ -39,7 +39,7 @@ var doOnce1 sync.Once
 func GetPrivatePRNG() Random {
 	doOnce1.Do(func() {
 		privatePRNG = NewPRNG([]byte("private"))
-		prngPool = append(prngPool, privatePRNG)
+		addToPRNGPool(privatePRNG)
 	})
 	return privatePRNG
 }
@@ -49,6 +49,6 @@ func GetPrivatePRNG() Random {
 // guarentee security domain separation.
 func NewPrivatePRNG(securityDomain []byte) Random {
 	aPRNG := NewPRNG(securityDomain)
-	prngPool = append(prngPool, aPRNG)
+	addToPRNGPool(aPRNG)
 	return aPRNG
 }
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index d1d265c..1b28871 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -36,7 +36,7 @@ var doOnce sync.Once
 func GetPublicPRNG() Random {
 	doOnce.Do(func() {
 		publicPRNG = NewPRNG([]byte("public"))
-		prngPool = append(prngPool, publicPRNG)
+		addToPRNGPool(publicPRNG)
 	})
 	return publicPRNG
 }
-- 
2.43.0


From a02212447c6f05bb130e3bbf37d902836ad4f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 27/68] fix: record which gateways support group CID offers,
 under a lock

---
 .../notify_group_cid_offer_supported.go       | 33 +++++++------------
 provider/internal/core/core.go                |  3 +-
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..ee82621 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -20,7 +20,6 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
-	"github.com/ConsenSys/fc-retrieval/common/pkg/slice"
 	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
 )
 
@@ -52,7 +51,9 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Lock()
+	c.GroupOfferGatewayIDs = updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Unlock()
 
 	// Construct response
 	response, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
@@ -73,26 +74,16 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	return nil
 }
 
-// updateGatewaysSupportingGroupCIDOffer changes locally stored collection of Gateway IDs supporting Group CID Offer
-func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) {
-	exists, foundIndex, err := slice.Exists(savedGateways, gatewayID)
-	if err != nil {
-		logging.Error("Error while searching for existing gatewayID %v", gatewayID)
-	}
-
-	if groupCIDOfferSupported {
-		if !exists {
-			// add new
-			savedGateways = append(savedGateways, *gatewayID)
+// updateGatewaysSupportingGroupCIDOffer returns the changed collection of Gateway IDs supporting Group CID Offer
+func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) []nodeid.NodeID {
+	res := make([]nodeid.NodeID, 0, len(savedGateways)+1)
+	for _, saved := range savedGateways {
+		if saved.ToString() != gatewayID.ToString() {
+			res = append(res, saved)
 		}
-		return
 	}
-
-	// groupCIDOfferSupported == false
-	// Group CID Offer should NOT be supported for this Provider
-	if exists {
-		// remove existing
-		savedGateways[foundIndex] = savedGateways[len(savedGateways)-1]
-		savedGateways = savedGateways[:len(savedGateways)-1]
+	if groupCIDOfferSupported {
+		res = append(res, *gatewayID)
 	}
+	return res
 }
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..33fc68d 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	AcknowledgementMapLock sync.RWMutex
 
 	// List of Gateways that allow group CID offer to be published
-	GroupOfferGatewayIDs []nodeid.NodeID
+	GroupOfferGatewayIDs     []nodeid.NodeID
+	GroupOfferGatewayIDsLock sync.Mutex
 }
 
 // Single instance of the provider
-- 
2.43.0


From 07931738c2ef304328c948d9222a801263717fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 28/68] fix: guard the list of providers for which group CID
 offers are supported

---
 gateway/internal/api/adminapi/set_group_cid_support.go | 2 ++
 gateway/internal/core/core.go                          | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index dc307af..7cffd9e 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -39,7 +39,9 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 		return
 	}
 
+	c.GroupCIDOfferSupportedForProvidersLock.Lock()
 	c.GroupCIDOfferSupportedForProviders = providerIDs
+	c.GroupCIDOfferSupportedForProvidersLock.Unlock()
 
 	// Construct message
 	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
diff --git a/gateway/internal/core/core.go b/gateway/internal/core/core.go
index 728e66d..0a80828 100644
--- a/gateway/internal/core/core.go
+++ b/gateway/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	RegistrationMerkleProof        *fcrmerkletree.FCRMerkleProof
 
 	// GroupCIDOfferSupported indicates from which Providers the Gateway supports group CID offers
-	GroupCIDOfferSupportedForProviders []nodeid.NodeID
+	GroupCIDOfferSupportedForProviders     []nodeid.NodeID
+	GroupCIDOfferSupportedForProvidersLock sync.Mutex
 }
 
 // Single instance of the gateway
-- 
2.43.0


From 8d8380df2a53b06476c387c4fb8bf8a67517c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 29/68] fix: do not set up the clock lazily from concurrent
 requests

---
 gateway/internal/util/time.go  | 5 +----
 provider/internal/util/time.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/util/time.go b/gateway/internal/util/time.go
index 9ed9d4b..f5d2686 100644
--- a/gateway/internal/util/time.go
+++ b/gateway/internal/util/time.go
@@ -17,13 +17,10 @@ type Clock interface {
 	//	After(d time.Duration) <-chan time.Time
 }
 
-var clock Clock
+var clock Clock = newRealClock()
 
 // GetTimeImpl returns the implementation of clock to use.
 func GetTimeImpl() Clock {
-	if clock == nil {
-		SetRealClock()
-	}
 	return clock
 }
 
diff --git a/provider/internal/util/time.go b/provider/internal/util/time.go
index 5f30e40..5aa76a7 100644
--- a/provider/internal/util/time.go
+++ b/provider/internal/util/time.go
@@ -12,13 +12,10 @@ type Clock interface {
 	//	After(d time.Duration) <-chan time.Time
 }
 
-var clock Clock
+var clock Clock = newRealClock()
 
 // GetTimeImpl returns the implementation of clock to use.
 func GetTimeImpl() Clock {
-	if clock == nil {
-		SetRealClock()
-	}
 	return clock
 }
 
-- 
2.43.0


From 736eca115f338318299fb1ac8a00aa69b4e912fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 30/68] fix: close and remove a failed peer connection before
 another exchange can use it, and no other connection than that

---
 common/pkg/fcrp2pserver/pool.go   | 20 ++++++++------------
 common/pkg/fcrp2pserver/server.go | 18 +++++++++---------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..21f510f 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -143,30 +143,26 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 }
 
 // removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
+// The caller must hold the lock of the given communication channel. Another channel to the same gateway is left alone.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeGatewaysLock.Lock()
 	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
+	if c.activeGateways[id.ToString()] == comm {
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection to gateway %s: %s", id.ToString(), err.Error())
 		}
 		delete(c.activeGateways, id.ToString())
 	}
 }
 
 // removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
+// The caller must hold the lock of the given communication channel. Another channel to the same provider is left alone.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeProvidersLock.Lock()
 	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
+	if c.activeProviders[id.ToString()] == comm {
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection to provider %s: %s", id.ToString(), err.Error())
 		}
 		delete(c.activeProviders, id.ToString())
 	}
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..fa3b65a 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -175,14 +175,14 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 		return nil, err
 	}
 	comm.lock.Lock()
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		// Error that couldn't ignore, remove the connection, before anyone else can use it.
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -203,14 +203,14 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 		return nil, err
 	}
 	comm.lock.Lock()
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		// Error that couldn't ignore, remove the connection, before anyone else can use it.
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -231,14 +231,14 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 		return nil, err
 	}
 	comm.lock.Lock()
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
+		// Error that couldn't ignore, remove the connection, before anyone else can use it.
+		s.pool.removeActiveProvider(id, comm)
 		return nil, err
 	}
 	return response, err
-- 
2.43.0


From 85cb59525fdc297cbb41fcdfc800bde2a5a0c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 31/68] fix: do not panic when a peer connection is closed
 already

---
 common/pkg/fcrp2pserver/pool.go      | 4 ++--
 common/pkg/fcrp2pserver/server.go    | 2 +-
 common/pkg/fcrp2pserver/tcp_comms.go | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 21f510f..e475291 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -95,7 +95,7 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	} else {
 		comm = c.activeGateways[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection to %s: %s", id.ToString(), err.Error())
 		}
 	}
 	c.activeGatewaysLock.Unlock()
@@ -135,7 +135,7 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	} else {
 		comm = c.activeProviders[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection to %s: %s", id.ToString(), err.Error())
 		}
 	}
 	c.activeProvidersLock.Unlock()
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index fa3b65a..a67772c 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -121,7 +121,7 @@ func (s *FCRP2PServer) handleIncomingConnection(conn net.Conn, handlers map[int3
 	// Close connection on exit.
 	defer func() {
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P Server has error closing connection from %s: %s", conn.RemoteAddr(), err.Error())
 		}
 	}()
 
diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..a06eb77 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -39,7 +39,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
 	_, err := io.ReadFull(reader, length)
 	if err != nil {
@@ -49,7 +49,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	data := make([]byte, int(binary.BigEndian.Uint32(length)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
 	_, err = io.ReadFull(reader, data)
 	if err != nil {
@@ -71,7 +71,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	binary.BigEndian.PutUint32(length, uint32(len(data)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	_, err = writer.Write(append(length, data...))
 	if err != nil {
@@ -79,7 +79,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	return writer.Flush()
 }
-- 
2.43.0


From 5f5d9872f3cda895c624786fa296285701a64a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 32/68] fix: limit the length of peer messages

---
 common/pkg/fcrp2pserver/tcp_comms.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index a06eb77..62af4f7 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,6 +18,7 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -25,6 +26,9 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 )
 
+// maxTCPMessageLength is the length of the longest message sent or accepted, in bytes.
+const maxTCPMessageLength = 64 * 1024 * 1024
+
 // isTimeoutError checks if the given error is a timeout error
 func isTimeoutError(err error) bool {
 	neterr, ok := err.(net.Error)
@@ -45,6 +49,9 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err != nil {
 		return nil, err
 	}
+	if binary.BigEndian.Uint32(length) > maxTCPMessageLength {
+		return nil, errors.New("message is too long")
+	}
 	// Read the data
 	data := make([]byte, int(binary.BigEndian.Uint32(length)))
 	// Set timeout
@@ -65,6 +72,9 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	if err != nil {
 		return err
 	}
+	if len(data) > maxTCPMessageLength {
+		return errors.New("message is too long")
+	}
 	// Initialise a writer
 	writer := bufio.NewWriter(conn)
 	length := make([]byte, 4)
-- 
2.43.0


From 5051e5fd6de92e5ea04bd587751e51b33289b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 33/68] fix: do not read beyond a peer message, drop the
 connection when a message is incomplete

---
 common/pkg/fcrp2pserver/tcp_comms.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 62af4f7..5928b71 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -35,18 +35,26 @@ func isTimeoutError(err error) bool {
 	return ok && neterr.Timeout()
 }
 
+// incompleteMessageError is the error after part of a message was read. It is never a timeout, as there is no way to
+// find the start of the next message.
+func incompleteMessageError(err error) error {
+	return errors.New("incomplete message: " + err.Error())
+}
+
 // readTCPMessage read the tcp message from a given connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
 	// Read the length
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		return nil, err
 	}
-	_, err := io.ReadFull(reader, length)
+	// Read nothing beyond the message, what follows belongs to the next one
+	n, err := io.ReadFull(conn, length)
 	if err != nil {
+		if n > 0 {
+			return nil, incompleteMessageError(err)
+		}
 		return nil, err
 	}
 	if binary.BigEndian.Uint32(length) > maxTCPMessageLength {
@@ -58,9 +66,9 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		return nil, err
 	}
-	_, err = io.ReadFull(reader, data)
+	_, err = io.ReadFull(conn, data)
 	if err != nil {
-		return nil, err
+		return nil, incompleteMessageError(err)
 	}
 	return fcrmessages.FCRMsgFromBytes(data)
 }
-- 
2.43.0


From a61f85a186cdb22934855d53961c8d2a2295874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 34/68] fix: the started flag of the register manager was read
 and written without a lock

---
 common/pkg/fcrregistermgr/register_manager.go | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 2ea953c..be61cd3 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -38,7 +38,8 @@ import (
 // FCRRegisterMgr Register Manager manages the internal storage of registered nodes.
 type FCRRegisterMgr struct {
 	// Boolean indicates if the manager has started
-	start bool
+	start     bool
+	startLock sync.RWMutex
 
 	// API for the register
 	registerAPI string
@@ -100,10 +101,9 @@ func NewFCRRegisterMgr(registerAPI string, providerDiscv bool, gatewayDiscv bool
 
 // Start starts a thread to auto update the internal map every given duration.
 func (mgr *FCRRegisterMgr) Start() error {
-	if mgr.start {
+	if !mgr.setStarted(true) {
 		return errors.New("manager has already started")
 	}
-	mgr.start = true
 	if mgr.gatewayDiscv {
 		go mgr.updateGateways()
 	}
@@ -115,7 +115,7 @@ func (mgr *FCRRegisterMgr) Start() error {
 
 // Shutdown will shutdown the register manager.
 func (mgr *FCRRegisterMgr) Shutdown() {
-	if !mgr.start {
+	if !mgr.setStarted(false) {
 		return
 	}
 	if mgr.gatewayDiscv {
@@ -124,13 +124,12 @@ func (mgr *FCRRegisterMgr) Shutdown() {
 	if mgr.providerDiscv {
 		mgr.providerShutdownCh <- true
 	}
-	mgr.start = false
 }
 
 // ShutdownAndWait stop the register manager
 // Initiates register manager blocking shutdown (waiting for all parties before return)
 func (mgr *FCRRegisterMgr) ShutdownAndWait() {
-	if !mgr.start {
+	if !mgr.setStarted(false) {
 		return
 	}
 	if mgr.gatewayDiscv {
@@ -143,12 +142,11 @@ func (mgr *FCRRegisterMgr) ShutdownAndWait() {
 		// stop the main loop
 		mgr.providerShutdownCh <- true
 	}
-	mgr.start = false
 }
 
 // Refresh refreshes the internal map immediately.
 func (mgr *FCRRegisterMgr) Refresh() {
-	if !mgr.start {
+	if !mgr.started() {
 		return
 	}
 	if mgr.gatewayDiscv {
@@ -175,7 +173,7 @@ func (mgr *FCRRegisterMgr) RegisterProvider(providerRegistrar register.ProviderR
 
 // GetGateway returns a gateway register if found.
 func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method GetGateway called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -196,7 +194,7 @@ func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistr
 
 // GetProvider returns a provider register if found.
 func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		logging.Error("method GetProvider called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -219,7 +217,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 
 // GetAllGateways returns  all discovered gateways.
 func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method GetAllGateways called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -234,7 +232,7 @@ func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
 
 // GetAllProviders returns  all discovered providers.
 func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		logging.Error("method GetAllProviders called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -249,7 +247,7 @@ func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
 
 // pullGatewaysFromRegisterSrv calls remote service to synchronize discovered Gateway nodes
 func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method pullGatewaysFromRegisterSrv called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -274,7 +272,7 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 // pullProvidersFromRegisterSrv calls remote service to synchronize discovered Provider nodes
 func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		return nil
 	}
 	url := mgr.registerAPI + "/registers/provider/"
@@ -352,6 +350,22 @@ func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, no
 	return res, nil
 }
 
+// started returns true if the manager has started
+func (mgr *FCRRegisterMgr) started() bool {
+	mgr.startLock.RLock()
+	defer mgr.startLock.RUnlock()
+	return mgr.start
+}
+
+// setStarted records if the manager has started. It returns false if that was recorded already.
+func (mgr *FCRRegisterMgr) setStarted(start bool) bool {
+	mgr.startLock.Lock()
+	defer mgr.startLock.Unlock()
+	changed := mgr.start != start
+	mgr.start = start
+	return changed
+}
+
 func (mgr *FCRRegisterMgr) mapNodeIDs(nodsIDs []*nodeid.NodeID) map[string]string {
 	mapNodeIDs := make(map[string]string)
 	for _, v := range nodsIDs {
-- 
2.43.0


From 2b1412c815d27da7f4656feb40ae6ea89dc585f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 35/68] fix: do not index beyond empty keys, short signatures
 and proofs with too few indexes

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 6 ++++++
 common/pkg/fcrcrypto/msg_signing.go       | 3 +++
 common/pkg/fcrmerkletree/proof.go         | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..944c34d 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -62,6 +62,9 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(algKeyBytes) == 0 {
+		return nil, fmt.Errorf("empty key")
+	}
 
 	alg := algKeyBytes[0]
 	switch alg {
@@ -111,6 +114,9 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(algKeyBytes) == 0 {
+		return nil, fmt.Errorf("empty key")
+	}
 
 	alg := algKeyBytes[0]
 	switch alg {
diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..1ff101f 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,9 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to hold a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..4a465eb 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -36,6 +36,9 @@ type FCRMerkleProof struct {
 
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
+	if len(mp.index) != len(mp.path) {
+		return false
+	}
 	currentHash, _ := content.CalculateHash()
 	for i, path := range mp.path {
 		hashFunc := sha256.New()
-- 
2.43.0


From 889836ce5e30c5ee816fdc717389b83ece18014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 36/68] fix: report unparseable identifiers when decoding
 messages and offers instead of returning nil

---
 common/pkg/cid/cid.go                             |  9 ++++++---
 common/pkg/cidoffer/cidoffer.go                   | 10 ++++++++--
 common/pkg/cidoffer/subcidoffer.go                | 10 ++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       |  9 ++++++---
 44 files changed, 240 insertions(+), 59 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..5b93453 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -135,11 +135,14 @@ func MapCIDToString(cids []ContentID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..4c0f61e 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,15 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids, err = cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..f95552e 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..e000d43 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, err
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..5ddc341 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -179,11 +179,14 @@ func MapNodeIDToString(cids []NodeID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 5ca5664e57671c6e35af569ed3e1011fb0ce0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 37/68] fix: check the errors of encoding the answer to a DHT
 offer acknowledgement request

---
 .../api/clientapi/dht_offer_ack_handler.go    | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index 1c8d379..cd77267 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -47,9 +47,27 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	defer c.AcknowledgementMapLock.RUnlock()
 
 	// Construct message
-	dummyMsg, _ := fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, 0, make([]cidoffer.CIDOffer, 0))
-	dummyAck, _ := fcrmessages.EncodeProviderPublishDHTOfferResponse(0, "")
-	response, _ := fcrmessages.EncodeClientDHTOfferAckResponse(cid, gatewayID, false, dummyMsg, dummyAck)
+	dummyMsg, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, 0, make([]cidoffer.CIDOffer, 0))
+	if err != nil {
+		s := "Internal error: Fail to encode message."
+		logging.Error(s + err.Error())
+		rest.Error(w, s, http.StatusInternalServerError)
+		return
+	}
+	dummyAck, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(0, "")
+	if err != nil {
+		s := "Internal error: Fail to encode message."
+		logging.Error(s + err.Error())
+		rest.Error(w, s, http.StatusInternalServerError)
+		return
+	}
+	response, err := fcrmessages.EncodeClientDHTOfferAckResponse(cid, gatewayID, false, dummyMsg, dummyAck)
+	if err != nil {
+		s := "Internal error: Fail to encode message."
+		logging.Error(s + err.Error())
+		rest.Error(w, s, http.StatusInternalServerError)
+		return
+	}
 
 	gateways, ok := c.AcknowledgementMap[cid.ToString()]
 	if ok {
-- 
2.43.0


From d4278623b08533ed129095b9a3e7ae007e691e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 38/68] fix: a negative number of gateways made a paid DHT
 search free and unlimited

---
 common/pkg/fcrregistermgr/register_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index be61cd3..6ba104c 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -320,6 +320,9 @@ func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.Co
 
 // GetGatewaysNearCID returns a list of gatewayRegisters whose id is close to the given cid.
 func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, notAllowed *nodeid.NodeID) ([]register.GatewayRegistrar, error) {
+	if numDHT < 0 {
+		return nil, errors.New("number of gateways must not be negative")
+	}
 	if numDHT > 16 {
 		numDHT = 16
 	}
-- 
2.43.0


From 35b1fd067d1ca1c11f09260537938093bbb45e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 39/68] fix: recording the acknowledgement of a listed offer
 wrote to a nil map

---
 .../internal/api/gatewayapi/list_dht_offer_handler.go  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..63128bc 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -127,6 +127,9 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	acknowledgements, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
+	if err != nil {
+		return err
+	}
 	if len(acknowledgements) != len(msgs) {
 		return errors.New("invalid response")
 	}
@@ -150,7 +153,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From 1008b110b7fc7ec8a8ec29efbfc0d68966570702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 40/68] fix: the client used the payment manager although it
 could not be created

---
 .../fcrclient/filecoin_retrieval_client.go    | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 676c7b7..d4d9083 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -457,8 +457,12 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
+	paymentMgr := c.PaymentMgr()
+	if paymentMgr == nil {
+		return nil, errors.New("payment manager is not available")
+	}
 	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
-	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
+	paymentChannel, voucher, needTopup, err := paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
 	}
@@ -556,7 +560,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
-	paymentChannel, voucher, needTopup, err = c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
+	paymentChannel, voucher, needTopup, err = paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
 	}
@@ -710,7 +714,11 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paymentMgr := c.PaymentMgr()
+	if paymentMgr == nil {
+		return cidOffers, errors.New("payment manager is not available")
+	}
+	paychAddr, voucher, topup, err := paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -759,7 +767,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
@@ -823,20 +831,24 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 }
 
 func (c *FilecoinRetrievalClient) topupAndPay(recipient string, paymentLane uint64, amount *big.Int) (paymentChannel string, voucher string, err error) {
-	if err := c.PaymentMgr().Topup(recipient, c.Settings.topUpAmount); err != nil {
+	paymentMgr := c.PaymentMgr()
+	if paymentMgr == nil {
+		return "", "", errors.New("payment manager is not available")
+	}
+	if err := paymentMgr.Topup(recipient, c.Settings.topUpAmount); err != nil {
 		return "", "", fmt.Errorf("Unable to topup, error: %s ", err.Error())
 	}
 	var needTopup bool
-	paymentChannel, voucher, needTopup, err = c.PaymentMgr().Pay(recipient, paymentLane, amount)
+	paymentChannel, voucher, needTopup, err = paymentMgr.Pay(recipient, paymentLane, amount)
 	if err != nil {
 		return paymentChannel, voucher, fmt.Errorf("Unable to make payment, did topup first; error: %s ", err.Error())
 	}
 	if needTopup {
-		err = c.PaymentMgr().Topup(recipient, c.Settings.topUpAmount)
+		err = paymentMgr.Topup(recipient, c.Settings.topUpAmount)
 		if err != nil {
 			return paymentChannel, voucher, fmt.Errorf("Unable to topup second time, error: %s ", err.Error())
 		}
-		paymentChannel, voucher, needTopup, err = c.PaymentMgr().Pay(recipient, paymentLane, amount)
+		paymentChannel, voucher, needTopup, err = paymentMgr.Pay(recipient, paymentLane, amount)
 		if err != nil {
 			return paymentChannel, voucher, fmt.Errorf("Unable to make payment, did topup 2 times; error: %s ", err.Error())
 		}
-- 
2.43.0


From eda0bd874c20131014a948d0e3cfb0417069854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 41/68] fix: draw the client's challenges and nonces from the
 cryptographic generator instead of a constantly seeded one

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 15 +++++++--------
 common/pkg/fcrcrypto/prng_public.go               |  8 ++++++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index d4d9083..4b70f43 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -19,7 +19,6 @@ import (
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
 	"sync"
 	"time"
@@ -229,7 +228,7 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 		}
 		// Attempt an establishment
 		challenge := make([]byte, 32)
-		rand.Read(challenge)
+		fcrcrypto.GeneratePublicRandomBytes(challenge)
 		ttl := time.Now().Unix() + c.Settings.EstablishmentTTL()
 		err := c.clientApi.RequestEstablishment(gatewayRegistrar, challenge, c.Settings.ClientID(), ttl)
 		if err != nil {
@@ -307,7 +306,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("given gatewayID is not in active nodes map")
 	}
 	// TODO need to do nonce management
-	offers, err := c.clientApi.RequestStandardDiscover(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), "", "")
+	offers, err := c.clientApi.RequestStandardDiscover(gw, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Unix()+c.Settings.EstablishmentTTL(), "", "")
 	if err != nil {
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
@@ -364,7 +363,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 		return offersMap, errors.New("given gatewayID is not in active nodes map")
 	}
 	// TODO need to do nonce management
-	contacted, contactedResp, uncontactable, err := c.clientApi.RequestDHTDiscover(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), numDHT, false, "", "")
+	contacted, contactedResp, uncontactable, err := c.clientApi.RequestDHTDiscover(gw, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Unix()+c.Settings.EstablishmentTTL(), numDHT, false, "", "")
 	if err != nil {
 		logging.Warn("GatewayDHTDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return offersMap, errors.New("error in requesting dht discovery")
@@ -475,7 +474,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
 	// TODO need to do nonce management
-	nonce := rand.Int63()
+	nonce := fcrcrypto.GeneratePublicRandomNonce()
 	ttl := time.Now().Unix() + c.Settings.EstablishmentTTL()
 	contactedGateways, contactedResp, uncontactable, paymentRequired, paymentChannel, discoverErr := c.clientApi.RequestDHTDiscoverV2(entryGateway, contentID, nonce, ttl, numDHT, false, paymentChannel, voucher)
 	if discoverErr != nil {
@@ -735,7 +734,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 
 	// It pays for the first request to get a list of offer digests.
 	// TODO need to do nonce management
-	offerDigests, paymentRequired, _, discoverErr := c.clientApi.RequestStandardDiscoverV2(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), paychAddr, voucher)
+	offerDigests, paymentRequired, _, discoverErr := c.clientApi.RequestStandardDiscoverV2(gw, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Unix()+c.Settings.EstablishmentTTL(), paychAddr, voucher)
 	if discoverErr != nil {
 		return make([]cidoffer.SubCIDOffer, 0), fmt.Errorf("error getting offer from gateway: %s;  error: %s", gw.GetNodeID(), discoverErr.Error())
 	}
@@ -745,7 +744,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			return nil, fmt.Errorf("topup error while requesting standard discovery: %s", err.Error())
 		}
 		// retry
-		offerDigests, paymentRequired, _, err = c.clientApi.RequestStandardDiscoverV2(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), paychAddr, voucher)
+		offerDigests, paymentRequired, _, err = c.clientApi.RequestStandardDiscoverV2(gw, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Unix()+c.Settings.EstablishmentTTL(), paychAddr, voucher)
 		if err != nil {
 			return make([]cidoffer.SubCIDOffer, 0), fmt.Errorf("error getting offer from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
 		}
@@ -780,7 +779,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 		}
 	}
 
-	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
+	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
 	}
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index 1b28871..46b8cc8 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -16,6 +16,7 @@ package fcrcrypto
  */
 
 import (
+	"encoding/binary"
 	"sync"
 )
 
@@ -27,6 +28,13 @@ func GeneratePublicRandomBytes(b []byte) {
 	GetPublicPRNG().ReadBytes(b)
 }
 
+// GeneratePublicRandomNonce generates a random nonce for a message. The nonce is not negative.
+func GeneratePublicRandomNonce() int64 {
+	b := make([]byte, 8)
+	GeneratePublicRandomBytes(b)
+	return int64(binary.BigEndian.Uint64(b) >> 1)
+}
+
 // Single instance of the gateway
 var publicPRNG Random
 var doOnce sync.Once
-- 
2.43.0


From faa647e45bde3feff7e5c98aac7c4e58f171835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 42/68] fix: choose a fresh nonce for each request to a peer
 instead of a constant one

---
 gateway/internal/api/gatewayapi/dht_discover_requester.go    | 5 +++--
 gateway/internal/api/gatewayapi/dht_discover_requester_v2.go | 5 +++--
 provider/internal/api/gatewayapi/list_dht_offer_handler.go   | 4 ++--
 .../internal/api/providerapi/publish_dht_offer_requester.go  | 3 +--
 .../api/providerapi/publish_group_offer_requester.go         | 4 ++--
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_requester.go b/gateway/internal/api/gatewayapi/dht_discover_requester.go
index 9563135..7b6ab2c 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_requester.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_requester.go
@@ -20,6 +20,7 @@ import (
 	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
@@ -45,8 +46,8 @@ func RequestGatewayDHTDiscover(reader *fcrp2pserver.FCRServerReader, writer *fcr
 	c := core.GetSingleInstance()
 
 	// Construct message
-	// TODO, ADD nonce, TTL and payment information.
-	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(c.GatewayID, contentID, 1, time.Now().Add(10*time.Second).Unix(), "", "")
+	// TODO, ADD TTL and payment information.
+	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(c.GatewayID, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Add(10*time.Second).Unix(), "", "")
 	if err != nil {
 		return nil, err
 	}
diff --git a/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go b/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go
index 7e1739b..a20b6ca 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_requester_v2.go
@@ -20,6 +20,7 @@ import (
 	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
@@ -53,8 +54,8 @@ func RequestGatewayDHTDiscoverV2(reader *fcrp2pserver.FCRServerReader, writer *f
 	c := core.GetSingleInstance()
 
 	// Construct message
-	// TODO, ADD nonce, TTL and payment information.
-	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(c.GatewayID, contentID, 1, time.Now().Add(10*time.Second).Unix(), paychAddr, voucher)
+	// TODO, ADD TTL and payment information.
+	request, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(c.GatewayID, contentID, fcrcrypto.GeneratePublicRandomNonce(), time.Now().Add(10*time.Second).Unix(), paychAddr, voucher)
 	if err != nil {
 		return nil, err
 	}
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 63128bc..37ad009 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -79,13 +79,13 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		for !exit {
 			var msg *fcrmessages.FCRMessage
 			if len(offers) > maxOffersPerMsg {
-				msg, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, 1, offers[:50]) //TODO: Add nonce
+				msg, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, fcrcrypto.GeneratePublicRandomNonce(), offers[:50])
 				if err != nil {
 					return err
 				}
 				offers = offers[50:]
 			} else {
-				msg, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, 1, offers) //TODO: Add nonce
+				msg, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, fcrcrypto.GeneratePublicRandomNonce(), offers)
 				if err != nil {
 					return err
 				}
diff --git a/provider/internal/api/providerapi/publish_dht_offer_requester.go b/provider/internal/api/providerapi/publish_dht_offer_requester.go
index 1eec715..a26d12b 100644
--- a/provider/internal/api/providerapi/publish_dht_offer_requester.go
+++ b/provider/internal/api/providerapi/publish_dht_offer_requester.go
@@ -49,8 +49,7 @@ func RequestProviderPublishDHTOffer(reader *fcrp2pserver.FCRServerReader, writer
 	c := core.GetSingleInstance()
 
 	// Construct message
-	// TODO: Add nonce
-	request, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, 1, offers)
+	request, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(c.ProviderID, fcrcrypto.GeneratePublicRandomNonce(), offers)
 	if err != nil {
 		return nil, err
 	}
diff --git a/provider/internal/api/providerapi/publish_group_offer_requester.go b/provider/internal/api/providerapi/publish_group_offer_requester.go
index 1bae36d..8eee318 100644
--- a/provider/internal/api/providerapi/publish_group_offer_requester.go
+++ b/provider/internal/api/providerapi/publish_group_offer_requester.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
@@ -46,8 +47,7 @@ func RequestProviderPublishGroupOffer(reader *fcrp2pserver.FCRServerReader, writ
 	c := core.GetSingleInstance()
 
 	// Construct message
-	// TODO: Add nonce
-	request, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(c.ProviderID, 1, offer)
+	request, err := fcrmessages.EncodeProviderPublishGroupOfferRequest(c.ProviderID, fcrcrypto.GeneratePublicRandomNonce(), offer)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e9c7c49ead097527c0caabc20cc0c9a4ea587f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 43/68] fix: a failed key initialisation left the node with
 keys installed, or with keys but no payment manager

---
 .../api/adminapi/initialise_key_handler.go         | 12 +++++++-----
 .../api/adminapi/initialise_key_handler_v2.go      | 14 +++++++++-----
 .../api/adminapi/initialise_key_handler.go         | 12 +++++++-----
 .../api/adminapi/initialise_key_handler_v2.go      | 14 +++++++++-----
 4 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/gateway/internal/api/adminapi/initialise_key_handler.go b/gateway/internal/api/adminapi/initialise_key_handler.go
index 0fcee61..b1ebf1d 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler.go
@@ -38,10 +38,6 @@ func HandleGatewayAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcrm
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
 	if err != nil {
@@ -52,13 +48,19 @@ func HandleGatewayAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcrm
 	}
 
 	// Sign message
-	err = response.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion)
+	err = response.Sign(privKey, privKeyVer)
 	if err != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusInternalServerError)
 		return
 	}
+
+	// Everything is valid: install the keys
+	c.GatewayID = nodeID
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.GatewayPrivateKey = privKey
+
 	// Send message
   if err := w.WriteJson(response); err != nil {
     logging.Error("can't write JSON during HandleGatewayAdminInitialiseKeyRequest %s", err.Error())
diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..a1901c6 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -60,13 +57,20 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 	}
 
 	// Sign message
-	err = response.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion)
+	err = response.Sign(privKey, privKeyVer)
 	if err != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusInternalServerError)
 		return
 	}
+
+	// Everything is valid: install the keys
+	c.GatewayID = nodeID
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+	c.GatewayPrivateKey = privKey
+
 	// Send message
   if err := w.WriteJson(response); err != nil {
     logging.Error("can't write JSON during HandleGatewayAdminInitialiseKeyRequestV2 %s", err.Error())
diff --git a/provider/internal/api/adminapi/initialise_key_handler.go b/provider/internal/api/adminapi/initialise_key_handler.go
index 88eb471..0c16501 100644
--- a/provider/internal/api/adminapi/initialise_key_handler.go
+++ b/provider/internal/api/adminapi/initialise_key_handler.go
@@ -38,10 +38,6 @@ func HandleProviderAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcr
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
 	if err != nil {
@@ -52,12 +48,18 @@ func HandleProviderAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcr
 	}
 
 	// Sign message
-	if signErr := response.Sign(c.ProviderPrivateKey, c.ProviderPrivateKeyVersion); signErr != nil {
+	if signErr := response.Sign(privKey, privKeyVer); signErr != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + signErr.Error())
 		rest.Error(w, s, http.StatusInternalServerError)
 		return
 	}
+
+	// Everything is valid: install the keys
+	c.ProviderID = nodeID
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.ProviderPrivateKey = privKey
+
 	// Send message
   if writeErr := w.WriteJson(response); writeErr != nil {
     logging.Error("can't write JSON during HandleProviderAdminInitialiseKeyRequest %s", writeErr.Error())
diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..d25224f 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -60,12 +57,19 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 	}
 
 	// Sign message
-	if signErr := response.Sign(c.ProviderPrivateKey, c.ProviderPrivateKeyVersion); signErr != nil {
+	if signErr := response.Sign(privKey, privKeyVer); signErr != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + signErr.Error())
 		rest.Error(w, s, http.StatusInternalServerError)
 		return
 	}
+
+	// Everything is valid: install the keys
+	c.ProviderID = nodeID
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+	c.ProviderPrivateKey = privKey
+
 	// Send message
   if writeErr := w.WriteJson(response); writeErr != nil {
     logging.Error("can't write JSON during HandleProviderAdminInitialiseKeyRequestV2 %s", writeErr.Error())
-- 
2.43.0


From 92ca87b9d9b2d17c97df91ae0d6035ee3138aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 44/68] fix: requests to a gateway or provider without keys or
 wallet crashed the handler or were acted on

---
 .../internal/api/adminapi/set_group_cid_support.go  |  7 +++++++
 .../internal/api/clientapi/dht_discover_handler.go  |  7 +++++++
 .../api/clientapi/dht_discover_handler_v2.go        | 13 +++++++++++++
 .../api/clientapi/dht_discover_offer_handler.go     | 13 +++++++++++++
 .../internal/api/clientapi/establishment_handler.go |  7 +++++++
 .../api/clientapi/standard_discover_handler.go      |  7 +++++++
 .../api/clientapi/standard_discover_handler_v2.go   | 13 +++++++++++++
 .../clientapi/standard_discover_offer_handler.go    | 13 +++++++++++++
 .../internal/api/gatewayapi/dht_discover_handler.go |  5 +++++
 .../api/gatewayapi/dht_discover_handler_v2.go       |  9 +++++++++
 .../api/gatewayapi/dht_discover_offer_handler.go    |  9 +++++++++
 .../api/providerapi/publish_dht_offer_handler.go    |  5 +++++
 .../api/providerapi/publish_group_offer_handler.go  |  5 +++++
 .../internal/api/clientapi/dht_offer_ack_handler.go |  7 +++++++
 .../api/gatewayapi/list_dht_offer_handler.go        |  5 +++++
 .../gatewayapi/notify_group_cid_offer_supported.go  |  5 +++++
 16 files changed, 130 insertions(+)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index 7cffd9e..7f8a3b1 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,13 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_handler.go b/gateway/internal/api/clientapi/dht_discover_handler.go
index 00f2989..96d3c89 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler.go
@@ -37,6 +37,13 @@ func HandleClientDHTCIDDiscoverRequest(w rest.ResponseWriter, request *fcrmessag
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 159801d..28e8455 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -36,6 +36,19 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised with a wallet by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index bcf7197..45880e0 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -32,6 +32,19 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised with a wallet by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, allGatewaysOfferDigests, targetGatewayIDs, paymentChannel, voucher, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/establishment_handler.go b/gateway/internal/api/clientapi/establishment_handler.go
index ff9fb13..b5b72f1 100644
--- a/gateway/internal/api/clientapi/establishment_handler.go
+++ b/gateway/internal/api/clientapi/establishment_handler.go
@@ -31,6 +31,13 @@ func HandleClientEstablishmentRequest(w rest.ResponseWriter, request *fcrmessage
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	clientID, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler.go b/gateway/internal/api/clientapi/standard_discover_handler.go
index cf1613d..823597f 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardCIDDiscoverRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler_v2.go b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
index 1fd911f..69d3563 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
@@ -32,6 +32,19 @@ func HandleClientStandardCIDDiscoverRequestV2(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised with a wallet by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index 2af5b41..1193503 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -33,6 +33,19 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+	if c.PaymentMgr == nil {
+		s := "This gateway hasn't been initialised with a wallet by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler.go b/gateway/internal/api/gatewayapi/dht_discover_handler.go
index 3d00290..7356ad4 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler.go
@@ -35,6 +35,11 @@ func HandleGatewayDHTDiscoverRequest(_ *fcrp2pserver.FCRServerReader, writer *fc
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 2b6a782..4668ea8 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -30,6 +30,15 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+	if c.PaymentMgr == nil {
+		logging.Error("This gateway hasn't been initialised with a wallet by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 3bcba75..576150c 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -30,6 +30,15 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+	if c.PaymentMgr == nil {
+		logging.Error("This gateway hasn't been initialised with a wallet by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO, Need to have an id
 	pieceCID, nonce, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(request)
 	if err != nil {
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 67f9f8e..cae54fe 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -33,6 +33,11 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	providerID, nonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 6d46fd5..52cbab3 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -29,6 +29,11 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO Add nonce, it looks like nonce is not needed
 	providerID, _, offer, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(request)
 	if err != nil {
diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index cd77267..77fc07a 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -35,6 +35,13 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		s := "This provider hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, gatewayID, err := fcrmessages.DecodeClientDHTOfferAckRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 37ad009..901827f 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -34,6 +34,11 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, cidMin, cidMax, registrationBlock, registrationTransactionReceipt, registrationMerkleRoot, registrationMerkleProof, err := fcrmessages.DecodeGatewayListDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index ee82621..74fec39 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -27,6 +27,11 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, groupCIDOfferSupported, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		// Reply with invalid message
-- 
2.43.0


From 46bcddf745989df30d0b0b3ed64192088bc637fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 45/68] fix: the configured register refresh interval was
 ignored

---
 gateway/cmd/gateway/main.go   | 4 +---
 provider/cmd/provider/main.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/gateway/cmd/gateway/main.go b/gateway/cmd/gateway/main.go
index f4c305a..5dbac95 100644
--- a/gateway/cmd/gateway/main.go
+++ b/gateway/cmd/gateway/main.go
@@ -23,8 +23,6 @@ package main
  */
 
 import (
-	"time"
-
 	_ "github.com/joho/godotenv/autoload"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -55,7 +53,7 @@ func main() {
 	c := core.GetSingleInstance(&appSettings)
 
 	// Initialise a register manager
-	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, true, true, 10*time.Second)
+	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, true, true, appSettings.RegisterRefreshDuration)
 
 	// Create REST Server
 	c.RESTServer = fcrrestserver.NewFCRRESTServer(
diff --git a/provider/cmd/provider/main.go b/provider/cmd/provider/main.go
index f136003..cb79d6b 100644
--- a/provider/cmd/provider/main.go
+++ b/provider/cmd/provider/main.go
@@ -25,8 +25,6 @@ package main
  */
 
 import (
-	"time"
-
 	_ "github.com/joho/godotenv/autoload"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -57,7 +55,7 @@ func main() {
 	c := core.GetSingleInstance(&appSettings)
 
 	// Initialise a register manager
-	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, false, true, 10*time.Second)
+	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, false, true, appSettings.RegisterRefreshDuration)
 
 	// Create REST Server
 	c.RESTServer = fcrrestserver.NewFCRRESTServer(
-- 
2.43.0


From b7fa5604f4380abac40d8460a0b8023483214958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 46/68] fix: an amount of which only a prefix is a number was
 taken as that prefix

---
 gateway/config/config.go  | 17 +++++++----------
 provider/config/config.go | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/gateway/config/config.go b/gateway/config/config.go
index 435b399..178648e 100644
--- a/gateway/config/config.go
+++ b/gateway/config/config.go
@@ -5,8 +5,8 @@ package config
 
 import (
   "flag"
-  "fmt"
   "math/big"
+  "strings"
   "time"
 
   "github.com/spf13/pflag"
@@ -41,23 +41,20 @@ func Map(conf *viper.Viper) settings.AppSettings {
 		tcpLongInactivityTimeout = settings.DefaultLongTCPInactivityTimeout
 	}
 
-	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
-	if err != nil {
+	defaultSearchPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("SEARCH_PRICE")), 0)
+	if !ok {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
-	if err != nil {
+	defaultOfferPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("OFFER_PRICE")), 0)
+	if !ok {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
-	if err != nil {
+	defaultTopUpAmount, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("TOPUP_AMOUNT")), 0)
+	if !ok {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
 	}
diff --git a/provider/config/config.go b/provider/config/config.go
index 4535063..47c5be2 100644
--- a/provider/config/config.go
+++ b/provider/config/config.go
@@ -5,10 +5,10 @@ package config
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"math/big"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/spf13/pflag"
@@ -51,23 +51,20 @@ func Map(conf *viper.Viper) settings.AppSettings {
 		tcpLongInactivityTimeout = settings.DefaultLongTCPInactivityTimeout
 	}
 
-	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
-	if err != nil {
+	defaultSearchPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("SEARCH_PRICE")), 0)
+	if !ok {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
-	if err != nil {
+	defaultOfferPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("OFFER_PRICE")), 0)
+	if !ok {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
-	if err != nil {
+	defaultTopUpAmount, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("TOPUP_AMOUNT")), 0)
+	if !ok {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
 	}
-- 
2.43.0


From a9682eef25837454b19dcf80d96c549f7f0d8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 47/68] fix: each lookup of an offer leaked a database
 connection, and rows that could not be read crashed it

---
 common/pkg/offermgr/offer_manager.go | 71 ++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 269da29..7d862dc 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -7,6 +7,7 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/database"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
 )
 
@@ -148,35 +149,67 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, parameters ...interface{}) (res []cidoffer.CIDOffer, find bool) {
 	offerRows, err := mgr.db.Query(sqlSelectOffer, parameters...)
 	if err != nil {
-		return
+		logging.Error("Error querying offers: %s", err.Error())
+		return nil, false
 	}
-	var cnt int
-	sqlSelectContent := `select content_id from content where digest=? order by content_no`
+	defer offerRows.Close()
 	for offerRows.Next() {
 		var digestHex, providerHex string
 		var expiry int64
 		var price, qos uint64
 		var signature string
-		offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature)
-		providerID, _ := nodeid.NewNodeIDFromHexString(providerHex)
-
-		cidRows, _ := mgr.db.Query(sqlSelectContent, digestHex)
-		cids := []cid.ContentID{}
-		for cidRows.Next() {
-			var aCidStr string
-			cidRows.Scan(&aCidStr)
-			aCid, _ := cid.NewContentIDFromHexString(aCidStr)
-			cids = append(cids, *aCid)
-			find = true
+		if err := offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature); err != nil {
+			logging.Error("Error reading offer: %s", err.Error())
+			return nil, false
+		}
+		providerID, err := nodeid.NewNodeIDFromHexString(providerHex)
+		if err != nil {
+			logging.Error("Error decoding provider of offer %s: %s", digestHex, err.Error())
+			return nil, false
+		}
+		cids, err := mgr.selectContent(digestHex)
+		if err != nil {
+			logging.Error("Error reading content of offer %s: %s", digestHex, err.Error())
+			return nil, false
+		}
+		offer, err := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
+		if err != nil {
+			logging.Error("Error restoring offer %s: %s", digestHex, err.Error())
+			return nil, false
 		}
-
-		offer, _ := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
 		offer.SetSignature(signature)
 		res = append(res, *offer)
-		cnt++
-		if cnt >= maxOffers && maxOffers > 0 {
+		find = true
+		if maxOffers > 0 && len(res) >= maxOffers {
 			break
 		}
 	}
-	return
+	if err := offerRows.Err(); err != nil {
+		logging.Error("Error reading offers: %s", err.Error())
+		return nil, false
+	}
+	return res, find
+}
+
+// selectContent retrieves the content IDs of an offer
+func (mgr *FCROfferMgr) selectContent(digestHex string) ([]cid.ContentID, error) {
+	sqlSelectContent := `select content_id from content where digest=? order by content_no`
+	cidRows, err := mgr.db.Query(sqlSelectContent, digestHex)
+	if err != nil {
+		return nil, err
+	}
+	defer cidRows.Close()
+	cids := []cid.ContentID{}
+	for cidRows.Next() {
+		var aCidStr string
+		if err := cidRows.Scan(&aCidStr); err != nil {
+			return nil, err
+		}
+		aCid, err := cid.NewContentIDFromHexString(aCidStr)
+		if err != nil {
+			return nil, err
+		}
+		cids = append(cids, *aCid)
+	}
+	return cids, cidRows.Err()
 }
-- 
2.43.0


From fe17f03d326a0736af7604d818869f2eb93b5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 48/68] fix: an offer could be stored with part of its content
 IDs, and the failure dropped

---
 common/pkg/offermgr/offer_manager.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 7d862dc..348fd2d 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -90,7 +90,12 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 		where not exists (select 1 from content where content_no = ? and digest = ?)`
 	digestArr := offer.GetMessageDigest()
 	digestHex := hex.EncodeToString(digestArr[:])
-	_, err = mgr.db.Exec(sqlInsertOffer, digestHex,
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
 		offer.GetPrice(),
@@ -101,10 +106,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	}
 	i := 0
 	for _, contentID := range offer.GetCIDs() {
-		_, err = mgr.db.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		if err != nil {
+			return err
+		}
 		i++
 	}
-	return err
+	return tx.Commit()
 }
 
 // selectOffersSingle retrieves offers by a CID
-- 
2.43.0


From ab6b872fe7066e712664c52adf099e95a490bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 49/68] fix: an offer that expires after the year 9999 was
 never found

---
 common/pkg/offermgr/offer_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 348fd2d..e860ce9 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -121,7 +121,7 @@ func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CID
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o join content c on o.digest=c.digest 
 		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
 }
@@ -133,7 +133,7 @@ func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID,
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
 }
@@ -144,7 +144,7 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
 	if !exist {
-- 
2.43.0


From ce019ae369997516c6050f87d0427f60f6cee2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 50/68] fix: sign and verify the acknowledgements of listed DHT
 offers

A gateway that fetched DHT offers acknowledged each publication with an unsigned message inside its signed answer. The
provider recorded it and handed it out to clients, whose FindDHTOfferAck then always failed to verify it.
---
 gateway/internal/api/gatewayapi/list_dht_offer_requester.go | 4 ++++
 provider/internal/api/gatewayapi/list_dht_offer_handler.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index 045c5a1..a7a8480 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -126,6 +126,10 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 		if err != nil {
 			return nil, err
 		}
+		// Sign the acknowledgement, so that it can be verified on its own
+		if err := cidOfferMsgAck.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion); err != nil {
+			return nil, err
+		}
 		cidOfferMsgAcks = append(cidOfferMsgAcks, *cidOfferMsgAck)
 	}
 	ack, err := fcrmessages.EncodeGatewayListDHTOfferAck(cidOfferMsgAcks)
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 901827f..03acec5 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -139,6 +139,10 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		return errors.New("invalid response")
 	}
 	for i, acknowledgement := range acknowledgements {
+		// Verify the acknowledgement itself, since it is handed out to clients on its own
+		if err := acknowledgement.Verify(pubKey); err != nil {
+			return err
+		}
 		// TODO: Check nonce.
 		_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
 		if err != nil {
-- 
2.43.0


From df492a154848594a35eabd8bb6903959d7af6c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 51/68] fix: a failing store made the register panic instead of
 answering

---
 register/internal/handlers/gateways_handler.go  | 12 +++++++-----
 register/internal/handlers/providers_handler.go |  7 ++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 924ab8e..fa4c904 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -28,8 +28,9 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
-		log.Error("Unable to set Redis value")
-		panic(err)
+		msg := "Unable to set Redis value"
+		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
+		return op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	log.Info("register created a gateway record with ID: %s", params.Register.NodeID)
@@ -117,12 +118,13 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 	}
 
 	for index := range registers {
-		log.Info("register deleted a gateway record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeGateway, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to delete Redis value"
+			log.Error("%s, error in DeleteGatewayRegisters: %s", msg, err.Error())
+			return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
+		log.Info("register deleted a gateway record with ID: %s", index)
 	}
 
 	payload := models.Ack{Status: "success", Message: "All Gateways have been deleted"}
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 62b7c0e..f73b45a 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -119,12 +119,13 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 	}
 
 	for index := range registers {
-		log.Info("register deleted a provider record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeProvider, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to delete Redis value"
+			log.Error("%s, error in DeleteProviderRegisters: %s", msg, err.Error())
+			return op.NewDeleteProviderRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
+		log.Info("register deleted a provider record with ID: %s", index)
 	}
 
 	payload := models.Ack{Status: "success", Message: "All Providers have been deleted"}
-- 
2.43.0


From 5d5f22a36a5d25e77f922c739b2917de761df63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 52/68] fix: the register answered gateway operations with
 another operation's error

---
 register/internal/handlers/gateways_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index fa4c904..173ef29 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -52,7 +52,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 	if err != nil {
 		msg := "Unable to get Redis value"
 		log.Error("%s, error: %s", msg, err.Error())
-		return op.NewGetGatewayRegistersByIDDefault(404).WithPayload(&models.Error{Message: &msg})
+		return op.NewGetGatewayRegistersDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	payload := []*models.GatewayRegister{}
@@ -114,7 +114,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 	if err != nil {
 		msg := "Unable to get Redis value"
 		log.Error("%s, error: %s", msg, err.Error())
-		return op.NewGetGatewayRegistersByIDDefault(404).WithPayload(&models.Error{Message: &msg})
+		return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	for index := range registers {
-- 
2.43.0


From 1364ef6e1f9726c7183300c5f35bb5ce6b7c8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 53/68] fix: an unreadable registration was returned as an
 empty one

---
 register/internal/handlers/gateways_handler.go  | 5 ++++-
 register/internal/handlers/providers_handler.go | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 173ef29..a3f1a00 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -62,6 +62,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		registerData := models.GatewayRegister{}
 		if unmarshalErr := json.Unmarshal([]byte(g), &registerData); unmarshalErr != nil {
 			log.Error("inside GetGatewayRegisters - can't unmarshall JSON, %s", unmarshalErr.Error())
+			continue
 		}
 		payload = append(payload, &registerData)
 		debugOutputSb.WriteString(fmt.Sprintf("%s, ", registerData.NodeID))
@@ -91,7 +92,9 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 
 	registerData := models.GatewayRegister{}
 	if unmarshallErr := json.Unmarshal([]byte(gatewayRegister), &registerData); unmarshallErr != nil {
-		log.Error("inside GetGatewayRegisterByID - can't unmarshall JSON: %s", unmarshallErr.Error())
+		msg := "can't unmarshall JSON"
+		log.Error("inside GetGatewayRegisterByID - %s: %s", msg, unmarshallErr.Error())
+		return op.NewGetGatewayRegistersByIDDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	payload := registerData
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index f73b45a..e587564 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -62,6 +62,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		registerData := models.ProviderRegister{}
 		if unmarshallErr := json.Unmarshal([]byte(register), &registerData); unmarshallErr != nil {
 			log.Error("inside GetProviderRegisters - can't unmarshall JSON: %s", unmarshallErr.Error())
+			continue
 		}
 		payload = append(payload, &registerData)
 		debugOutputSb.WriteString(fmt.Sprintf("%s, ", registerData.NodeID))
-- 
2.43.0


From 393665dbf49057c1fac1a50127ee7001f1a6c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 54/68] fix: the register kept a store connection pool open for
 every request

---
 register/internal/handlers/gateways_handler.go  | 4 ++++
 register/internal/handlers/providers_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index a3f1a00..3d897f7 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -25,6 +25,7 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
@@ -47,6 +48,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegisters, err := rdb.HGetAll(ctx, "gateway").Result()
 	if err != nil {
@@ -82,6 +84,7 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
 	if err != nil {
@@ -110,6 +113,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index e587564..6e1567f 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -25,6 +25,7 @@ func AddProviderRegister(params op.AddProviderRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()
 	if err != nil {
@@ -48,6 +49,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	providerRegisters, err := rdb.HGetAll(ctx, "provider").Result()
 	if err != nil {
@@ -81,6 +83,7 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
 	if err != nil {
@@ -109,6 +112,7 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
-- 
2.43.0


From 91c46aa77b534cb126e2787f8909d532ece2b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 55/68] fix: keep each published DHT offer, not a pointer to
 the last one

---
 provider/internal/api/adminapi/publish_dht_offer_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..5866284 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -77,6 +77,7 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 
 	// Add offers
 	for _, offer := range offers {
+		offer := offer // the store keeps the pointer
 		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
       logging.Error("can't add DHT offer: %v", offer)
     }
-- 
2.43.0


From 2c16bf1cb2930aefe74e5849a3a3b2c261c8a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 56/68] fix: ask each gateway for the offers it announced
 itself

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 4b70f43..7cafe28 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -502,6 +502,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 
 	var addedSubOffersCount int
 	var offersDigestsFromAllGateways [][]string
+	var offersGateways []nodeid.NodeID // the gateways the digests are from, in the same order
 	for i := 0; i < len(contactedGateways); i++ {
 		contactedGatewayID := contactedGateways[i]
 		resp := contactedResp[i]
@@ -542,6 +543,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		}
 
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
+		offersGateways = append(offersGateways, contactedGatewayID)
 		addedSubOffersCount += len(offerDigests)
 
 		if addedSubOffersCount >= offersNumberLimit {
@@ -571,7 +573,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, offersGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From 1c12cb59194c7d4529d5c56509c797faaa56293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 57/68] fix: a text that is not a digest does not decode to
 part of one

---
 common/pkg/cidoffer/cidoffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 4c0f61e..2530dec 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -266,8 +266,11 @@ func EncodeMessageDigest(sum256 [CIDOfferDigestSize]byte) (digest string) {
 // DecodeMessageDigest decodes the message digest of this CID Group Offer
 // from base64-encoded string
 func DecodeMessageDigest(digest string) (sum256 [CIDOfferDigestSize]byte) {
-	decoded, _ := base64.StdEncoding.DecodeString(digest)
 	var ret [CIDOfferDigestSize]byte
+	decoded, err := base64.StdEncoding.DecodeString(digest)
+	if err != nil {
+		return ret // no digest: not the part that could be decoded
+	}
 	copy(ret[:], decoded)
 	return ret
 }
-- 
2.43.0


From 9961b5a0409fdcdd62fe243e9e9d04336d334e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 58/68] fix: report what could not be encoded instead of
 sending nothing

---
 common/pkg/request/request.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..cd2602f 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -78,10 +78,13 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	c.Lock()
 	defer c.Unlock()
-	jsonData, _ := json.Marshal(data)
+	jsonData, err := json.Marshal(data)
+	if err != nil {
+		return fmt.Errorf("SendJSON error, can't encode data: %s", err.Error())
+	}
 	req, err := http.NewRequest("POST", url, bytes.NewReader(jsonData))
-	if req == nil {
-		return errors.New("SendJSON error, can't create request")
+	if err != nil {
+		return fmt.Errorf("SendJSON error, can't create request: %s", err.Error())
 	}
 	req.Header.Set("Content-Type", "application/json")
 
@@ -100,12 +103,15 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 	c.Lock()
 	defer c.Unlock()
 	var data fcrmessages.FCRMessage
-	jsonData, _ := json.Marshal(message)
+	jsonData, err := json.Marshal(message)
+	if err != nil {
+		return nil, fmt.Errorf("SendMessage error, can't encode message: %s", err.Error())
+	}
 	logging.Debug("SendMessage - POST JSON to url: %v; request type: %d", url, message.GetMessageType())
 	contentReader := bytes.NewReader(jsonData)
 	req, err := http.NewRequest("POST", "http://"+url+"/v1", contentReader)
-	if req == nil {
-		return nil, errors.New("SendMessage error, can't create request")
+	if err != nil {
+		return nil, fmt.Errorf("SendMessage error, can't create request: %s", err.Error())
 	}
 	req.Header.Set("Content-Type", "application/json")
 
-- 
2.43.0


From e5dc174d19cc912e6f5c5815675f7007825ede2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 59/68] fix: do not run without the register manager

---
 gateway/cmd/gateway/main.go   | 1 +
 provider/cmd/provider/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gateway/cmd/gateway/main.go b/gateway/cmd/gateway/main.go
index 5dbac95..9c194dc 100644
--- a/gateway/cmd/gateway/main.go
+++ b/gateway/cmd/gateway/main.go
@@ -116,6 +116,7 @@ func main() {
   // Start register manager's routine
   if err := c.RegisterMgr.Start(); err != nil {
     logging.Error("error starting Register Manager: %s", err.Error())
+    return
   }
 
 	// Configure what should be called if Control-C is hit.
diff --git a/provider/cmd/provider/main.go b/provider/cmd/provider/main.go
index cb79d6b..ca003e3 100644
--- a/provider/cmd/provider/main.go
+++ b/provider/cmd/provider/main.go
@@ -104,6 +104,7 @@ func main() {
   // Start register manager's routine
   if err := c.RegisterMgr.Start(); err != nil {
     logging.Error("error starting Register Manager: %s", err.Error())
+    return
   }
 
 	// Configure what should be called if Control-C is hit.
-- 
2.43.0


From c893445e26222075051e070a87e4c762347f4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 60/68] fix: tell the admin when an offer could not be stored

---
 .../internal/api/adminapi/publish_dht_offer_handler.go     | 7 +++++--
 .../internal/api/adminapi/publish_group_offer_handler.go   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 5866284..ee06e95 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -79,8 +79,11 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	for _, offer := range offers {
 		offer := offer // the store keeps the pointer
 		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
-      logging.Error("can't add DHT offer: %v", offer)
-    }
+			s := "Internal error: Fail to add DHT offer."
+			logging.Error(s + err.Error())
+			rest.Error(w, s, http.StatusInternalServerError)
+			return
+		}
 	}
 
 	for _, contendID := range cids {
diff --git a/provider/internal/api/adminapi/publish_group_offer_handler.go b/provider/internal/api/adminapi/publish_group_offer_handler.go
index bd73ca5..4c1071b 100644
--- a/provider/internal/api/adminapi/publish_group_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_group_offer_handler.go
@@ -64,8 +64,11 @@ func HandleProviderAdminPublishGroupOfferRequest(w rest.ResponseWriter, request
 
 	// Add offer to storage
 	if addErr := c.OffersMgr.AddGroupOffer(offer); addErr != nil {
-	  logging.Error("can't add group offer: %v", offer)
-  }
+		s := "Fail to add group offer."
+		logging.Error(s + addErr.Error())
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 
 	// Get all gateways
 	gateways := c.RegisterMgr.GetAllGateways()
-- 
2.43.0


From 6ced69b42b701239aa6598c638e075d08323a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 61/68] fix: skip a gateway's answer that could not be decoded

---
 client/pkg/api/clientapi/dht_discover_offer_requester.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 21bc109..4b7fd25 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -91,6 +91,7 @@ func (c *Client) RequestDHTOfferDiscover(
 		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
 		if decodeErr != nil {
 			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
+			continue
 		}
 		if paymentRequired {
 			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
-- 
2.43.0


From a17c8c55bd04732fcf96368bab747987aa2b4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 62/68] fix: do not run without the offer tables

---
 common/pkg/offermgr/offer_manager.go | 29 +++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index e860ce9..4d71a86 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -21,19 +21,34 @@ type FCROfferMgr struct {
 
 // NewFCROfferMgr returns
 func NewFCROfferMgr() *FCROfferMgr {
-	db, _ := database.NewDatabase()
+	db, err := database.NewDatabase()
+	if err != nil {
+		logging.ErrorAndPanic("Cannot open the offer database: %s", err.Error())
+	}
 
 	if !offerDBInitialized {
-		db.Exec(`PRAGMA journal_mode=wal`)
+		if _, err := db.Exec(`PRAGMA journal_mode=wal`); err != nil {
+			logging.Warn("Cannot set the journal mode of the offer database: %s", err.Error())
+		}
 		if inUnitTest {
-			db.Exec(`drop table if exists offer`)
-			db.Exec(`drop table if exists content`)
+			if _, err := db.Exec(`drop table if exists offer`); err != nil {
+				logging.ErrorAndPanic("Cannot prepare the offer database: %s", err.Error())
+			}
+			if _, err := db.Exec(`drop table if exists content`); err != nil {
+				logging.ErrorAndPanic("Cannot prepare the offer database: %s", err.Error())
+			}
 		} else {
 			offerDBInitialized = true
 		}
-		db.Exec(`create table if not exists offer (digest blob, provider_id blob, expiry blob, price blob, qos blob, signature blob, primary key (digest))`)
-		db.Exec(`create table if not exists content (content_id blob, content_no int, digest blob, primary key (digest, content_no))`)
-		db.Exec(`create index if not exists content_cid_idx on content (content_id)`)
+		if _, err := db.Exec(`create table if not exists offer (digest blob, provider_id blob, expiry blob, price blob, qos blob, signature blob, primary key (digest))`); err != nil {
+			logging.ErrorAndPanic("Cannot prepare the offer database: %s", err.Error())
+		}
+		if _, err := db.Exec(`create table if not exists content (content_id blob, content_no int, digest blob, primary key (digest, content_no))`); err != nil {
+			logging.ErrorAndPanic("Cannot prepare the offer database: %s", err.Error())
+		}
+		if _, err := db.Exec(`create index if not exists content_cid_idx on content (content_id)`); err != nil {
+			logging.ErrorAndPanic("Cannot prepare the offer database: %s", err.Error())
+		}
 	}
 	return &FCROfferMgr{
 		db: db,
-- 
2.43.0


From 86d2070855eff9a09d635a334a7535fc9c827a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 63/68] fix: an answer of an error status is no success

---
 common/pkg/request/request.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index cd2602f..d042d8f 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -63,6 +63,9 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if r.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("GetJSON receive error code: %s", r.Status)
+	}
 	result, readErr := ioutil.ReadAll(r.Body)
 	if readErr != nil {
 		return nil, fmt.Errorf("can't read from JSON response, error: %s", readErr.Error())
@@ -95,6 +98,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err := r.Body.Close(); err != nil {
 		return err
 	}
+	if r.StatusCode < 200 || r.StatusCode > 299 {
+		return fmt.Errorf("SendJSON receive error code: %s", r.Status)
+	}
 	return nil
 }
 
-- 
2.43.0


From 46ccd1ca6241465eff690d798e7fbb374f4ced44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 64/68] fix: close the body of every answer

---
 common/pkg/request/request.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index d042d8f..a08d505 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -63,6 +63,7 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer r.Body.Close()
 	if r.StatusCode != http.StatusOK {
 		return nil, fmt.Errorf("GetJSON receive error code: %s", r.Status)
 	}
@@ -70,10 +71,6 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 	if readErr != nil {
 		return nil, fmt.Errorf("can't read from JSON response, error: %s", readErr.Error())
 	}
-
-	if closeErr := r.Body.Close(); closeErr != nil {
-		return nil, closeErr
-	}
 	return result, nil
 }
 
@@ -125,10 +122,11 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 	if err != nil {
 		return nil, err
 	}
+	defer r.Body.Close()
 
 	bodyBytes, err := ioutil.ReadAll(r.Body)
 	if err != nil {
-		return &data, err
+		return nil, err
 	}
 
 	if r.StatusCode != 200 {
@@ -139,9 +137,6 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 	if err := json.Unmarshal(bodyBytes, &data); err != nil {
 		return nil, errors.New("SendMessage error, can't unmarshal request body")
 	}
-	if err := r.Body.Close(); err != nil {
-		return &data, errors.New("SendMessage error, can't close request body")
-	}
 	logging.Debug("SendMessage - received response type: %d; HTTP status code: %d", data.GetMessageType(), r.StatusCode)
 	return &data, nil
 }
@@ -158,6 +153,7 @@ func (c *HttpCommunicator) Delete(url string) error {
 	if err != nil {
 		return err
 	}
+	defer r.Body.Close()
 	if r.StatusCode != http.StatusOK {
 		return fmt.Errorf("can't delete, got http status: %d", r.StatusCode)
 	}
-- 
2.43.0


From f7d1c74993d3ff0f54a0b0c2ec86e22f7023d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 65/68] fix: a DHT discovery is paid with the configured search
 price

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 7cafe28..39758c9 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -460,7 +460,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	if paymentMgr == nil {
 		return nil, errors.New("payment manager is not available")
 	}
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := paymentMgr.Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
-- 
2.43.0


From 70e992839f4ae0e5b0bb795b7108c825ba6fbf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 66/68] fix: a DHT discovery that requires payment pays the
 gateway, for all the gateways asked

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 39758c9..b561f09 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -482,7 +482,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
-- 
2.43.0


From ff473196d1e2267f5ae05e47ac9302b91d2cbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 67/68] fix: a discovery the gateway still wants payment for
 after being paid again is reported as failed

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index b561f09..6abb191 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -494,6 +494,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		}
 		if paymentRequired {
 			logging.Error("gateway DHT discovery error: received 'payment required' twice")
+			return nil, errors.New("gateway DHT discovery error: received 'payment required' twice")
 		}
 	}
 	for i := 0; i < len(uncontactable); i++ {
@@ -752,6 +753,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 		}
 		if paymentRequired {
 			logging.Error("find offers standard discovery - received 'payment required' twice")
+			return nil, errors.New("find offers standard discovery - received 'payment required' twice")
 		}
 	}
 	if len(offerDigests) == 0 {
-- 
2.43.0


From 6a801bc6b7dea2a846d32ba39dca44b16144b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 68/68] fix: a publish group offer request without an offer
 crashed the gateway

---
 .../pkg/fcrmessages/provider_publish_group_offer_request.go   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index 3496a4d..05b3f2d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,10 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
+	if msg.Offer.GetProviderID() == nil {
+		// The message has no offer
+		return nil, 0, nil, errors.New("offer missing")
+	}
 	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
 	if err != nil {
 		return nil, 0, nil, err
-- 
2.43.0

