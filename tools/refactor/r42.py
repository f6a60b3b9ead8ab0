import sys
def sub(f,*prs):
    s=open(f).read()
    for o,n in prs:
        assert o in s,(f,o[:60])
        s=s.replace(o,n,1)
    open(f,'w').write(s)
prng='common/pkg/fcrcrypto/prng.go'; co='common/pkg/cidoffer/cidoffer.go'
ph='provider/internal/api/gatewayapi/list_dht_offer_handler.go'; gr='gateway/internal/api/gatewayapi/list_dht_offer_requester.go'
rest='common/pkg/fcrrestserver/server.go'
sub(prng,("		oldOfs := ofs\n		ofs += lengthPerIteration\n\n		// If the output length\n		if ofs <= lenOutput {\n			copy(b[oldOfs:ofs], hashOutput)\n		} else {\n			copy(b[oldOfs:lenOutput], hashOutput)\n		}\n","		end := ofs + lengthPerIteration\n		if end > lenOutput {\n			end = lenOutput\n		}\n		copy(b[ofs:end], hashOutput)\n		ofs += lengthPerIteration\n"),
 ("	r.prfHasher.Reset()\n	r.prfHasher.Write(seed)\n	r.prfHasher.Write(r.prfState)\n	hashOutput := r.prfHasher.Sum(nil)\n	r.prfState = hashOutput\n","	r.mix(seed)\n"),
 ("// QuickReseedKick aims","func (r *randomImpl) mix(seed []byte) {\n	h := r.prfHasher\n	h.Reset()\n	h.Write(r.prfState[:])\n	h.Write(seed)\n	r.prfState = h.Sum(nil)\n}\n\n// QuickReseedKick aims"))
sub(co,("	// Reconstrct the merkle trie\n	list := make([]merkletree.Content, len(c.cids))\n	for i := 0; i < len(c.cids); i++ {\n		list[i] = (c.cids)[i]\n	}\n	c.merkleTree, err = fcrmerkletree.CreateMerkleTree(list)\n	if err != nil {\n		return err\n	}\n	c.merkleRoot = c.merkleTree.GetMerkleRoot()\n	return nil\n}","	return c.rebuild()\n}\n\nfunc (c *CIDOffer) rebuild() error {\n	list := make([]merkletree.Content, 0, len(c.cids))\n	for _, one := range c.cids {\n		list = append(list, one)\n	}\n	tree, err := fcrmerkletree.CreateMerkleTree(list)\n	if err != nil {\n		return err\n	}\n	c.merkleTree = tree\n	c.merkleRoot = tree.GetMerkleRoot()\n	return nil\n}"),
 ("	var ret [CIDOfferDigestSize]byte\n	decoded, err","	decoded, err"),
 ("		return ret // no digest: not the part that could be decoded\n	}\n	copy(ret[:], decoded)\n	return ret","		return sum256 // no digest: not the part that could be decoded\n	}\n	for i := 0; i < len(decoded) && i < len(sum256); i++ {\n		sum256[i] = decoded[i]\n	}\n	return sum256"))
sub(ph,("offers[:50])","offers[:maxOffersPerMsg])"),("offers = offers[50:]","offers = offers[maxOffersPerMsg:]"))
sub(gr,("		cidOfferMsgAck, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)\n		if err != nil {\n			return nil, err\n		}\n		// Sign the acknowledgement, so that it can be verified on its own\n		if err := cidOfferMsgAck.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion); err != nil {\n			return nil, err\n		}\n","		cidOfferMsgAck, err := signedAck(c, nonce, sig)\n		if err != nil {\n			return nil, err\n		}\n"),
 ("// storeDHTOffers verifies","func signedAck(c *core.Core, nonce int64, sig string) (*fcrmessages.FCRMessage, error) {\n	ack, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)\n	if err != nil {\n		return nil, err\n	}\n	if err := ack.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion); err != nil {\n		return nil, err\n	}\n	return ack, nil\n}\n\n// storeDHTOffers verifies"))
sub(rest,("	handler := s.handlers[listenAddr][message.GetMessageType()]\n	if handler != nil {","	if handler := s.lookup(listenAddr, message.GetMessageType()); handler != nil {"),
 ("// msgRouter routes","func (s *FCRRESTServer) lookup(addr string, msgType int32) func(rw rest.ResponseWriter, request *fcrmessages.FCRMessage) {\n	return s.handlers[addr][msgType]\n}\n\n// msgRouter routes"))
