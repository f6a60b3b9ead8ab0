import re
p='common/pkg/fcroffermgr/offer_storage.go'
s=open(p).read()
a=s.index('	for _, contentID := range newOffer.GetCIDs() {\n		cidStr := contentID.ToString()\n		digestMap, exists = ')
b=s.index('	return nil\n}\n', a)
s=s[:a]+'''	cids := newOffer.GetCIDs()
	for i := 0; i < len(cids); i++ {
		o.tableFor(cids[i].ToString()).put(digest, newOffer)
	}
'''+s[b:]
s=s.replace('''	o.lock.Lock()
	defer o.lock.Unlock()
	digestMap, exists := o.cidMap[testCIDStr]
	if exists {
		digestMap.lock.RLock()
		_, exists = digestMap.dMap[digest]
		digestMap.lock.RUnlock()
		if exists {
			// This offer is already in the system.
			return nil
		}
	}
''','''	o.lock.Lock()
	defer o.lock.Unlock()
	if first, ok := o.cidMap[testCIDStr]; ok && first.has(digest) {
		return nil
	}
''')
s+='''
func (d *digestOffer) has(digest [cidoffer.CIDOfferDigestSize]byte) bool {
	d.lock.RLock()
	defer d.lock.RUnlock()
	_, ok := d.dMap[digest]
	return ok
}

func (d *digestOffer) put(digest [cidoffer.CIDOfferDigestSize]byte, offer *cidoffer.CIDOffer) {
	d.lock.Lock()
	defer d.lock.Unlock()
	d.dMap[digest] = offer
}

// caller holds the lock
func (o *offerStorage) tableFor(key string) *digestOffer {
	if table, ok := o.cidMap[key]; ok {
		return table
	}
	table := &digestOffer{dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer)}
	o.cidMap[key] = table
	return table
}
'''
# lookup
s=s.replace('''		if offer.HasExpired() {
			toRemove = append(toRemove, *offer)
		} else {
			res = append(res, *offer)
		}
''','''		if !offer.HasExpired() {
			res = append(res, *offer)
			continue
		}
		toRemove = append(toRemove, *offer)
''')
open(p,'w').write(s)
p='common/pkg/fcroffermgr/offer_manager.go'
s=open(p).read()
s=s.replace('''	if err := mgr.dhtOffers.add(offer); err != nil {
		return err
	}
	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
	return nil
''','''	err := mgr.dhtOffers.add(offer)
	if err == nil {
		key := offer.GetCIDs()[0].ToString()
		mgr.dhtOfferRing.Insert(key)
	}
	return err
''')
open(p,'w').write(s)
