f='common/pkg/offermgr/offer_manager.go'
s=open(f).read()
i=s.index('	tx, err := mgr.db.Begin()'); j=s.index('// selectOffersSingle')
s=s[:i]+'''	return mgr.inTransaction(func(tx *sql.Tx) error {
		if _, err := tx.Exec(sqlInsertOffer, digestHex, offer.GetProviderID().ToString(), offer.GetExpiry(), offer.GetPrice(), offer.GetQoS(), offer.GetSignature(), digestHex); err != nil {
			return err
		}
		return insertContents(tx, sqlInsertContent, digestHex, offer)
	})
}

func insertContents(tx *sql.Tx, statement, digestHex string, offer *cidoffer.CIDOffer) error {
	cids := offer.GetCIDs()
	for no := range cids {
		if _, err := tx.Exec(statement, cids[no].ToString(), no, digestHex, no, digestHex); err != nil {
			return err
		}
	}
	return nil
}

func (mgr *FCROfferMgr) inTransaction(work func(tx *sql.Tx) error) error {
	tx, err := mgr.db.Begin()
	if err != nil {
		return err
	}
	if err = work(tx); err != nil {
		tx.Rollback()
		return err
	}
	return tx.Commit()
}

'''+s[j:]
i=s.index('	for offerRows.Next() {'); j=s.index('	if err := offerRows.Err()')
s=s[:i]+'''	for (maxOffers <= 0 || len(res) < maxOffers) && offerRows.Next() {
		offer, err := mgr.readOffer(offerRows)
		if err != nil {
			logging.Error("Error reading offer: %s", err.Error())
			return nil, false
		}
		res = append(res, *offer)
		find = true
	}
'''+s[j:]
s=s.replace('''	return res, find
}
''','''	return res, find
}

// readOffer restores the offer of the current row
func (mgr *FCROfferMgr) readOffer(rows *sql.Rows) (*cidoffer.CIDOffer, error) {
	var (
		digestHex, providerHex, signature string
		expiry                            int64
		price, qos                        uint64
	)
	err := rows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature)
	if err != nil {
		return nil, err
	}
	providerID, err := nodeid.NewNodeIDFromHexString(providerHex)
	if err != nil {
		return nil, err
	}
	cids, err := mgr.selectContent(digestHex)
	if err != nil {
		return nil, err
	}
	offer, err := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
	if err != nil {
		return nil, err
	}
	offer.SetSignature(signature)
	return offer, nil
}
''',1)
s=s.replace('''	"encoding/hex"
''','''	"database/sql"
	"encoding/hex"
''')
s=s.replace('''	defer cidRows.Close()
	cids := []cid.ContentID{}
''','''	defer func() {
		if e := cidRows.Close(); e != nil {
			logging.Warn("close: %s", e.Error())
		}
	}()
	var cids []cid.ContentID
''')
s=s.replace('''	return cids, cidRows.Err()
''','''	if err = cidRows.Err(); err != nil {
		return nil, err
	}
	return cids, nil
''')
s=s.replace('offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))','key := hex.EncodeToString(digest)\n	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, key)')
s=s.replace('''	if !exist {
		return nil, exist
	}
	return &offers[0], exist''','''	if exist {
		return &offers[0], true
	}
	return nil, false''')
s=s.replace('content_id>=? and content_id<=?','content_id between ? and ?')
open(f,'w').write(s)
