f='common/pkg/offermgr/offer_manager.go'
s=open(f).read()
i=s.index('	sqlInsertOffer :='); j=s.index('	digestArr :=')
s=s[:i]+'''	const sqlInsertOffer = `insert or ignore into offer (digest, provider_id, expiry, price, qos, signature) values (?, ?, ?, ?, ?, ?)`
	const sqlInsertContent = `insert or ignore into content (content_id, content_no, digest) values (?, ?, ?)`
'''+s[j:]
i=s.index('	defer tx.Rollback()'); j=s.index('// selectOffersSingle')
s=s[:i]+'''	done := false
	defer func() {
		if !done {
			tx.Rollback()
		}
	}()
	_, err = tx.Exec(sqlInsertOffer, digestHex, offer.GetProviderID().ToString(), offer.GetExpiry(), offer.GetPrice(), offer.GetQoS(), offer.GetSignature())
	if err != nil {
		return err
	}
	stmt, err := tx.Prepare(sqlInsertContent)
	if err != nil {
		return err
	}
	defer stmt.Close()
	for i, contentID := range offer.GetCIDs() {
		if _, err = stmt.Exec(contentID.ToString(), i, digestHex); err != nil {
			return err
		}
	}
	if err = tx.Commit(); err != nil {
		return err
	}
	done = true
	return nil
}

'''+s[j:]
s=s.replace('''	sqlSelectOffer :=
		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
		from offer o join content c on o.digest=c.digest 
		where c.content_id=?
''','''	sqlSelectOffer := offerColumns + `
		from offer o inner join content c on (c.digest = o.digest)
		where c.content_id = ?
''')
s=s.replace('''	sqlSelectOffer :=
		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
		from offer o
''','''	sqlSelectOffer := offerColumns + ` from offer o
''')
s=s.replace('var inUnitTest','const offerColumns = `select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature`\n\nvar inUnitTest',1)
s=s.replace('''	for cidRows.Next() {
		var aCidStr string
		if err := cidRows.Scan(&aCidStr); err != nil {
			return nil, err
		}
		aCid, err := cid.NewContentIDFromHexString(aCidStr)
		if err != nil {
			return nil, err
		}
		cids = append(cids, *aCid)
	}
''','''	var aCidStr string
	var aCid *cid.ContentID
	for cidRows.Next() {
		err = cidRows.Scan(&aCidStr)
		if err == nil {
			aCid, err = cid.NewContentIDFromHexString(aCidStr)
		}
		if err != nil {
			return nil, err
		}
		cids = append(cids, *aCid)
	}
''')
# creation loop
i=s.index("		if _, err := db.Exec(`create table if not exists offer"); j=s.index("	}\n	return &FCROfferMgr{")
s=s[:i]+'''		for _, statement := range []string{
			`create table if not exists offer (digest blob, provider_id blob, expiry blob, price blob, qos blob, signature blob, primary key (digest))`,
			`create table if not exists content (content_id blob, content_no int, digest blob, primary key (digest, content_no))`,
			`create index if not exists content_cid_idx on content (content_id)`,
		} {
			if _, err := db.Exec(statement); err != nil {
				logging.ErrorAndPanic("Cannot prepare the offer database: %s", err.Error())
			}
		}
'''+s[j:]
open(f,'w').write(s)
