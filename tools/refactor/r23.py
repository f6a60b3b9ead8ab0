def sub(f,*prs):
    s=open(f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b,1)
    open(f,'w').write(s)
sub('common/pkg/fcrcrypto/prng.go',
 ('''		drbgBytes := make([]byte, lengthPerIteration)
		if _, err := r.drbg.Read(drbgBytes); err != nil {
			panic(err)
		}
		r.prfHasher.Write(drbgBytes)
''','''		r.prfHasher.Write(r.inner(lengthPerIteration))
'''),
 ('''		hashOutput := r.prfHasher.Sum(nil)

		// Update the PRF state.
		r.prfState = hashOutput

		oldOfs''','''		hashOutput := r.next()

		oldOfs'''),
 ('''		if ofs <= lenOutput {
			copy(b[oldOfs:ofs], hashOutput)
		} else {
			copy(b[oldOfs:lenOutput], hashOutput)
		}
''','''		copy(b[oldOfs:], hashOutput)
'''),
 ('''// Read reads random values into b
func''','''func (r *randomImpl) inner(n int) []byte {
	out := make([]byte, n)
	_, err := r.drbg.Read(out)
	if err == nil {
		return out
	}
	panic(err)
}

func (r *randomImpl) next() []byte {
	out := r.prfHasher.Sum(nil)
	r.prfState = out
	return out
}

// Read reads random values into b
func'''),
 ('''	r.prfState = make([]byte, getPRNGHasherDigestSize())
	systemRandomBytes(r.prfState)
''','''	initial := make([]byte, getPRNGHasherDigestSize())
	systemRandomBytes(initial)
	r.prfState = initial
'''))
sub('common/pkg/challenge/challenge.go',('''	random := make([]byte, 32)
	if _, err := rand.Read(random); err != nil {
		panic(err)
	}
	challenge := make([]byte, base64.StdEncoding.EncodedLen(len(random)))
	base64.StdEncoding.Encode(challenge, random[:])
	return string(challenge)
''','''	var random [32]byte
	n, err := rand.Read(random[:])
	if err != nil || n != len(random) {
		panic("no randomness")
	}
	return base64.StdEncoding.EncodeToString(random[:])
'''))
sub('common/pkg/fcrcrypto/secp256k1.go',('''	prng := GetPrivatePRNG()
	return secp256k1GenerateKeyFromSeed(prng.GetReader())''','''	return secp256k1GenerateKeyFromSeed(GetPrivatePRNG().GetReader())'''),
('''	privkey := make([]byte, secp256k1PrivateKeyBytes)
	blob := key.D.Bytes()

	// the length is guaranteed to be fixed, given the serialization rules for secp2561k curve points.
	copy(privkey[secp256k1PrivateKeyBytes-len(blob):], blob)

	return privkey, nil''','''	return key.D.FillBytes(make([]byte, secp256k1PrivateKeyBytes)), nil'''))
sub('gateway/internal/api/gatewayapi/dht_discover_requester.go',('request, err := fcrmessages','nonce := fcrcrypto.GeneratePublicRandomNonce()\n	request, err := fcrmessages'),('contentID, fcrcrypto.GeneratePublicRandomNonce(),','contentID, nonce,'))
