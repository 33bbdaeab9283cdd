package sign

// C09. Every parser, on any bytes. No obligation but the absence of panics (checked by the
// verifier for every operation) and usable results.

func vGetpw() func() ([]byte, error) {
	if vBool("nopw") {
		return nil
	}
	return func() ([]byte, error) {
		if vBool("pwfails") {
			return nil, ErrNoKey
		}
		return vBytes("pw"), vErr("pwerr")
	}
}

func vUseKey(sk *PrivateKey) {
	sig, err := sk.SignMessage(vBytes("msg"), "")
	if err == nil {
		vAssert("a signature", sig != nil)
		vUsePub(sk.PublicKey(), sig)
	}
	sk.ToCurve25519SK()
}

func vUsePub(pk *PublicKey, sig *Signature) {
	pk.VerifyMessage(vBytes("msg"), sig)
	sig.IsPKMatch(pk)
	pk.Hash()
	pk.ToCurve25519PK()
}

func vcC09_private() {
	sk, err := MakePrivateKey(vBytes("file"), vGetpw())
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("usable key", sk != nil && sk.PublicKey() != nil)
	vUseKey(sk)
	vCover("ok")
}

func vcC09_public() {
	pk, err := MakePublicKey(vBytes("file"))
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("usable key", pk != nil)
	vUsePub(pk, &Signature{Sig: vBytes("sig")})
	vCover("ok")
}

func vcC09_string() {
	pk, err := MakePublicKeyFromString(vStr("arg"))
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("usable key", pk != nil)
	vUsePub(pk, &Signature{Sig: vBytes("sig")})
	vCover("ok")
}

func vcC09_signature() {
	sig := &Signature{}
	if sig.UnmarshalBinary(vBytes("file")) != nil {
		vCover("refused")
		return
	}
	pk := vGenKey().PublicKey()
	vUsePub(pk, sig)
	vAssert("a signature of another length is refused", len(sig.Sig) == 64 || !pk.VerifyMessage(vBytes("msg"), sig))
	vCover("ok")
}

func vcC09_readprivate() {
	sk, err := ReadPrivateKey(vStr("fn"), vGetpw())
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("usable key", sk != nil && sk.PublicKey() != nil)
	vCover("ok")
}

func vcC09_readpublic() {
	pk, err := ReadPublicKey(vStr("fn"))
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("usable key", pk != nil && len(pk.Pk) == 32)
	vCover("ok")
}

func vcC09_readsignature() {
	sig, err := ReadSignature(vStr("fn"))
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("usable signature", sig != nil)
	vCover("ok")
}

func vcC09_authorized() {
	pks, err := ParseAuthorizedKeys(vBytes("file"))
	if err != nil {
		vCover("refused")
		return
	}
	if len(pks) > 0 {
		pk := pks[0]
		vAssert("usable key", pk != nil)
		vCover("key")
	}
	vCover("ok")
}
