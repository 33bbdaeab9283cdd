package sign

// what one call sealed and opened
type vAead struct {
	n, on                       int
	key, nonce, pt              string
	okey, ononce, oct, oad, opt string
	draws, zero                 int
	salt                        string
}

func vWatchAead() *vAead {
	a := &vAead{}
	vHook("seal", func(key, nonce, pt, ad string) { a.n, a.key, a.nonce, a.pt = a.n+1, key, nonce, pt })
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if ok {
			a.on, a.okey, a.ononce, a.oct, a.oad, a.opt = a.on+1, key, nonce, ct, ad, vOpen(key, nonce, ct, ad)
		}
	})
	vHook("rand", func(b string) { a.draws, a.salt = a.draws+1, b })
	return a
}

func vUnwatch() {
	vUnhook("seal")
	vUnhook("open")
	vUnhook("rand")
}

// a serialized private key
func vMarshalled(sk *PrivateKey, pw string) (string, *vAead) {
	a := vWatchAead()
	b, err := sk.MarshalBinary(vStr("comment"), []byte(pw))
	vUnwatch()
	vAssert("serializing works", err == nil)
	return string(b), a
}

// read back with the same password; secrecy of the text
func vcC12_private() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	pw := vStr("pw")
	b, a := vMarshalled(sk, pw)
	vAssert("the text does not show the seed", !vLeaks(b, s[:32]))
	vAssert("the text does not show the password", !vLeaks(b, pw))
	vAssert("one encryption", a.n == 1 && a.pt == s)
	vAssert("a fresh salt", a.draws == 1 && vIsRand(a.salt, 32))
	vAssert("key from password and salt", a.key == vScrypt(vSha512(pw), a.salt, 1<<19, 8, 1, 32))
	vAssert("the salt is stored", vMentions(b, a.salt))
	calls := 0
	k2, err := MakePrivateKey([]byte(b), func() ([]byte, error) {
		calls++
		return []byte(pw), nil
	})
	vAssert("loads with the same password", err == nil && k2 != nil)
	vAssert("the same private key", string(k2.Sk) == s)
	vPrivInv(k2, s)
	vCover("end")
}

// loaded into a key object already in use
func vcC12_reload() {
	sk := vGenKey()
	s := string(sk.Sk)
	pw := vStr("pw")
	b, _ := vMarshalled(sk, pw)
	k2 := vAnyKey("2")
	err := k2.UnmarshalBinary([]byte(b), func() ([]byte, error) { return []byte(pw), nil })
	vAssert("loads with the same password", err == nil)
	vPrivInv(k2, s)
	vCover("end")
}

// from a file
func vcC12_readfile() {
	sk := vGenKey()
	s := string(sk.Sk)
	pw := vStr("pw")
	b, _ := vMarshalled(sk, pw)
	fn := vStr("fn")
	vAssume(vFileText(fn) == b)
	f := vFailures()
	k2, err := ReadPrivateKey(fn, func() ([]byte, error) { return []byte(pw), nil })
	if err != nil {
		vCover("failed")
		vAssert("fails only if the file cannot be read", f.n > 0)
		return
	}
	vAssert("the same private key", string(k2.Sk) == s)
	vCover("end")
}

// no password function stands for the empty password
func vcC12_nopw() {
	sk := vGenKey()
	s := string(sk.Sk)
	b, _ := vMarshalled(sk, "")
	k2, err := MakePrivateKey([]byte(b), nil)
	vAssert("loads without a password", err == nil && k2 != nil)
	vAssert("the same private key", string(k2.Sk) == s)
	vCover("end")
}

// another password
func vcC12_wrong() {
	sk := vGenKey()
	pw, pw2 := vStr("pw"), vStr("pw2")
	b, _ := vMarshalled(sk, pw)
	k2 := vAnyKey("2")
	s2 := string(k2.Sk)
	err := k2.UnmarshalBinary([]byte(b), func() ([]byte, error) { return []byte(pw2), nil })
	if err == nil {
		vCover("same")
		vAssert("loads with no other password", pw2 == pw)
		return
	}
	vCover("refused")
	vAssert("refused only if the password differs", pw2 != pw)
	vPrivInv(k2, s2)
}

// the password function fails
func vcC12_pwfail() {
	sk := vGenKey()
	b, _ := vMarshalled(sk, vStr("pw"))
	e := vErr("pw")
	vAssume(e != nil)
	k2, err := MakePrivateKey([]byte(b), func() ([]byte, error) { return vBytes("pw"), e })
	vAssert("no password, no key", err != nil && k2 == nil)
	vCover("end")
}

// any serialized key: what is loaded was decrypted and authenticated with a key made from the password
func vLoadAny(doc string) {
	pw := vStr("pw")
	a := vWatchAead()
	k, err := MakePrivateKey([]byte(doc), func() ([]byte, error) { return []byte(pw), nil })
	vUnwatch()
	if err != nil {
		vCover("refused")
		vAssert("no key on error", k == nil)
		return
	}
	vCover("loaded")
	vAssert("what is loaded was decrypted", a.on == 1 && string(k.Sk) == a.opt)
	vAssert("with a key made from the password", vMentions(a.okey, vSha512(pw)))
	vPrivInv(k, string(k.Sk))
}

// edits of every field of a serialized key
func vcC12_edit() {
	vLoadAny(vYaml("comment", vStr("comment"), "esk", vStr("esk"), "salt", vStr("salt"), "algo", vStr("algo"),
		"Z", vInt("N"), "r", vInt("r"), "p", vInt("p")))
}

// edits of one serialized key: only the original ciphertext, salt and parameters open
func vcC12_altered() {
	sk := vGenKey()
	s := string(sk.Sk)
	pw := vStr("pw")
	b, a := vMarshalled(sk, pw)
	esk, _ := vYamlGet(b, "esk")
	ct, salt := esk, vStr("salt")
	if vBool("newsalt") {
		salt = vB64(vStr("salt"))
	} else {
		salt, _ = vYamlGet(b, "salt")
	}
	doc := vYaml("comment", vStr("comment2"), "esk", ct, "salt", salt, "algo", vStr("algo"),
		"Z", vInt("N"), "r", vInt("r"), "p", vInt("p"))
	k, err := MakePrivateKey([]byte(doc), func() ([]byte, error) { return []byte(pw), nil })
	if err != nil {
		vCover("refused")
		vAssert("no key on error", k == nil)
		return
	}
	vCover("loaded")
	vAssert("opens only with the original salt", salt == vB64(a.salt))
	vAssert("opens only with the original parameters", vInt("N") == 1<<19 && vInt("r") == 8 && vInt("p") == 1)
	vAssert("and is the original key", string(k.Sk) == s)
}

// public keys
func vcC12_public() {
	pk := vAnyPub("p")
	b, err := pk.MarshalBinary(vStr("comment"))
	vAssert("serializing works", err == nil)
	k2, err := MakePublicKey(b)
	vAssert("loads", err == nil && k2 != nil)
	vPubInv(k2, vStrN("p", 32))
	// into an object in use
	k3 := vAnyPub("q")
	vAssert("loads again", k3.UnmarshalBinary(b) == nil)
	vPubInv(k3, vStrN("p", 32))
	// given on the command line
	k4, err := MakePublicKeyFromString(vB64(vStrN("p", 32)))
	vAssert("read as a string", err == nil && k4 != nil)
	vPubInv(k4, vStrN("p", 32))
	fn := vStr("fn")
	vAssume(vFileText(fn) == string(b))
	f := vFailures()
	k5, err := ReadPublicKey(fn)
	if err != nil {
		vCover("failed")
		vAssert("fails only if the file cannot be read", f.n > 0)
		return
	}
	vPubInv(k5, vStrN("p", 32))
	vCover("end")
}

// signatures
func vcC12_signature() {
	sk := vAnyKey("1")
	msg := vBytes("msg")
	sig, err := sk.SignMessage(msg, vStr("c"))
	vAssume(err == nil)
	s2 := vSigBack(sk, sig)
	vAssert("still verifies", sk.PublicKey().VerifyMessage(msg, s2))
}

func vSigBack(sk *PrivateKey, sig *Signature) *Signature {
	b, err := sig.MarshalBinary(vStr("comment"))
	vAssert("serializing works", err == nil)
	s2 := &Signature{}
	vAssert("loads", s2.UnmarshalBinary(b) == nil)
	vAssert("the same signature", string(s2.Sig) == string(sig.Sig))
	vAssert("the same key hash", string(s2.pkhash) == string(sig.pkhash))
	vAssert("still matches its key", s2.IsPKMatch(sk.PublicKey()) == sig.IsPKMatch(sk.PublicKey()))
	fn := vStr("fn")
	vAssume(vFileText(fn) == string(b))
	f := vFailures()
	s3, err := ReadSignature(fn)
	if err != nil {
		vAssert("fails only if the file cannot be read", f.n > 0)
	} else {
		vAssert("the same from a file", string(s3.Sig) == string(sig.Sig) && string(s3.pkhash) == string(sig.pkhash))
	}
	vCover("end")
	return s2
}

// any signature object
func vcC12_anysig() {
	sig := &Signature{}
	if sig.UnmarshalBinary(vBytes("sigfile")) != nil {
		vCover("refused")
		return
	}
	vSigBack(vGenKey(), sig)
}
