package sign

import "io"

// The Curve25519 point of a public key, by the birational map, for all 32 bytes. This is the
// contract the other proofs use for ToCurve25519PK.
func vcC13_curve() {
	p := vStrN("p", 32)
	pk := &PublicKey{}
	vAssume(makePublicKeyFromBytes(pk, []byte(p)) == nil)
	c := string(pk.ToCurve25519PK())
	vAssert("curve point is u = (1+y)/(1-y)", c == vMontgomery(p))
	vAssert("and stays so", string(pk.ToCurve25519PK()) == c)
	vAssert("the key is unchanged", string(pk.Pk) == p)
	vCover("end")
}

// constructors
func vcC13_new() {
	sk, err := NewPrivateKey()
	vAssume(err == nil)
	vPrivInv(sk, string(sk.Sk))
	vCover("made")
	pk, err := MakePublicKeyFromString(vStr("s"))
	if err != nil {
		vCover("refused")
		return
	}
	vPubInv(pk, string(pk.Pk))
	vCover("end")
}

// any call on a private key in any state, other than loading
func vcC13_calls() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	sig, err := sk.SignMessage([]byte(vStr("msg")), vStr("comment"))
	vPrivInv(sk, s)
	vAssert("signing works", err == nil && sig != nil)
	_, err = sk.MarshalBinary(vStr("comment"), []byte(vStr("pw")))
	vPrivInv(sk, s)
	_, err = sk.PublicKey().MarshalBinary(vStr("comment"))
	vPrivInv(sk, s)
	sig.IsPKMatch(sk.PublicKey())
	sk.PublicKey().VerifyMessage([]byte(vStr("msg")), sig)
	vPrivInv(sk, s)
	vCover("end")
}

// used as sender, recipient and for decryption
func vcC13_used() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	e, err := NewEncryptor(sk, vU64("blksize"))
	if err != nil {
		vPrivInv(sk, s)
		vCover("refused")
		return
	}
	err = e.AddRecipient(sk.PublicKey())
	vPrivInv(sk, s)
	d, err := NewDecryptor(vReader(vStr("in"), io.EOF))
	vAssume(err == nil)
	err = d.SetPrivateKey(sk, sk.PublicKey())
	vPrivInv(sk, s)
	vCover("end")
}

// loading another key into a private key object in any state
func vcC13_load() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	p := sk.PublicKey()
	old := string(p.Pk)
	pw := vBytes("pw")
	perr := vErr("pw")
	var getpw func() ([]byte, error)
	if vBool("getpw") {
		getpw = func() ([]byte, error) { return pw, perr }
	}
	err := sk.UnmarshalBinary(vBytes("file"), getpw)
	vPubInv(p, old)
	if err != nil {
		vCover("refused")
		vPrivInv(sk, s)
		return
	}
	vCover("loaded")
	vPrivInv(sk, string(sk.Sk))
}

// into a public key object
func vcC13_loadpub() {
	pk := vAnyPub("p")
	old := string(pk.Pk)
	err := pk.UnmarshalBinary(vBytes("file"))
	if err != nil {
		vCover("refused")
		vPubInv(pk, old)
		return
	}
	vCover("loaded")
	vAssert("32 bytes", len(pk.Pk) == 32)
	vPubInv(pk, string(pk.Pk))
}

// into the public key object of a private key
func vcC13_loadhalf() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	err := sk.PublicKey().UnmarshalBinary(vBytes("file"))
	if err == nil {
		vCover("loaded")
	}
	vPrivInv(sk, s)
	vCover("end")
}

// matching signatures to keys
func vcC13_match() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	pk := vAnyPub("p")
	sig, err := sk.SignMessage([]byte(vStr("msg")), vStr("comment"))
	vAssume(err == nil)
	vAssert("matches the key that made it", sig.IsPKMatch(sk.PublicKey()))
	vAssert("matches others only if the hashes are the same",
		sig.IsPKMatch(pk) == (vHash(string(pk.Pk)) == vHash(s[32:64])))
	// also when the key object is loaded anew afterwards
	if sk.UnmarshalBinary(vBytes("file"), nil) == nil {
		vCover("loaded")
		vAssert("a signature keeps its key's hash", sig.IsPKMatch(pk) == (vHash(string(pk.Pk)) == vHash(s[32:64])))
	}
	vCover("end")
}

// any signature: one that was loaded matches a key exactly when it names the key's whole hash
func vcC13_anysig() {
	pk := vAnyPub("p")
	sig := &Signature{}
	if sig.UnmarshalBinary(vBytes("sigfile")) != nil {
		vCover("refused")
		return
	}
	vCover("loaded")
	vAssert("matches exactly the key whose hash it holds", sig.IsPKMatch(pk) == (string(sig.pkhash) == vHash(string(pk.Pk))))
}
