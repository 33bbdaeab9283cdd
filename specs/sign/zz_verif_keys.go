package sign

// Key objects as they can be after any calls: made or loaded, with the derived keys cached or not.

func vCached(sk *PrivateKey, tag string) {
	if vBool("sk-used" + tag) {
		sk.ToCurve25519SK()
	}
	if vBool("pk-used" + tag) {
		sk.pk.ToCurve25519PK()
	}
}

func vAnyKey(tag string) *PrivateKey {
	sk := vGenKey()
	vCached(sk, tag)
	return sk
}

// a public key as the parsers make it, of any 32 bytes
func vAnyPub(name string) *PublicKey {
	pk := &PublicKey{}
	vAssume(makePublicKeyFromBytes(pk, []byte(vStrN(name, 32))) == nil)
	if vBool(name + "-used") {
		pk.ToCurve25519PK()
	}
	return pk
}

const vBase = "\x09\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"

func vHash(pk string) string { return vSha256(pk)[:PKHashLength] }

// invariant of a public key holding the bytes p
func vPubInv(pk *PublicKey, p string) {
	vAssert("public key object exists", pk != nil)
	vAssert("the public key is the one held", string(pk.Pk) == p)
	vAssert("the hash is the hash of the public key", string(pk.Hash()) == vHash(p))
	vAssert("the curve point is that of the public key", string(pk.ToCurve25519PK()) == vCurvePK(p))
}

// invariant of a private key holding the bytes s
func vPrivInv(sk *PrivateKey, s string) {
	vAssert("the private key is the one held", string(sk.Sk) == s)
	vAssert("64 bytes", len(s) == 64)
	seed := s[:32]
	vAssert("the private key ends with its public key", s[32:64] == vEdPub(seed))
	vPubInv(sk.PublicKey(), s[32:64])
	ck := string(sk.ToCurve25519SK())
	vAssert("the encryption secret is derived from the seed", ck == vClamp(vSha512(seed)[:32]))
	vAssert("secret and point are a pair", vX25519(ck, vBase) == string(sk.PublicKey().ToCurve25519PK()))
}

type vFail struct{ n int }

func vFailures() *vFail {
	f := &vFail{}
	vHook("file.fail", func(what string) { f.n = 1 })
	return f
}
