package sign

import "io"

// C19. Every draw from the system's random source is a new symbol; "rand" sees each.

type vDraws struct{ d []string }

func vWatch() *vDraws {
	v := &vDraws{}
	vHook("rand", func(b string) { v.d = append(v.d, b) })
	return v
}

// the draw whose clamped form is the secret s
func (v *vDraws) clamped(s string) string {
	for i := 0; i < len(v.d); i++ {
		if len(v.d[i]) == 32 && vClamp(v.d[i]) == s {
			return v.d[i]
		}
	}
	return ""
}

// is b one of the draws made while watching
func (v *vDraws) has(b string) bool {
	for i := 0; i < len(v.d); i++ {
		if !vDistinctRand(v.d[i], b) {
			return true
		}
	}
	return false
}

// the fresh quantities of an encryptor made now
func vFresh3(snd *PrivateKey) (e *Encryptor, key, salt, esk string) {
	v := vWatch()
	e, err := NewEncryptor(snd, vU64("blksize"))
	vUnhook("rand")
	vAssume(err == nil)
	key, salt = string(e.key), string(e.Salt)
	esk = v.clamped(string(e.encSK))
	vAssert("root key is 32 bytes drawn now", vIsRand(key, 32) && v.has(key))
	vAssert("salt is 32 bytes drawn now", vIsRand(salt, 32) && v.has(salt))
	vAssert("ephemeral secret is 32 bytes drawn now, clamped", vIsRand(esk, 32))
	vAssert("ephemeral public key belongs to it", string(e.Pk) == vX25519(vClamp(esk), "\x09"+vRep(0, 31)))
	vAssert("root key and salt are different draws", vDistinctRand(key, salt))
	vAssert("root key and ephemeral secret are different draws", vDistinctRand(key, esk))
	vAssert("salt and ephemeral secret are different draws", vDistinctRand(salt, esk))
	return
}

// two encryptors of the same sender
func vTwoEnc(auth bool) {
	var snd *PrivateKey
	if auth {
		snd = vGenKey()
	}
	e1, k1, s1, x1 := vFresh3(snd)
	rx := vGenKey()
	vAssume(e1.AddRecipient(rx.PublicKey()) == nil)
	_, k2, s2, x2 := vFresh3(snd)
	vAssert("root keys are different draws", vDistinctRand(k1, k2))
	vAssert("salts are different draws", vDistinctRand(s1, s2))
	vAssert("ephemeral secrets are different draws", vDistinctRand(x1, x2))
	vAssert("nothing of one serves another purpose in the other",
		vDistinctRand(k1, s2) && vDistinctRand(k1, x2) && vDistinctRand(s1, k2) && vDistinctRand(s1, x2) &&
			vDistinctRand(x1, k2) && vDistinctRand(x1, s2))
	vCover("end")
}

func vcC19_two()      { vTwoEnc(false) }
func vcC19_two_auth() { vTwoEnc(true) }

// two wraps, for any two recipients or twice the same
func vcC19_wraps() {
	var snd *PrivateKey
	if vBool("auth") {
		snd = vGenKey()
	}
	e, key, salt, esk := vFresh3(snd)
	rx := vGenKey().PublicKey()
	rx2 := rx
	if vBool("other") {
		rx2 = vGenKey().PublicKey()
	}
	d1 := vWatch()
	vAssume(e.AddRecipient(rx) == nil)
	vUnhook("rand")
	n1 := string(e.Keys[0].Nonce)
	d2 := vWatch()
	vAssume(e.AddRecipient(rx2) == nil)
	vUnhook("rand")
	vAssert("both listed", len(e.Keys) == 2)
	n2 := string(e.Keys[1].Nonce)
	vAssert("first wrap unchanged", string(e.Keys[0].Nonce) == n1)
	vAssert("nonce is 12 bytes drawn now", vIsRand(n1, 12) && d1.has(n1))
	vAssert("second nonce is 12 bytes drawn now", vIsRand(n2, 12) && d2.has(n2))
	vAssert("wraps have different draws", vDistinctRand(n1, n2))
	vAssert("wrap nonces are draws of their own", vDistinctRand(n1, key) && vDistinctRand(n1, salt) && vDistinctRand(n1, esk) &&
		vDistinctRand(n2, key) && vDistinctRand(n2, salt) && vDistinctRand(n2, esk))
	vAssert("the encryptor's own are unchanged", string(e.key) == key && string(e.Salt) == salt && string(e.encSK) == vClamp(esk))
	vCover("end")
}

// trailers of anonymous files
func vTrailers(stream bool) {
	e, key, salt, esk := vFresh3(nil)
	vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	rn := string(e.Keys[0].Nonce)
	w := vWriter("ok")
	v := vWatch()
	if stream {
		s, err := e.NewStreamWriter(w)
		vAssume(err == nil)
		_, err = s.Write([]byte(vStr("pt")))
		vAssume(err == nil)
		vAssume(s.Close() == nil)
	} else {
		vAssume(e.Encrypt(vReader(vStr("pt"), io.EOF), w) == nil)
	}
	vUnhook("rand")
	out := vOut(w)
	t := out[len(out)-64:]
	vAssert("trailer is 64 bytes drawn now", vIsRand(t, 64) && v.has(t))
	vAssert("trailer is a draw of its own", vDistinctRand(t, key) && vDistinctRand(t, salt) && vDistinctRand(t, esk) && vDistinctRand(t, rn))
	vCover("end")
}

func vcC19_trailer()        { vTrailers(false) }
func vcC19_trailer_stream() { vTrailers(true) }

// generated keys
func vcC19_keys() {
	d1 := vWatch()
	a, err := NewPrivateKey()
	vUnhook("rand")
	vAssume(err == nil)
	d2 := vWatch()
	b, err := NewPrivateKey()
	vUnhook("rand")
	vAssume(err == nil)
	sa, sb := string(a.Sk)[0:32], string(b.Sk)[0:32]
	vAssert("seed is 32 bytes drawn now", vIsRand(sa, 32) && d1.has(sa))
	vAssert("second seed is 32 bytes drawn now", vIsRand(sb, 32) && d2.has(sb))
	vAssert("different keys have different draws", vDistinctRand(sa, sb))
	vAssert("public key belongs to the seed", string(a.Sk)[32:64] == vEdPub(sa) && string(a.PublicKey().Pk) == vEdPub(sa))
	vCover("end")
}

// serialized private keys
func vcC19_serialized() {
	a := vGenKey()
	seed := string(a.Sk)[0:32]
	var salts, keys, nonces []string
	for i := 0; i < 2; i++ {
		d := vWatch()
		key, nonce := "", ""
		vHook("seal", func(k, n, pt, ad string) { key, nonce = k, n })
		b, err := a.MarshalBinary(vStr("comment"), []byte(vStr("pw")))
		vUnhook("seal")
		vUnhook("rand")
		vAssume(err == nil)
		vAssert("one draw", len(d.d) == 1)
		s := d.d[0]
		vAssert("salt is 32 bytes drawn now", vIsRand(s, 32))
		vAssert("the salt is stored", vMentions(string(b), s))
		vAssert("the key is derived with the whole salt", key == vScrypt(vSha512(vStr("pw")), s, 1<<19, 8, 1, 32))
		vAssert("the nonce is drawn now", nonce == s[:12])
		salts, keys, nonces = append(salts, s), append(keys, key), append(nonces, nonce)
	}
	vAssert("each serialization has its own salt", vDistinctRand(salts[0], salts[1]))
	vAssert("salt and seed are different draws", vDistinctRand(salts[0], seed) && vDistinctRand(salts[1], seed))
	vCover("end")
}
