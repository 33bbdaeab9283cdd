package sign

import "io"

// C07. requires: a fresh encryptor with any number of recipients before and after.
// ensures: one wrap for each, in order, of one fresh root key, bound to the recipient's key.
func vWraps(auth bool) {
	var snd *PrivateKey
	if auth {
		snd = vGenKey()
	}
	e, err := NewEncryptor(snd, vU64("blksize"))
	vAssume(err == nil)
	first := vGenKey()
	vAssume(e.AddRecipient(first.PublicKey()) == nil)
	n := vInt("n")
	for i := 0; i < n; i++ {
		vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	}
	rx := vGenKey()
	var k, nc, pt, ad string
	c := 0
	esk := ""
	vHook("seal", func(key, nonce, p, a string) {
		k, nc, pt, ad = key, nonce, p, a
		c++
	})
	err = e.AddRecipient(rx.PublicKey())
	vUnhook("seal")
	vAssert("AddRecipient succeeds", err == nil)
	vAssert("one more key", len(e.Keys) == n+2)
	w := e.Keys[n+1]
	root := sUnwrap(first, string(e.Pk), string(e.Salt), string(e.Keys[0].DKey), string(e.Keys[0].Nonce))
	vAssert("one root key for all", pt == root)
	vAssert("the root key is random", vIsRand(root, 32))
	vAssert("bound to the recipient's public key", ad == string(rx.Sk)[32:64])
	vAssert("fresh randomness of its own", vIsRand(string(w.Nonce), 12) && vDistinctRand(string(w.Nonce), string(e.Keys[0].Nonce)))
	b := sRxKey(vX25519(sCurveSK(string(rx.Sk)[0:32]), string(e.Pk)), string(e.Salt), string(w.Nonce))
	vAssert("key from ephemeral secret, recipient, salt and nonce", k == b[:32] && nc == b[32:44])
	vAssert("one seal", c == 1 && string(w.DKey) == vSeal(k, nc, pt, ad))
	esk = string(e.encSK)
	vAssert("ephemeral key pair", string(e.Pk) == vX25519(esk, "\x09"+vRep(0, 31)))
	wr := vWriter("ok")
	err = e.Encrypt(vReader(vStr("pt"), io.EOF), wr)
	if err != nil {
		return
	}
	vCover("end")
	out := vOut(wr)
	vAssert("the root key is nowhere in the output but encrypted", !vLeaks(out, root))
	vAssert("the ephemeral secret is nowhere in the output", !vLeaks(out, esk))
	vAssert("the recipient's secret is nowhere in the output", !vLeaks(out, string(rx.Sk)[0:32]))
}

func vcC07_wraps()      { vWraps(false) }
func vcC07_wraps_auth() { vWraps(true) }

// C07. requires: a key that is none of the recipients'. ensures: the wrong key error, no access.
func vOther(many bool) {
	e, err := NewEncryptor(nil, vU64("blksize"))
	vAssume(err == nil)
	other := vGenKey()
	pk := string(other.PublicKey().Pk)
	n := 1
	if many {
		n = vInt("n")
		vAssume(n > 0)
	}
	for i := 0; i < n; i++ {
		k := vGenKey()
		vAssume(string(k.PublicKey().Pk) != pk)
		vAssume(e.AddRecipient(k.PublicKey()) == nil)
	}
	w := vWriter("ok")
	vAssume(e.Encrypt(vReader("", io.EOF), w) == nil)
	d, err := NewDecryptor(vReader(vOut(w), io.EOF))
	vAssume(err == nil)
	err = d.SetPrivateKey(other, nil)
	vCover("end")
	vAssert("wrong key error", err == ErrBadKey)
	w2 := vWriter("ok")
	vAssert("no decryption", d.Decrypt(w2) == ErrNoKey && vOut(w2) == "")
}

func vcC07_other()      { vOther(false) }
func vcC07_other_many() { vOther(true) }

// C07. requires: any header. ensures: the private key opens wraps only with the key made from its
// own secret, the ephemeral key, salt and the wrap's nonce, and only those bound to itself.
func vcC07_unwrap() {
	d, err := NewDecryptor(vReader(vStr("in"), io.EOF))
	vAssume(err == nil)
	rx := vGenKey()
	opened := 0
	tries := 0
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if ad == "" {
			return // sender field
		}
		vAssert("no attempt after a success", opened == 0)
		vAssert("bound to the own public key", ad == string(rx.Sk)[32:64])
		w := d.Keys[tries]
		vAssert("wraps are tried in order", ct == string(w.DKey))
		b := sRxKey(vX25519(sCurveSK(string(rx.Sk)[0:32]), string(d.Pk)), string(d.Salt), string(w.Nonce))
		vAssert("key from own secret, ephemeral key, salt and nonce", key == b[:32] && nonce == b[32:44])
		tries++
		if ok {
			opened++
		}
	})
	err = d.SetPrivateKey(rx, nil)
	vUnhook("open")
	if err == nil {
		vCover("opened")
		vAssert("accepted only if a wrap opened", opened == 1)
		return
	}
	vCover("refused")
	vAssert("wrong key only if no wrap opened", err != ErrBadKey || opened == 0 && tries == len(d.Keys))
}
