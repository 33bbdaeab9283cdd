package sign

import "io"

// what one SetPrivateKey call opened
type vSetup struct {
	err  error
	root string // the wrapped key that opened
	got  bool
	sig  string // what the sender field opened to
	ok   bool
	key  string
	nc   string
}

func vSetKey(d *Decryptor, rx *PrivateKey, spk *PublicKey) *vSetup {
	s := &vSetup{}
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if ok {
			if ad != "" {
				s.root, s.got = vOpen(key, nonce, ct, ad), true
			} else {
				s.sig, s.ok = vOpen(key, nonce, ct, ad), true
				s.key, s.nc = key, nonce
			}
		}
	})
	s.err = d.SetPrivateKey(rx, spk)
	vUnhook("open")
	return s
}

// an accepted setup: the sender's part holds
func vAccepted(d *Decryptor, s *vSetup, spk *PublicKey) {
	vAssert("a wrapped key was opened", s.got && len(s.root) == 32)
	vAssert("the sender field was opened", s.ok && len(s.sig) == 64)
	k := vHkdf512(s.root, string(d.Salt), "Sender Sig", 44)
	vAssert("with keys made from root key and salt", s.key == k[:32] && s.nc == k[32:44])
	if spk != nil {
		vAssert("reported as authenticated", d.AuthenticatedSender())
		vAssert("the given key signed this file's root key, ephemeral key and salt",
			vEdVerify(string(spk.Pk), vSha512("sigtool signed message"+sSenderMsg(string(d.Pk), string(d.Salt), s.root)), s.sig))
		vAssert("the trailer will be checked with the given key", string(d.sender.Pk) == string(spk.Pk))
		vAssert("an anonymous file is not authenticated", s.sig != vRep(0, 64))
	} else {
		vAssert("accepted without a sender key only if anonymous", s.sig == vRep(0, 64))
		vAssert("not reported as authenticated", !d.AuthenticatedSender())
	}
}

func vRefused(d *Decryptor, in string) {
	vAssert("not reported as authenticated after a refusal", !d.AuthenticatedSender())
	w := vWriter("ok")
	vAssert("no decryption after a refusal", d.Decrypt(w) == ErrNoKey)
	vAssert("no plaintext after a refusal", vOut(w) == "")
	r, err := d.NewStreamReader()
	vAssert("no reader after a refusal", r == nil && err == ErrNoKey)
}

// C05. requires: any bytes that open as a header, any key, any sender key or none.
func vSender(with bool) {
	d, err := NewDecryptor(vReader(vStr("in"), io.EOF))
	vAssume(err == nil)
	var spk *PublicKey
	if with {
		spk = vGenKey().PublicKey()
	}
	rx := vGenKey()
	s := vSetKey(d, rx, spk)
	if s.err != nil {
		vCover("refused")
		vRefused(d, vStr("in"))
		return
	}
	vCover("accepted")
	vAccepted(d, s, spk)
}

func vcC05_anon()   { vSender(false) }
func vcC05_sender() { vSender(true) }

// C05. a refused setup followed by another with the same or other keys
func vSenderTwice(w1, w2 bool) {
	d, err := NewDecryptor(vReader(vStr("in"), io.EOF))
	vAssume(err == nil)
	var p1, p2 *PublicKey
	if w1 {
		p1 = vGenKey().PublicKey()
	}
	if w2 {
		p2 = vGenKey().PublicKey()
	}
	rx, rx2 := vGenKey(), vGenKey()
	if vBool("samekey") {
		rx2 = rx
	}
	if vBool("samesender") && w1 && w2 {
		p2 = p1
	}
	s := vSetKey(d, rx, p1)
	s2 := vSetKey(d, rx2, p2)
	if s.err == nil && s2.err == nil {
		// one sealed sender field does not open to two given texts under different keys
		vAssume(s.root == s2.root)
	}
	if s2.err == nil {
		vCover("accepted")
		vAccepted(d, s2, p2)
		return
	}
	if s.err == nil {
		vCover("kept")
		// the earlier setup stays as it was
		vAccepted(d, s, p1)
		return
	}
	vCover("refused")
	vRefused(d, vStr("in"))
}

func vcC05_twice_an() { vSenderTwice(false, true) }
func vcC05_twice_na() { vSenderTwice(true, false) }
func vcC05_twice_aa() { vSenderTwice(true, true) }
func vcC05_twice_nn() { vSenderTwice(false, false) }
