package sign

import "io"

// C08. requires: any input, any end of it, any key, any sender key or none.
// ensures (verified with every possible panic as an obligation): calls return.

func vAnySender() *PublicKey {
	if vBool("sender") {
		return vGenKey().PublicKey()
	}
	return nil
}

func vHostile() *Decryptor {
	end := vErr("end")
	vAssume(end != nil)
	d, err := NewDecryptor(vReader(vStr("in"), end))
	vAssert("a decryptor or an error", (d == nil) == (err != nil))
	vAssume(err == nil)
	vCover("accepted")
	return d
}

// no key yet, a key refused, a key accepted
func vcC08_key() {
	d := vHostile()
	w := vWriter("fail")
	vAssert("no data without a key", d.Decrypt(w) != nil && vOut(w) == "")
	_, err := d.NewStreamReader()
	vAssert("no reader without a key", err != nil)
	d.AuthenticatedSender()
	err = d.SetPrivateKey(vGenKey(), vAnySender())
	if err == nil {
		vCover("set")
		return
	}
	vCover("refused")
	vAssert("no data with a refused key", d.Decrypt(w) != nil && vOut(w) == "")
	_, err = d.NewStreamReader()
	vAssert("no reader with a refused key", err != nil)
	d.AuthenticatedSender()
}

func vcC08_batch() {
	d := vHostile()
	vAssume(d.SetPrivateKey(vGenKey(), vAnySender()) == nil)
	vCover("set")
	w := vWriter("fail")
	if d.Decrypt(w) == nil {
		vCover("decrypted")
	} else {
		vCover("failed")
	}
	d.Decrypt(w)
	d.NewStreamReader()
}

// a reader in any state between two calls
func vcC08_read() {
	d := vHostile()
	vAssume(d.SetPrivateKey(vGenKey(), vAnySender()) == nil)
	rr, err := d.NewStreamReader()
	vAssume(err == nil)
	vCover("set")
	r := rr.(*encReader)
	copy(r.buf, vStrN("junk", len(r.buf)))
	copy(d.buf, vStrN("junk2", len(d.buf)))
	vHavocRest(r, "buf,unread,d,blk,err")
	vHavocRest(d, sDecryptorFields)
	un := vStr("unread")
	vAssume(len(un) <= int(d.ChunkSize))
	r.unread = []byte(un)
	r.blk = vU32("blk")
	d.eof = vBool("eof")
	d.hmac.Write([]byte(vStr("mac")))
	b := vBytes("b")
	n, err := r.Read(b)
	vAssert("within the buffer", n >= 0 && n <= len(b))
	if err == nil {
		vCover("read")
		return
	}
	vCover("failed")
	n, _ = r.Read(b)
	vAssert("nothing after a failure", n == 0)
	d.Decrypt(vWriter("fail"))
	d.NewStreamReader()
}

// a reader, after keys were set twice with any result of either
func vAgain(w1, w2 bool) {
	d := vHostile()
	var p1, p2 *PublicKey
	if w1 {
		p1 = vGenKey().PublicKey()
	}
	if w2 {
		p2 = vGenKey().PublicKey()
	}
	s := vSetKey(d, vGenKey(), p1)
	s2 := vSetKey(d, vGenKey(), p2)
	if s.err == nil && s2.err == nil {
		// one sealed sender field does not open to two given texts under different keys
		vAssume(s.root == s2.root)
	}
	rr, err := d.NewStreamReader()
	if err != nil {
		vCover("refused")
		vAssert("a key accepted is enough", s.err != nil && s2.err != nil)
		return
	}
	vCover("set")
	r := rr.(*encReader)
	r.blk = vU32("blk")
	d.hmac.Write([]byte(vStr("mac")))
	b := vBytes("b")
	n, err := r.Read(b)
	vAssert("within the buffer", n >= 0 && n <= len(b))
}

func vcC08_again_nn() { vAgain(false, false) }
func vcC08_again_ns() { vAgain(false, true) }
func vcC08_again_sn() { vAgain(true, false) }
func vcC08_again_ss() { vAgain(true, true) }

var _ = io.EOF
