package sign

import "io"

// the encoding of an encryptor's header values as they are now
func vEncode(e *Encryptor) string {
	vAssume(e.Size() < 1<<40)
	b := make([]byte, e.Size())
	n, err := e.MarshalTo(b)
	vAssume(err == nil && n == len(b))
	return string(b)
}

// C18. requires: recipients added before the start, in any number.
// ensures: each call appends one entry and changes no other; the header written is what they made.
func vcC18_listed() {
	e, err := NewEncryptor(nil, vU64("blksize"))
	vAssume(err == nil)
	n := vInt("n")
	for i := 0; i < n; i++ {
		vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	}
	vAssert("one entry each", len(e.Keys) == n || n < 0)
	was := vEncode(e)
	rx := vGenKey()
	vAssume(e.AddRecipient(rx.PublicKey()) == nil)
	m := len(e.Keys) - 1
	vAssert("one more entry", m == n || n < 0)
	k := e.Keys
	e.Keys = k[:m]
	now := vEncode(e)
	vAssert("the others and the rest of the header are unchanged", now == was)
	e.Keys = k
	root := sUnwrap(rx, string(e.Pk), string(e.Salt), string(k[m].DKey), string(k[m].Nonce))
	vAssert("the new entry is for the recipient added", root == string(e.key))
	all := vEncode(e)
	w := vWriter("ok")
	var s io.WriteCloser
	if vBool("stream") {
		s, err = e.NewStreamWriter(w)
	} else {
		err = e.Encrypt(vReader("", io.EOF), w)
	}
	if err != nil {
		vCover("toobig")
		vAssert("refused only as too big, before anything is written", err == ErrHeaderTooBig && vOut(w) == "" && s == nil)
		return
	}
	out := vOut(w)
	vAssert("the header lists exactly the recipients added", out[12:12+len(all)] == all)
	vAssert("entries kept", len(e.Keys) == m+1)
	vCover("end")
}

// every call that an encryptor must refuse once it has started
func vRefuse(e *Encryptor, stream bool) {
	keys := len(e.Keys)
	h := vEncode(e)
	var err error
	key, esk, nonce := string(e.key), string(e.encSK), string(e.nonce)
	mac := string(e.hmac.Sum(nil))
	w2 := vWriter("ok")
	rd := vReader(vStr("pt2"), io.EOF)
	seals := 0
	vHook("seal", func(key, nonce, pt, ad string) { seals++ })
	switch vInt("call") {
	case 0:
		err = e.Encrypt(rd, w2)
		if stream {
			vAssert("batch use of a stream is refused", err == ErrEncIsStream)
		} else {
			vAssert("a second batch is refused", err == ErrEncStarted)
		}
	case 1:
		s, err := e.NewStreamWriter(w2)
		vAssert("another stream is refused", s == nil && err == ErrEncStarted)
	default:
		vAssert("no recipient after the start", e.AddRecipient(vGenKey().PublicKey()) == ErrEncStarted)
	}
	vUnhook("seal")
	h2 := vEncode(e)
	vAssert("nothing sealed", seals == 0)
	vAssert("nothing written or closed", vOut(w2) == "" && vClosed(w2) == 0)
	vAssert("nothing read", vReaderPos(rd) == 0)
	vAssert("header values unchanged", len(e.Keys) == keys && h2 == h)
	vAssert("keys unchanged", string(e.key) == key && string(e.encSK) == esk && string(e.nonce) == nonce)
	vAssert("chunk HMAC unchanged", string(e.hmac.Sum(nil)) == mac)
	vAssert("still started", e.started && e.stream == stream)
}

// after a batch, complete or failed on the way
func vAfterBatch(auth bool) {
	var snd *PrivateKey
	if auth {
		snd = vGenKey()
	}
	e, err := NewEncryptor(snd, vU64("blksize"))
	vAssume(err == nil)
	vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	w := vWriter("fail")
	end := vErr("end")
	vAssume(end != nil)
	err = e.Encrypt(vReader(vStr("pt"), end), w)
	out := vOut(w)
	if err != nil && out == "" {
		vCover("nothing")
		return
	}
	if err == nil {
		vCover("done")
	} else {
		vCover("failed")
		if !e.started {
			return // part of the header got out; no chunk and no key use followed
		}
	}
	c := vClosed(w)
	vRefuse(e, false)
	vAssert("the first output is unchanged", vOut(w) == out && vClosed(w) == c)
	vCover("end")
}

func vcC18_batch()      { vAfterBatch(false) }
func vcC18_batch_auth() { vAfterBatch(true) }

// beside a stream in any state between two calls, and after its end
func vBesideStream(auth, closed bool) {
	v := vWriterState(auth, "ok")
	x := v.x
	if closed {
		vAssume(v.s.Close() == nil)
	}
	out, c := vOut(v.w), vClosed(v.w)
	n, blk, e := x.n, x.blk, x.err
	buf := string(x.buf)
	vRefuse(v.e, true)
	vAssert("the stream's output is unchanged", vOut(v.w) == out && vClosed(v.w) == c)
	vAssert("the stream's state is unchanged", x.n == n && x.blk == blk && x.err == e && string(x.buf) == buf && x.e == v.e)
	vCover("end")
}

func vcC18_stream()      { vBesideStream(false, false) }
func vcC18_stream_auth() { vBesideStream(true, false) }
func vcC18_closed()      { vBesideStream(false, true) }
func vcC18_closed_auth() { vBesideStream(true, true) }

// a decryptor that has no key: every call is refused and takes nothing, and it can still be set up
func vcC18_nokey() {
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(vStr("in"), end)
	d, err := NewDecryptor(rd)
	vAssume(err == nil)
	pos := vReaderPos(rd)
	w := vWriter("ok")
	switch vInt("how") {
	case 0:
	default:
		// a key refused
		var p *PublicKey
		if vBool("sender") {
			p = vGenKey().PublicKey()
		}
		if d.SetPrivateKey(vGenKey(), p) == nil {
			vCover("set")
			return
		}
		vCover("refused")
	}
	vAssert("batch refused", d.Decrypt(w) == ErrNoKey)
	r, err := d.NewStreamReader()
	vAssert("stream refused", r == nil && err == ErrNoKey)
	vAssert("batch refused again", d.Decrypt(w) == ErrNoKey)
	vAssert("nothing written", vOut(w) == "")
	vAssert("nothing read", vReaderPos(rd) == pos)
	vAssert("state unchanged", !d.stream && !d.eof && d.err == nil && d.key == nil)
	vCover("end")
}

// after a batch: end of file or the error it failed with
func vDecAfter(auth bool) {
	f := vHead(auth)
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(f.head+vStr("body"), end)
	d, err := NewDecryptor(rd)
	vAssume(err == nil)
	vAssume(d.SetPrivateKey(f.rx, f.spk) == nil)
	w := vWriter("fail")
	err = d.Decrypt(w)
	pos, out := vReaderPos(rd), vOut(w)
	if err == nil {
		vCover("done")
		err = io.EOF
	} else {
		vCover("failed")
	}
	w2 := vWriter("ok")
	opens := 0
	vHook("open", func(key, nonce, ct, ad string, ok bool) { opens++ })
	vAssert("a second batch gives the same end", d.Decrypt(w2) == err)
	r, err2 := d.NewStreamReader()
	vAssert("a stream after it too", r == nil && err2 == err)
	vAssert("and still", d.Decrypt(w2) == err)
	vUnhook("open")
	vAssert("nothing opened", opens == 0)
	vAssert("nothing written", vOut(w2) == "" && vOut(w) == out)
	vAssert("nothing read", vReaderPos(rd) == pos)
	vCover("end")
}

func vcC18_dec()      { vDecAfter(false) }
func vcC18_dec_auth() { vDecAfter(true) }

// beside a reader in any state between two calls
func vBesideReader(auth bool) {
	f := vHead(auth)
	body := vStr("body")
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(f.head+body, end)
	d, err := NewDecryptor(rd)
	vAssume(err == nil)
	vAssume(d.SetPrivateKey(f.rx, f.spk) == nil)
	rr, err := d.NewStreamReader()
	vAssume(err == nil)
	r := rr.(*encReader)
	copy(r.buf, vStrN("junk", len(r.buf)))
	copy(d.buf, vStrN("junk2", len(d.buf)))
	vHavocRest(r, "buf,unread,d,blk,err")
	vHavocRest(d, sDecryptorFields)
	un := vStr("unread")
	vAssume(len(un) <= int(f.bs))
	r.unread = []byte(un)
	r.blk = vU32("blk")
	blk := r.blk
	d.eof = vBool("eof")
	eof := d.eof
	d.hmac.Write([]byte(vStr("mac")))
	mac := string(d.hmac.Sum(nil))
	buf := string(d.buf)
	pos := vReaderPos(rd)
	key := string(d.key)
	opens := 0
	vHook("open", func(key, nonce, ct, ad string, ok bool) { opens++ })
	w := vWriter("ok")
	if vBool("batch") {
		vAssert("no batch beside a stream", d.Decrypt(w) == ErrDecStarted)
	} else {
		r2, err := d.NewStreamReader()
		vAssert("no second reader", r2 == nil)
		if eof {
			vAssert("end of file after the end", err == io.EOF)
		} else {
			vAssert("refused", err == ErrDecStarted)
		}
	}
	vUnhook("open")
	vAssert("nothing opened", opens == 0)
	vAssert("nothing written", vOut(w) == "")
	vAssert("nothing read", vReaderPos(rd) == pos)
	vAssert("the reader's state is unchanged", string(r.unread) == un && r.blk == blk && r.err == nil && r.d == d)
	vAssert("the decryptor's state is unchanged", d.eof == eof && d.stream && d.err == nil && string(d.key) == key &&
		string(d.buf) == buf && string(d.hmac.Sum(nil)) == mac)
	vCover("end")
}

func vcC18_reader()      { vBesideReader(false) }
func vcC18_reader_auth() { vBesideReader(true) }
