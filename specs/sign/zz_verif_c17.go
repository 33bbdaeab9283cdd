package sign

import "io"

// C17. requires: a writer that takes parts of what it is given. ensures: the whole output reaches it.
func vcC17_part() { vFormatM(false, []string{vStr("pt")}, false, vU64("blksize"), "liberal", io.EOF) }
func vcC17_part_auth() {
	vFormatM(true, []string{vStr("pt")}, false, vU64("blksize"), "liberal", io.EOF)
}
func vcC17_part_stream() {
	vFormatM(false, []string{vStr("pt")}, true, vU64("blksize"), "liberal", io.EOF)
}
func vcC17_part_stream_auth() {
	vFormatM(true, []string{vStr("pt")}, true, vU64("blksize"), "liberal", io.EOF)
}

// the contract of fullwrite that these use; any buffer, any writer
func vcC17_fullwrite() {
	w := vWriter("liberal")
	b := vStr("b")
	if fullwrite([]byte(b), w) == nil {
		vCover("ok")
		vAssert("all of the buffer is written", vOut(w) == b)
		return
	}
	vCover("failed")
	vAssert("an error only from the writer", vFailed(w))
}

// a writer that may fail at any call: success means that it never did and that it has everything
func vcC17_full() { vFormatM(true, []string{vStr("pt")}, false, vU64("blksize"), "fail", io.EOF) }

// C17. requires: any reader, any writer. ensures: a failure of either is reported.
func vIOErr(auth bool) {
	var snd *PrivateKey
	if auth {
		snd = vGenKey()
	}
	e, err := NewEncryptor(snd, vU64("blksize"))
	vAssume(err == nil)
	vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	end := vErr("end")
	vAssume(end != nil)
	w := vWriter("fail")
	rd := vReader(vStr("pt"), end)
	err = e.Encrypt(rd, w)
	if err != nil {
		vCover("failed")
		return
	}
	vCover("ok")
	vAssert("input ended", end == io.EOF || end == io.ErrClosedPipe)
	vAssert("input read to its end", vReaderPos(rd) == len(vStr("pt")))
	vAssert("no write failed", !vFailed(w))
	vAssert("output closed", vClosed(w) == 1)
}

func vcC17_enc()      { vIOErr(false) }
func vcC17_enc_auth() { vIOErr(true) }

// C17. requires: a good header, any body, any end of it, any writer.
func vDecErr(auth bool, mode string) {
	f := vHead(auth)
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(f.head+vStr("body"), end)
	d, err := NewDecryptor(rd)
	vAssume(err == nil)
	vAssume(d.SetPrivateKey(f.rx, f.spk) == nil)
	want := ""
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if ok {
			want += vOpen(key, nonce, ct, ad)
		}
	})
	w := vWriter(mode)
	err = d.Decrypt(w)
	vUnhook("open")
	if err == nil {
		vCover("ok")
		vAssert("no write failed", !vFailed(w))
		vAssert("all of the plaintext reached the writer", vOut(w) == want)
		vAssert("the end is the end", d.Decrypt(w) == io.EOF && vOut(w) == want)
		_, err = d.NewStreamReader()
		vAssert("nothing left to read", err == io.EOF)
		return
	}
	vCover("failed")
	w2 := vWriter("ok")
	vAssert("a failed decryption stays failed", d.Decrypt(w2) != nil)
	_, err = d.NewStreamReader()
	vAssert("and cannot be resumed", err != nil)
	vAssert("nothing more comes out", vOut(w2) == "")
}

func vcC17_dec_fail()      { vDecErr(false, "fail") }
func vcC17_dec_fail_auth() { vDecErr(true, "fail") }
func vcC17_dec_part()      { vDecErr(false, "liberal") }

// the header of a stream
func vcC17_start() {
	e, err := NewEncryptor(nil, vU64("blksize"))
	vAssume(err == nil)
	vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	w := vWriter("fail")
	s, err := e.NewStreamWriter(w)
	if err != nil {
		vCover("failed")
		vAssert("no writer with an error", s == nil)
		return
	}
	vCover("ok")
	vAssert("header written", !vFailed(w) && len(vOut(w)) > 44)
}
