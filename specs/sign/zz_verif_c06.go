package sign

import "io"

// C06. requires: a fresh encryptor, any input with any end, a writer that may fail at any point.
// ensures: all chunks over the encryptor's life are sealed with one key and distinct nonces.
func vOnce(auth bool, mode, first string) {
	var snd *PrivateKey
	if auth {
		snd = vGenKey()
	}
	e, err := NewEncryptor(snd, vU64("blksize"))
	vAssume(err == nil)
	rx := vGenKey()
	vAssume(e.AddRecipient(rx.PublicKey()) == nil)
	keys := len(e.Keys)

	cnt := 0 // chunks sealed so far
	dkey, base := "", ""
	vHook("seal", func(key, nonce, pt, ad string) {
		vAssert("the counter does not wrap", cnt < 1<<32)
		if cnt == 0 {
			dkey, base = key, nonce[4:]
		}
		vAssert("one data key", key == dkey)
		vAssert("nonces are numbered", nonce == vBe32(uint32(cnt))+base)
		cnt++
	})
	w := vWriter(mode)
	end := vErr("end")
	vAssume(end != nil)
	if first == "batch" {
		err = e.Encrypt(vReader(vStr("pt"), end), w)
	} else {
		_, err = e.NewStreamWriter(w)
	}
	vUnhook("seal")
	out := vOut(w)
	if err == nil {
		vCover("first")
	} else {
		vCover("failed")
	}
	// anything afterwards
	was := cnt
	again := 0
	vHook("seal", func(key, nonce, pt, ad string) { again++ })
	w2 := vWriter("ok")
	var err2 error
	switch vInt("second") {
	case 0:
		err2 = e.Encrypt(vReader(vStr("pt2"), io.EOF), w2)
	case 1:
		_, err2 = e.NewStreamWriter(w2)
	default:
		err2 = e.AddRecipient(vGenKey().PublicKey())
		if err == nil || was > 0 {
			vAssert("no recipient is added to a message", err2 != nil && len(e.Keys) == keys)
		}
	}
	vUnhook("seal")
	if err == nil || was > 0 {
		vCover("second")
		vAssert("an encryptor is good for one message", err2 != nil)
		vAssert("nothing more is sealed", again == 0)
		vAssert("nothing more is written", vOut(w2) == "" && vOut(w) == out)
	}
}

func vcC06_batch()       { vOnce(false, "ok", "batch") }
func vcC06_batch_auth()  { vOnce(true, "ok", "batch") }
func vcC06_batch_fail()  { vOnce(true, "fail", "batch") }
func vcC06_stream()      { vOnce(false, "ok", "stream") }
func vcC06_stream_fail() { vOnce(true, "fail", "stream") }

// a stream whose output fails at any point: chunks are numbered on, then nothing more is sealed
func vStreamFail(auth bool, how string) {
	v := vWriterState(auth, "fail")
	cnt := 0
	vHook("seal", func(key, nonce, pt, ad string) {
		vAssert("chunk sealed under the data key", key == v.k.dkey)
		vAssert("the counter does not wrap", int(v.blk)+cnt < 1<<32)
		vAssert("nonce is that of the chunk's position", nonce == vBe32(v.blk+uint32(cnt))+v.k.nonce[4:12])
		cnt++
	})
	var err error
	b := vStr("b")
	if how == "write" {
		var n int
		n, err = v.s.Write([]byte(b))
		vAssert("a failed Write takes nothing", err == nil || n == 0)
		vAssert("a Write that succeeds reached the writer", err != nil || !vFailed(v.w))
	} else {
		err = v.s.Close()
		vAssert("a Close that succeeds reached the writer", err != nil || !vFailed(v.w))
	}
	vUnhook("seal")
	if err == nil {
		vCover("written")
		if how == "write" {
			vAssert("state: next number", int(v.x.blk) == int(v.blk)+cnt)
			return
		}
	} else {
		vCover("failed")
	}
	out := vOut(v.w)
	again := 0
	vHook("seal", func(key, nonce, pt, ad string) { again++ })
	more := vStr("more")
	n, err2 := v.s.Write([]byte(more))
	vAssert("a failed stream stays failed", n == 0 && err2 != nil)
	vAssert("a failed stream cannot be completed", v.s.Close() != nil)
	n, err2 = v.s.Write([]byte(more))
	vAssert("a failed stream still fails", n == 0 && err2 != nil)
	vUnhook("seal")
	vAssert("nothing is sealed after a failure", again == 0)
	vAssert("nothing is written after a failure", vOut(v.w) == out)
	vCover("end")
}

func vcC06_write_fail()      { vStreamFail(false, "write") }
func vcC06_write_fail_auth() { vStreamFail(true, "write") }
func vcC06_close_fail()      { vStreamFail(false, "close") }
func vcC06_close_fail_auth() { vStreamFail(true, "close") }

// the other keys: each wrap has its own random nonce, the sender field is sealed once
func vcC06_wraps() {
	rxn := ""
	cnt := 0
	vHook("seal", func(key, nonce, pt, ad string) {
		cnt++
		vAssert("one seal for the sender field", cnt == 1 && ad == "")
	})
	e, err := NewEncryptor(vGenKey(), 0)
	vUnhook("seal")
	vAssume(err == nil)
	n := vInt("n")
	for i := 0; i < n; i++ {
		vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	}
	rx := vGenKey()
	k, nc, c2 := "", "", 0
	vHook("seal", func(key, nonce, pt, ad string) {
		k, nc = key, nonce
		c2++
	})
	vAssume(e.AddRecipient(rx.PublicKey()) == nil)
	vUnhook("seal")
	vAssert("one seal for each wrap", c2 == 1)
	m := len(e.Keys) - 1
	vAssert("appended", m == n)
	rxn = string(e.Keys[m].Nonce)
	vAssert("fresh nonce", vIsRand(rxn, 12))
	b := sRxKey(vX25519(sCurveSK(string(rx.Sk)[0:32]), string(e.Pk)), string(e.Salt), rxn)
	vAssert("key and nonce depend on it", k == b[:32] && nc == b[32:44])
	vCover("end")
}
