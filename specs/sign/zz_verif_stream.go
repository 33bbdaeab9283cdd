package sign

import "io"

// Contracts of the methods of the two stream types, from an arbitrary state between two calls:
// any sequence of calls is covered by induction over these.

const (
	sEncryptorFields = "Header,key,nonce,buf,ae,hmac,encSK,sender,auth,started,stream"
	sDecryptorFields = "Header,ae,hmac,sender,rd,buf,nonce,key,hdrsum,auth,eof,stream,err"
)

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Read. state: un = plaintext of the current chunk not yet handed out, blk chunks opened.
func vRead(auth bool) {
	f := vHead(auth)
	body := vStr("body")
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(f.head+body, end)
	d, err := NewDecryptor(rd)
	vAssume(err == nil)
	vAssume(d.SetPrivateKey(f.rx, f.spk) == nil)
	rr, err := d.NewStreamReader()
	vAssert("stream reader made", err == nil)
	r := rr.(*encReader)
	// any state between calls
	copy(r.buf, vStrN("junk", len(r.buf)))
	copy(d.buf, vStrN("junk2", len(d.buf)))
	vHavocRest(r, "buf,unread,d,blk,err")
	vHavocRest(d, sDecryptorFields)
	un := vStr("unread")
	vAssume(len(un) <= int(f.bs))
	r.unread = []byte(un)
	blk := vU32("blk")
	r.blk = blk
	d.eof = vBool("eof")
	was := d.eof
	mac := vStr("mac")
	d.hmac.Write([]byte(mac))
	vCover("set")

	b := vBytes("b")
	opened := 0
	p := ""
	last := false
	pos := 0
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		vAssert("a chunk is opened only when the one before was handed out", un == "" && !was && opened == 0)
		vAssert("chunk opened under the file's data key", key == f.k.dkey)
		vAssert("nonce is that of the chunk's position", nonce == vBe32(blk)+f.k.nonce[4:12])
		vAssert("additional data is the length field at this place", ad == body[0:4])
		n := int(ad[0])<<24 | int(ad[1])<<16 | int(ad[2])<<8 | int(ad[3])
		last = n >= 1<<31
		n &= 1<<31 - 1
		vAssert("ciphertext is the input at this place, as long as authenticated", ct == body[4:4+n+16])
		if ok {
			opened++
			pos = 20 + n
			p = vOpen(key, nonce, ct, ad)
			mac += ad
			if n > 0 {
				mac += p
			}
		}
	})
	n, err := r.Read(b)
	vUnhook("open")
	h := len(f.head)
	if un != "" {
		vCover("rest")
		vAssert("the rest of the chunk is handed out", err == nil && n == vMin(len(b), len(un)))
		vAssert("its bytes in order", string(b[:n]) == un[:n])
		vAssert("what is left is kept", string(r.unread) == un[n:])
		vAssert("no input consumed", vReaderPos(rd) == h && r.blk == blk)
		return
	}
	if was {
		vCover("end")
		vAssert("end of file after the last chunk", n == 0 && err == io.EOF)
		vAssert("nothing read", vReaderPos(rd) == h)
		return
	}
	if err != nil && !(err == io.EOF && opened == 1 && last && p == "") {
		vCover("refused")
		vAssert("an error is not end of file", err != io.EOF)
		vAssert("no data with an error", n == 0)
		m, err2 := r.Read(b)
		vAssert("a failed stream stays failed", m == 0 && err2 == err)
		return
	}
	vCover("opened")
	vAssert("exactly one chunk opened", opened == 1)
	vAssert("as much of it as fits is handed out", n == vMin(len(b), len(p)))
	vAssert("the chunk's bytes", string(b[:n]) == p[:n])
	vAssert("state: the rest is kept", string(r.unread) == p[n:])
	vAssert("state: next chunk", r.blk == blk+1 || last)
	vAssert("state: last chunk", d.eof == last)
	vAssert("the counter does not wrap", r.blk != 0 || last)
	if last {
		vCover("last")
		vAssert("trailer read", vReaderPos(rd) == h+pos+64)
		if auth {
			vAssert("trailer signs all chunks", vEdVerify(string(f.spk.Pk), vSha512("sigtool signed message"+vHmac256(f.k.hkey, mac)), body[pos:pos+64]))
		}
	} else {
		vAssert("chunk read", vReaderPos(rd) == h+pos)
	}
}

func vcRead_plain() { vRead(false) }
func vcRead_auth()  { vRead(true) }

// a stream writer in an arbitrary state between two calls: blk chunks written, c buffered
type vStreamW struct {
	e    *Encryptor
	snd  *PrivateKey
	w    io.WriteCloser
	s    io.WriteCloser
	x    *encWriter
	k    sKeys
	z    int
	blk  uint32
	c    string
	mac  string // authenticated so far
	out0 string // written so far
}

func vWriterState(auth bool, mode string) *vStreamW {
	v := &vStreamW{}
	if auth {
		v.snd = vGenKey()
	}
	e, err := NewEncryptor(v.snd, vU64("blksize"))
	vAssume(err == nil)
	rx := vGenKey()
	vAssume(e.AddRecipient(rx.PublicKey()) == nil)
	root := sUnwrap(rx, string(e.Pk), string(e.Salt), string(e.Keys[0].DKey), string(e.Keys[0].Nonce))
	v.e = e
	v.w = vWriter(mode)
	v.s, err = e.NewStreamWriter(v.w)
	vAssume(err == nil)
	v.out0 = vOut(v.w)
	v.k = sDataKeys(root, v.out0[len(v.out0)-32:])
	v.x = v.s.(*encWriter)
	vHavocRest(v.x, "buf,n,wr,e,blk,err")
	vHavocRest(e, sEncryptorFields)
	v.z = int(e.ChunkSize)
	v.c = vStr("c")
	vAssume(len(v.c) <= v.z)
	copy(v.x.buf, vStrN("junk", len(v.x.buf)))
	copy(e.buf, vStrN("junk2", len(e.buf)))
	copy(v.x.buf, v.c)
	v.x.n = len(v.c)
	v.blk = vU32("blk")
	v.x.blk = v.blk
	v.mac = vStr("mac")
	e.hmac.Write([]byte(v.mac))
	vCover("set")
	return v
}

// Write. ensures: the full chunks of what was buffered and what is given are written, numbered
// from blk, the rest (never nothing, never more than a chunk) is buffered.
func vWrite(auth bool) {
	v := vWriterState(auth, "ok")
	b := vStr("b")
	all := v.c + b
	cnt, pos := 0, 0
	want, mac := v.out0, v.mac
	vHook("seal", func(key, nonce, pt, ad string) {
		vAssert("chunk sealed under the data key", key == v.k.dkey)
		vAssert("the counter does not wrap", int(v.blk)+cnt < 1<<32)
		vAssert("nonce is that of the chunk's position", nonce == vBe32(v.blk+uint32(cnt))+v.k.nonce[4:12])
		vAssert("one full chunk of the data, in order", pt == all[pos:pos+v.z])
		vAssert("additional data is its length", ad == sLen(pt, false))
		want += ad + vSeal(key, nonce, pt, ad)
		mac += ad + pt
		cnt++
		pos += v.z
	})
	n, err := v.s.Write([]byte(b))
	vUnhook("seal")
	vAssert("output is exactly the chunks", vOut(v.w) == want)
	if err != nil {
		vCover("refused")
		vAssert("refused only when the counter is used up", err == ErrTooManyBlocks && int(v.blk)+cnt == 1<<32)
		vAssert("nothing reported written", n == 0)
		return
	}
	vCover("written")
	vAssert("everything taken", n == len(b))
	vAssert("state: chunk counter", int(v.x.blk) == int(v.blk)+cnt)
	vAssert("state: buffered length", v.x.n == len(all)-pos && v.x.n <= v.z)
	vAssert("state: something is left for the last chunk", v.x.n > 0 || len(all) == 0)
	vAssert("state: buffered data", string(v.x.buf[:v.x.n]) == all[pos:])
	vAssert("state: chunk HMAC", string(v.e.hmac.Sum(nil)) == vHmac256(v.k.hkey, mac))
}

// Close. ensures: what is buffered becomes the last chunk, followed by the trailer.
func vClose(auth bool) {
	v := vWriterState(auth, "ok")
	ad := sLen(v.c, true)
	seals := 0
	vHook("seal", func(key, nonce, pt, ad string) {
		seals++
		vAssert("chunk sealed under the data key", key == v.k.dkey)
		vAssert("nonce is that of the chunk's position", nonce == vBe32(v.blk)+v.k.nonce[4:12])
	})
	err := v.s.Close()
	vAssert("Close succeeds", err == nil)
	out := vOut(v.w)
	h := len(v.out0)
	vAssert("one chunk", seals == 1)
	body := ad + vSeal(v.k.dkey, vBe32(v.blk)+v.k.nonce[4:12], v.c, ad)
	vAssert("header and earlier chunks unchanged", out[:h] == v.out0)
	vAssert("last chunk", out[h:h+len(body)] == body)
	tr := out[h+len(body):]
	vAssert("trailer is 64 bytes", len(tr) == 64)
	if auth {
		vAssert("trailer signs the HMAC of all chunks", tr == sSig(v.snd, vHmac256(v.k.hkey, v.mac+ad+v.c)))
	} else {
		vAssert("anonymous trailer is random", vIsRand(tr, 64))
	}
	vAssert("output closed", vClosed(v.w) == 1)
	// afterwards nothing works
	n, err := v.s.Write([]byte(vStr("more")))
	vAssert("no write after close", err != nil && n == 0)
	vAssert("no second close", v.s.Close() != nil)
	vAssert("nothing more written", vOut(v.w) == out && seals == 1 && vClosed(v.w) == 1)
	vUnhook("seal")
	vCover("end")
}

// the state a new stream starts from
func vcStart() {
	e, err := NewEncryptor(nil, vU64("blksize"))
	vAssume(err == nil)
	vAssume(e.AddRecipient(vGenKey().PublicKey()) == nil)
	s, err := e.NewStreamWriter(vWriter("ok"))
	vAssume(err == nil)
	x := s.(*encWriter)
	vAssert("empty buffer of one chunk, counter 0", x.n == 0 && x.blk == 0 && len(x.buf) == int(e.ChunkSize))
	vCover("end")
}

func vcWrite_plain() { vWrite(false) }
func vcWrite_auth()  { vWrite(true) }
func vcClose_plain() { vClose(false) }
func vcClose_auth()  { vClose(true) }
