package sign

import (
	"github.com/opencoff/sigtool/internal/pb"
)

// a file header as the document has it, for one recipient
type vFile struct {
	rx   *PrivateKey
	snd  *PrivateKey
	spk  *PublicKey
	root string
	bs   uint32
	head string // header and checksum
	k    sKeys
}

func vHead(auth bool) vFile {
	var f vFile
	f.rx = vGenKey()
	root, salt, rn := vStrN("root", 32), vStrN("salt", 32), vStrN("rn", 12)
	f.root = root
	esk := vClamp(vStrN("esk", 32))
	epk := vX25519(esk, "\x09"+vRep(0, 31))
	sig := vRep(0, 64)
	if auth {
		f.snd = vGenKey()
		f.spk = f.snd.PublicKey()
		sig = sSig(f.snd, sSenderMsg(epk, salt, root))
	}
	f.bs = vU32("bs")
	vAssume(f.bs >= 1 && f.bs <= 1<<30)
	b := sRxKey(vX25519(esk, vCurvePK(string(f.rx.Sk)[32:64])), salt, rn)
	dk := vSeal(b[0:32], b[32:44], root, string(f.rx.Sk)[32:64])
	ph := pb.Header{ChunkSize: f.bs, Salt: []byte(salt), Pk: []byte(epk), Sender: []byte(sSenderField(root, salt, sig)),
		Keys: []*pb.WrappedKey{{DKey: []byte(dk), Nonce: []byte(rn)}}}
	vh, _ := ph.MarshalVT()
	vAssume(len(vh) <= 1<<20)
	hdr := "SigTool\x03" + vBe32(uint32(len(vh))) + string(vh)
	ck := vSha256(hdr)
	f.k = sDataKeys(root, ck)
	f.head = hdr + ck
	return f
}

// C03. requires: a good header, then any bytes whatsoever and any end of the input.
// ensures: every chunk handed out was opened under the file's key for exactly its position,
// length and end mark; success only after the one marked last and its trailer.
func vTamper(auth bool) {
	f := vHead(auth)
	body := vStr("body")
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(f.head+body, end)
	d, err := NewDecryptor(rd)
	vAssume(err == nil)
	vAssume(d.SetPrivateKey(f.rx, f.spk) == nil)
	vCover("set")
	w := vWriter("ok")

	cnt := 0   // chunks opened
	pos := 0   // input consumed by them
	want := "" // their plaintext
	mac := ""  // what the trailer has to sign
	last := false
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		vAssert("chunk opened under the file's data key", key == f.k.dkey)
		vAssert("chunk number fits the nonce", cnt < 1<<32)
		vAssert("nonce is that of the chunk's position", nonce == vBe32(uint32(cnt))+f.k.nonce[4:12])
		vAssert("no chunk after the last one", !last)
		vAssert("additional data is the length field at this place", ad == body[pos:pos+4])
		n := int(ad[0])<<24 | int(ad[1])<<16 | int(ad[2])<<8 | int(ad[3])
		eof := n >= 1<<31
		n &= 1<<31 - 1
		vAssert("ciphertext is the input at this place, as long as authenticated", ct == body[pos+4:pos+4+n+16])
		if ok {
			p := vOpen(key, nonce, ct, ad)
			cnt++
			pos += 4 + len(ct)
			want += p
			mac += ad
			if n > 0 {
				mac += p
			}
			last = eof
		}
	})
	err = d.Decrypt(w)
	vUnhook("open")
	out := vOut(w)
	vAssert("no more than the opened chunks is handed out", len(out) <= len(want))
	vAssert("only opened chunks are handed out, in order", out == want[:len(out)])
	if err != nil {
		vCover("refused")
		return
	}
	vCover("accepted")
	vAssert("ended by the chunk marked last", last)
	vAssert("trailer read", vReaderPos(rd) == len(f.head)+pos+64)
	if auth {
		vAssert("trailer signs all chunks", vEdVerify(string(f.spk.Pk), vSha512("sigtool signed message"+vHmac256(f.k.hkey, mac)), body[pos:pos+64]))
	}
}

func vcC03_plain() { vTamper(false) }
func vcC03_auth()  { vTamper(true) }

// C03. requires: a good header of an encryptor that sealed n full chunks and a last one, nothing
// else was ever sealed under its key (ideal AEAD). ensures: only the complete sequence passes.
func vSplice(auth bool) {
	f := vHead(auth)
	z := int(f.bs)
	n, m := vInt("n"), vInt("m")
	vAssume(n < 1<<32 && m <= z)
	vAssume(n*z < 1<<48)
	pt, last := vStrN("pt", n*z), vStrN("last", m)
	body := vStr("body")
	end := vErr("end")
	vAssume(end != nil)
	d, err := NewDecryptor(vReader(f.head+body, end))
	vAssume(err == nil)
	vAssume(d.SetPrivateKey(f.rx, f.spk) == nil)
	vCover("set")
	w := vWriter("ok")
	cnt := 0
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if ok {
			// what opens was sealed
			vAssume(cnt <= n)
			p := last
			if cnt < n {
				p = pt[cnt*z : (cnt+1)*z]
			}
			l := len(p)
			if cnt == n {
				l += 1 << 31
			}
			vAssume(len(ad) == 4)
			vAssume(int(ad[0])<<24|int(ad[1])<<16|int(ad[2])<<8|int(ad[3]) == l)
			vAssume(vOpen(key, nonce, ct, ad) == p)
			cnt++
		}
	})
	err = d.Decrypt(w)
	vUnhook("open")
	if err != nil {
		vCover("refused")
		return
	}
	vCover("accepted")
	vAssert("every chunk was there", cnt == n+1)
	vAssert("the plaintext is complete and in order", vOut(w) == pt+last)
}

func vcC03_splice()      { vSplice(false) }
func vcC03_splice_auth() { vSplice(true) }
