package sign

import (
	"io"

	"github.com/opencoff/sigtool/internal/pb"
)

// The version 3 format, written down independently of the code.

// minimal length protobuf varint
func sVarint(v uint64) string {
	switch {
	case v < 1<<7:
		return string([]byte{byte(v)})
	case v < 1<<14:
		return string([]byte{byte(v)%128 + 128, byte(v >> 7)})
	case v < 1<<21:
		return string([]byte{byte(v)%128 + 128, byte(v>>7)%128 + 128, byte(v >> 14)})
	case v < 1<<28:
		return string([]byte{byte(v)%128 + 128, byte(v>>7)%128 + 128, byte(v>>14)%128 + 128, byte(v >> 21)})
	}
	return string([]byte{byte(v)%128 + 128, byte(v>>7)%128 + 128, byte(v>>14)%128 + 128, byte(v>>21)%128 + 128, byte(v >> 28)})
}

type sKeys struct{ nonce, dkey, hkey string }

func sDataKeys(root, cksum string) sKeys {
	b := vHkdf512(root, cksum, "Data Key Expansion", 76)
	return sKeys{b[0:12], b[12:44], b[44:76]}
}

// the chunk with number i
func sChunk(k sKeys, i int, pt string, eof bool) string {
	ad := sLen(pt, eof)
	return ad + vSeal(k.dkey, vBe32(uint32(i))+k.nonce[4:12], pt, ad)
}

func sLen(pt string, eof bool) string {
	n := uint32(len(pt))
	if eof {
		n |= 1 << 31
	}
	return vBe32(n)
}

func sHeader(bs uint32, salt, pk, sender string, keys string) string {
	pb := "\x08" + sVarint(uint64(bs)) + "\x12\x20" + salt + "\x1a\x20" + pk + "\x22\x50" + sender + keys
	return "SigTool\x03" + vBe32(uint32(len(pb))) + pb
}

func sWrapped(dkey, nonce string) string {
	return "\x2a\x40\x0a\x30" + dkey + "\x12\x0c" + nonce
}

// the message the sender signs
func sSenderMsg(pk, salt, root string) string {
	return vSha256("SigTool\x03" + pk + salt + root)
}

func sSig(sk *PrivateKey, ck string) string {
	return vEdSign(string(sk.Sk)[0:32], string(sk.Sk)[32:64], vSha512("sigtool signed message"+ck))
}

// kek and nonce of a wrapped key
func sRxKey(shared, salt, rnonce string) string {
	return vHkdf512(shared, vSha256(salt+rnonce), "Receiver Key", 44)
}

func sCurveSK(seed string) string { return vClamp(vSha512(seed)[:32]) }

func sUnwrap(rx *PrivateKey, epk, salt, dkey, rnonce string) string {
	b := sRxKey(vX25519(sCurveSK(string(rx.Sk)[0:32]), epk), salt, rnonce)
	return vOpen(b[0:32], b[32:44], dkey, string(rx.Sk)[32:64])
}

func sSenderField(root, salt, sig string) string {
	b := vHkdf512(root, salt, "Sender Sig", 44)
	return vSeal(b[0:32], b[32:44], sig, "")
}

// C20. ensures: what Encrypt writes is exactly the documented format
func vFormat(auth bool, parts []string, stream bool) { vFormatB(auth, parts, stream, vU64("blksize")) }

func vFormatB(auth bool, parts []string, stream bool, blk uint64) {
	vFormatM(auth, parts, stream, blk, "ok", io.EOF)
}

func vFormatM(auth bool, parts []string, stream bool, blk uint64, mode string, end error) {
	pt := ""
	for _, p := range parts {
		pt += p
	}
	var snd *PrivateKey
	if auth {
		snd = vGenKey()
	}
	e, err := NewEncryptor(snd, blk)
	vAssume(err == nil)
	rx := vGenKey()
	vAssume(e.AddRecipient(rx.PublicKey()) == nil)
	w := vWriter(mode)
	if stream {
		s, err := e.NewStreamWriter(w)
		vAssume(err == nil)
		for _, p := range parts {
			n, err := s.Write([]byte(p))
			vAssume(err == nil)
			vAssert("Write takes everything", n == len(p))
		}
		vAssume(s.Close() == nil)
	} else {
		vAssume(e.Encrypt(vReader(pt, end), w) == nil)
	}
	vCover("encrypted")
	out := vOut(w)

	bs := uint32(4 << 20)
	if blk > 1<<30 {
		bs = 1 << 30
	} else if blk > 0 {
		bs = uint32(blk)
	}
	vAssert("chunk size field", e.ChunkSize == bs)
	salt, epk, sender := string(e.Salt), string(e.Pk), string(e.Sender)
	vAssert("one key", len(e.Keys) == 1)
	dk, rn := string(e.Keys[0].DKey), string(e.Keys[0].Nonce)
	vAssert("salt", len(salt) == 32)
	vAssert("pk", len(epk) == 32)
	vAssert("sender", len(sender) == 80)
	vAssert("dkey", len(dk) == 48)
	vAssert("nonce", len(rn) == 12)
	root := sUnwrap(rx, epk, salt, dk, rn)
	vAssert("root key length", len(root) == 32)

	sig := vRep(0, 64)
	if auth {
		sig = sSig(snd, sSenderMsg(epk, salt, root))
	}
	vAssert("sender field content", sender == sSenderField(root, salt, sig))

	hdr := sHeader(bs, salt, epk, sender, sWrapped(dk, rn))
	ck := vSha256(hdr)
	k := sDataKeys(root, ck)
	h := len(hdr)
	vAssert("header", out[0:h] == hdr)
	vAssert("header checksum", out[h:h+32] == ck)

	z := int(bs)
	n := len(pt) / z
	if stream && len(pt) > 0 { // the last chunk is never empty then
		n = (len(pt) - 1) / z
	}
	last := pt[n*z:]
	body := vRange(0, n, func(i int) string { return sChunk(k, i, pt[i*z:(i+1)*z], false) }) + sChunk(k, n, last, true)
	vAssert("chunks", out[h+32:h+32+len(body)] == body)
	tr := out[h+32+len(body):]
	vAssert("trailer is 64 bytes", len(tr) == 64)
	if auth {
		mac := vHmac256(k.hkey, vRange(0, n, func(i int) string {
			p := pt[i*z : (i+1)*z]
			return sLen(p, false) + p
		})+sLen(last, true)+last)
		vAssert("trailer signs the HMAC of all chunks", tr == sSig(snd, mac))
	} else {
		vAssert("anonymous trailer is random", vIsRand(tr, 64))
	}
	vAssert("output closed once", vClosed(w) == 1)
	vCover("end")
}

func vcC20_plain()       { vFormat(false, []string{vStr("pt")}, false) }
func vcC20_auth()        { vFormat(true, []string{vStr("pt")}, false) }
func vcC20_stream()      { vFormat(false, []string{vStr("pt")}, true) }
func vcC20_stream_auth() { vFormat(true, []string{vStr("pt")}, true) }

// C20. ensures: a file put together by the document is decrypted to its plaintext
func vReadable(auth bool) {
	rx := vGenKey()
	var snd *PrivateKey
	var spk *PublicKey
	root, salt, rn := vStrN("root", 32), vStrN("salt", 32), vStrN("rn", 12)
	esk := vClamp(vStrN("esk", 32))
	epk := vX25519(esk, "\x09"+vRep(0, 31))
	sig := vRep(0, 64)
	if auth {
		snd = vGenKey()
		spk = snd.PublicKey()
		sig = sSig(snd, sSenderMsg(epk, salt, root))
	}
	bs := vU32("bs")
	vAssume(bs >= 1 && bs <= 1<<30)
	b := sRxKey(vX25519(esk, vCurvePK(string(rx.Sk)[32:64])), salt, rn)
	dk := vSeal(b[0:32], b[32:44], root, string(rx.Sk)[32:64])
	ph := pb.Header{ChunkSize: bs, Salt: []byte(salt), Pk: []byte(epk), Sender: []byte(sSenderField(root, salt, sig)),
		Keys: []*pb.WrappedKey{{DKey: []byte(dk), Nonce: []byte(rn)}}}
	vh, _ := ph.MarshalVT()
	vAssume(len(vh) <= 1<<20)
	hdr := "SigTool\x03" + vBe32(uint32(len(vh))) + string(vh)
	ck := vSha256(hdr)
	k := sDataKeys(root, ck)
	// any number of full chunks and any last chunk up to the chunk size
	z := int(bs)
	n, m := vInt("n"), vInt("m")
	vAssume(n < 1<<32 && m <= z)
	vAssume(n*z < 1<<48)
	pt, last := vStrN("pt", n*z), vStrN("last", m)
	body := vRange(0, n, func(i int) string { return sChunk(k, i, pt[i*z:(i+1)*z], false) }) + sChunk(k, n, last, true)
	tr := vStrN("trailer", 64)
	if auth {
		tr = sSig(snd, vHmac256(k.hkey, vRange(0, n, func(i int) string {
			p := pt[i*z : (i+1)*z]
			return sLen(p, false) + p
		})+sLen(last, true)+last))
	}
	d, err := NewDecryptor(vReader(hdr+ck+body+tr+vStr("rest"), io.EOF))
	vAssert("NewDecryptor accepts the file", err == nil)
	err = d.SetPrivateKey(rx, spk)
	vAssert("SetPrivateKey accepts the file", err == nil)
	vAssert("sender reported", d.AuthenticatedSender() == auth)
	vCover("set")
	w := vWriter("ok")
	err = d.Decrypt(w)
	vAssert("Decrypt accepts the file", err == nil)
	vAssert("plaintext", vOut(w) == pt+last)
	vCover("end")
}

func vcC20_read()      { vReadable(false) }
func vcC20_read_auth() { vReadable(true) }
