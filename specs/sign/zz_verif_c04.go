package sign

import "io"

func vBe(s string) int { return int(s[0])<<24 | int(s[1])<<16 | int(s[2])<<8 | int(s[3]) }

// C04. requires: any bytes, any end of the input. ensures: accepted only if valid; then the
// decoded fields are within the limits, and the keys of the body depend on every header byte.
func vHeader() {
	in := vStr("in")
	end := vErr("end")
	vAssume(end != nil)
	rd := vReader(in, end)
	d, err := NewDecryptor(rd)
	if err != nil {
		vCover("refused")
		vAssert("no decryptor with an error", d == nil)
		return
	}
	vCover("accepted")
	vAssert("decryptor returned", d != nil)
	vAssert("magic", len(in) >= 12 && in[0:7] == "SigTool")
	vAssert("version", in[7] == 3)
	n := vBe(in[8:12])
	vAssert("header length within limits", n >= 32 && n <= 1<<20)
	vAssert("header complete", len(in) >= 12+n+32)
	ck := in[12+n : 12+n+32]
	vAssert("checksum over every header byte", ck == vSha256(in[:12+n]))
	vAssert("exactly the header was read", vReaderPos(rd) == 12+n+32)
	vAssert("chunk size within limits", d.ChunkSize >= 1 && d.ChunkSize <= 1<<30)
	vAssert("salt length", len(d.Salt) == 32)
	vAssert("at least one key", len(d.Keys) > 0)
	j := vInt("j")
	if j < len(d.Keys) {
		vAssert("wrapped key longer than a key", len(d.Keys[j].DKey) > 32)
	}

	// the keys of the body
	rx := vGenKey()
	root := ""
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if ok && ad != "" {
			root = vOpen(key, nonce, ct, ad)
		}
	})
	err = d.SetPrivateKey(rx, nil)
	vUnhook("open")
	if err != nil {
		return
	}
	vCover("set")
	k := sDataKeys(root, ck)
	first := true
	vHook("open", func(key, nonce, ct, ad string, ok bool) {
		if first {
			vAssert("data key made from root key and header checksum", key == k.dkey)
			vAssert("nonce made from root key and header checksum", nonce[4:] == k.nonce[4:])
		}
		first = false
	})
	r, err := d.NewStreamReader()
	vAssert("reader", err == nil)
	r.Read(vBytes("b"))
	vUnhook("open")
	vCover("end")
}

func vcC04() { vHeader() }

var _ = io.EOF
