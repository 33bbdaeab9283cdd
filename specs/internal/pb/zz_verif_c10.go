package pb

import "github.com/planetscale/vtprotobuf/protohelpers"

// decoding arbitrary bytes into a fresh message: no panic
func vcC10_any_key() {
	vSummarise()
	s := vStr("s")
	var w WrappedKey
	err := w.UnmarshalVT([]byte(s))
	vAssert("no field longer than the input", len(w.DKey) <= len(s) && len(w.Nonce) <= len(s))
	if err != nil {
		vCover("refused")
		return
	}
	vCover("accepted")
}

func vcC10_any() {
	vSummarise()
	s := vStr("s")
	var h Header
	err := h.Unmarshal([]byte(s))
	vAssert("no field longer than the input", len(h.Salt) <= len(s) && len(h.Pk) <= len(s) && len(h.Sender) <= len(s))
	if err != nil {
		vCover("refused")
		return
	}
	vCover("accepted")
}

// the length of an unknown record is positive
func vcC10_skip() {
	vSummarise()
	n, err := protohelpers.Skip([]byte(vStr("s")))
	if err != nil {
		vCover("refused")
		return
	}
	vAssert("a record has a positive length", n >= 1)
	vCover("accepted")
}

func sField(tag byte, s string) string {
	if s == "" {
		return ""
	}
	return string([]byte{tag}) + vVarint(len(s)) + s
}

// one wrapped key: exact bytes, size, and back
func vcC10_key() {
	vVarints()
	vAssume(len(vStr("dkey")) < 1<<40)
	vAssume(len(vStr("nonce")) < 1<<40)
	w := &WrappedKey{DKey: vBytes("dkey"), Nonce: vBytes("nonce")}
	want := sField(0x0a, vStr("dkey")) + sField(0x12, vStr("nonce"))
	b, err := w.MarshalVT()
	vAssert("encoding succeeds", err == nil)
	vAssert("size", w.SizeVT() == len(want))
	vAssert("protobuf bytes", string(b) == want)
	vCover("encoded")
	var r WrappedKey
	err = r.UnmarshalVT(b)
	vAssert("decoding succeeds", err == nil)
	copy(b, vStr("later")) // the fields are copies
	vAssert("key", string(r.DKey) == vStr("dkey"))
	vAssert("nonce", string(r.Nonce) == vStr("nonce"))
	vAssert("nothing unknown", len(r.unknownFields) == 0)
	vCover("end")
}

func sHdr(h *Header) string {
	cs := ""
	if h.ChunkSize != 0 {
		cs = "\x08" + vVarint(int(h.ChunkSize))
	}
	return cs + sField(0x12, string(h.Salt)) + sField(0x1a, string(h.Pk)) + sField(0x22, string(h.Sender))
}

func sFields() *Header {
	vAssume(len(vStr("salt")) < 1<<40)
	vAssume(len(vStr("pk")) < 1<<40)
	vAssume(len(vStr("sender")) < 1<<40)
	return &Header{ChunkSize: vU32("cs"), Salt: vBytes("salt"), Pk: vBytes("pk"), Sender: vBytes("sender")}
}

func sBack(h *Header, b []byte) *Header {
	var r Header
	err := r.Unmarshal(b)
	vAssert("decoding succeeds", err == nil)
	copy(b, vStr("later")) // the fields are copies
	vAssert("chunk size", r.ChunkSize == h.ChunkSize)
	vAssert("salt", string(r.Salt) == string(h.Salt))
	vAssert("pk", string(r.Pk) == string(h.Pk))
	vAssert("sender", string(r.Sender) == string(h.Sender))
	vAssert("nothing unknown", len(r.unknownFields) == 0)
	return &r
}

// sEncode encodes into a buffer of any size that is large enough
func sEncode(h *Header, want string) []byte {
	b, err := h.MarshalVT()
	vAssert("encoding succeeds", err == nil)
	vAssert("protobuf bytes", string(b) == want)
	vAssert("size", h.Size() == len(want))
	extra := vStr("behind")
	vAssume(len(extra) < 1<<40)
	buf := make([]byte, h.Size()+len(extra))
	copy(buf[h.Size():], extra)
	n, err := h.MarshalTo(buf)
	vAssert("encoding into a buffer succeeds", err == nil)
	vAssert("bytes encoded", n == len(want))
	vAssert("protobuf bytes in the buffer", string(buf[:n]) == want)
	vAssert("the rest of the buffer unchanged", string(buf[n:]) == extra)
	vCover("encoded")
	return buf[:n]
}

func vcC10_hdr() {
	vVarints()
	h := sFields()
	b := sEncode(h, sHdr(h))
	r := sBack(h, b)
	vAssert("no keys", len(r.Keys) == 0)
	vCover("end")
}

func vcC10_keys() {
	vVarints()
	h := sFields()
	var keys string
	vAssume(len(vStr("d0")) < 1<<40 && len(vStr("n0")) < 1<<40)
	vAssume(len(vStr("d1")) < 1<<40 && len(vStr("n1")) < 1<<40)
	ks := []*WrappedKey{{DKey: vBytes("d0"), Nonce: vBytes("n0")}, {DKey: vBytes("d1"), Nonce: vBytes("n1")}}
	for _, k := range ks {
		vAssume(k.SizeVT() < 1<<42)
		t, _ := k.MarshalVT()
		keys += "\x2a" + vVarint(len(t)) + string(t)
		h.Keys = append(h.Keys, k)
	}
	b := sEncode(h, sHdr(h)+keys)
	r := sBack(h, b)
	vAssert("number of keys", len(r.Keys) == len(h.Keys))
	for i := range h.Keys {
		vAssert("key", string(r.Keys[i].DKey) == string(h.Keys[i].DKey))
		vAssert("nonce", string(r.Keys[i].Nonce) == string(h.Keys[i].Nonce))
	}
	vCover("end")
}

// the varint helpers: the shortest encoding, low 7 bits first
func vcC10_varint() {
	v := vU64("v")
	n := protohelpers.SizeOfVarint(v)
	k := 1
	for k < 10 && v >= 1<<uint(7*k) {
		k++
	}
	vAssert("varint length", n == k)
	b := make([]byte, 20)
	off := protohelpers.EncodeVarint(b, 15, v)
	vAssert("varint start", off == 15-k)
	w := v
	for i := 0; i < k; i++ {
		c := byte(w % 128)
		if i < k-1 {
			c += 128
		}
		vAssert("varint byte", b[off+i] == c)
		w = w / 128
	}
	vAssert("nothing else written", string(b[:off]) == string(make([]byte, off)) && string(b[15:]) == "\x00\x00\x00\x00\x00")
	vCover("end")
}
