package sign_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC04(t *testing.T) {
	r := newRun(t, "a case is (file, header change, checksum recomputed or not)")
	defer r.done()
	snd := genKey(t)
	rx, rx2 := genKey(t), genKey(t)
	rng := newRng(1)

	refused := func(what string, raw []byte) {
		err, p := guard(func() error {
			_, err := sign.NewDecryptor(bytes.NewReader(raw))
			return err
		})
		if err == nil || p {
			r.bad("%s: opening succeeded or crashed: %v", what, err)
			return
		}
		r.ok("%s", what)
	}
	// whatever happens, no plaintext comes out and no success is reported
	useless := func(what string, raw []byte, k *sign.PrivateKey, spk *sign.PublicKey) {
		for _, st := range []int{0, 9} {
			for _, sp := range []*sign.PublicKey{spk, nil} {
				out, err, _ := openAll(raw, k, sp, st)
				if err == nil || len(out) > 0 {
					r.bad("%s: decryption gave %s, error %v", what, short(out), err)
					return
				}
			}
		}
		r.ok("%s", what)
	}
	resum := func(hdr []byte) []byte { return append(append([]byte{}, hdr...), sum256(hdr)...) }
	frame := func(v []byte) []byte {
		return append(append([]byte("SigTool\x03"), be4(uint32(len(v)))...), v...)
	}

	for _, s := range []*sign.PrivateKey{nil, snd} {
		for _, n := range []int{0, 20, 64, 100} {
			pt := bytesOf(rng, n)
			raw, err := enc(s, 64, pubs([]*sign.PrivateKey{rx, rx2}), pt)
			if err != nil {
				r.bad("encrypt: %v", err)
				return
			}
			f, err := refParse(raw, rx)
			if err != nil {
				r.bad("parse: %v", err)
				return
			}
			name := fmt.Sprintf("%d bytes, sender %v", n, s != nil)
			h := len(f.hdr)
			body := raw[h+32:]
			// every header byte and checksum byte
			for i := 0; i < h+32; i++ {
				for _, m := range []byte{1, 2, 4, 8, 16, 32, 64, 128, 255} {
					if n != 20 && m != byte(1<<uint(i%8)) {
						continue
					}
					b := append([]byte{}, raw...)
					b[i] ^= m
					refused(fmt.Sprintf("%s, header byte %d xor %d", name, i, m), b)
					if i < h && i >= 12 {
						// with the checksum recomputed
						hd := append([]byte{}, b[:h]...)
						useless(fmt.Sprintf("%s, header byte %d xor %d, checksum recomputed", name, i, m), append(resum(hd), body...), rx, pubOf(s))
					} else if i < 8 {
						hd := append([]byte{}, b[:h]...)
						refused(fmt.Sprintf("%s, magic or version byte %d xor %d, checksum recomputed", name, i, m), append(resum(hd), body...))
					}
				}
			}
			for i := 0; i < h+32; i++ {
				refused(fmt.Sprintf("%s, cut to %d bytes", name, i), raw[:i])
			}
			// two changes that cancel in a weak sum, exchanged bytes
			for k := 0; k < 200; k++ {
				i, j := rng.Intn(h), rng.Intn(h)
				b := append([]byte{}, raw...)
				if b[i] == b[j] {
					continue
				}
				b[i], b[j] = b[j], b[i]
				refused(fmt.Sprintf("%s, header bytes %d and %d exchanged", name, i, j), b)
				b = append([]byte{}, raw...)
				b[i] ^= 0x55
				b[j] ^= 0x55
				if i != j {
					refused(fmt.Sprintf("%s, header bytes %d and %d xor 0x55", name, i, j), b)
				}
			}
			// other versions
			for v := 0; v < 256; v++ {
				if v == 3 {
					continue
				}
				hd := append([]byte{}, f.hdr...)
				hd[7] = byte(v)
				refused(fmt.Sprintf("%s, version %d", name, v), append(resum(hd), body...))
			}
			// same fields, other encodings
			v := f.hdr[12:]
			enc := map[string][]byte{
				"unknown field appended":       append(append([]byte{}, v...), 0x30, 1),
				"unknown bytes field appended": append(append([]byte{}, v...), 0x3a, 2, 1, 1),
				"salt given twice":             append(append([]byte{}, v...), append([]byte{0x12, 32}, f.salt...)...),
				"chunk size given twice":       append(append([]byte{}, v...), 0x08, 64),
				"other chunk size":             append(append([]byte{}, v...), 0x08, 65),
				"long varint":                  append([]byte{0x08, 0xc0, 0}, v[2:]...),
				"key added":                    append(append([]byte{}, v...), v[len(v)-66:]...),
				"key removed":                  append([]byte{}, v[:len(v)-66]...),
				"keys exchanged":               append(append(append([]byte{}, v[:len(v)-132]...), v[len(v)-66:]...), v[len(v)-132:len(v)-66]...),
				"fields reordered":             append(append([]byte{}, v[2:]...), v[:2]...),
			}
			for w, e := range enc {
				useless(fmt.Sprintf("%s, %s, checksum recomputed", name, w), append(resum(frame(e)), body...), rx, pubOf(s))
				refused(fmt.Sprintf("%s, %s", name, w), append(append(frame(e), f.sum...), body...))
			}
			// length field that does not cover the header
			for _, d := range []int{-1, 1, -32, 32, -66} {
				hd := append([]byte{}, f.hdr...)
				binary.BigEndian.PutUint32(hd[8:], uint32(len(v)+d))
				b := append(append(append([]byte{}, hd...), f.sum...), body...)
				refused(fmt.Sprintf("%s, header length off by %d", name, d), b)
			}
		}
	}
	// limits of the fields, with proper keys and checksum
	lim := func(what string, okay bool, edit func(f *refFile)) {
		for _, s := range []*sign.PrivateKey{nil, snd} {
			f := refNew(refOpts{chunkSize: 64, rx: pubs([]*sign.PrivateKey{rx}), snd: s, rng: rng, hdrEdit: edit})
			raw := append(f.head(), f.body([][]byte{[]byte("hello")}, s)...)
			err, _ := guard(func() error {
				_, err := sign.NewDecryptor(bytes.NewReader(raw))
				return err
			})
			if (err == nil) != okay {
				r.bad("header with %s, sender %v: opening gave %v", what, s != nil, err)
				return
			}
			r.ok("header with %s, sender %v", what, s != nil)
		}
	}
	for _, c := range []uint32{0, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<31 + 64} {
		lim(fmt.Sprintf("chunk size %d", c), false, func(f *refFile) { f.chunkSize = c })
	}
	for _, c := range []uint32{1, 2, 1 << 22, 1<<22 + 1, 1<<30 - 1, 1 << 30} {
		lim(fmt.Sprintf("chunk size %d", c), true, func(f *refFile) { f.chunkSize = c })
	}
	for _, n := range []int{0, 1, 16, 31, 33, 64} {
		lim(fmt.Sprintf("salt of %d bytes", n), false, func(f *refFile) { f.salt = make([]byte, n) })
	}
	lim("no keys", false, func(f *refFile) { f.keys = nil })
	for _, n := range []int{0, 1, 16, 31, 32} {
		lim(fmt.Sprintf("wrapped key of %d bytes", n), false, func(f *refFile) { f.keys[0].dkey = make([]byte, n) })
		lim(fmt.Sprintf("second wrapped key of %d bytes", n), false, func(f *refFile) {
			f.keys = append(f.keys, refKey{make([]byte, n), make([]byte, 12)})
		})
		lim(fmt.Sprintf("first of two wrapped keys of %d bytes", n), false, func(f *refFile) {
			f.keys = append([]refKey{{make([]byte, n), make([]byte, 12)}}, f.keys...)
		})
	}
	// declared header length
	for _, n := range []uint32{0, 1, 31, 1<<20 + 1, 1<<20 + 12, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 32} {
		m := n
		if m > 1<<21 {
			m = 1 << 21
		}
		hd := append([]byte("SigTool\x03"), be4(n)...)
		hd = append(hd, make([]byte, m)...)
		refused(fmt.Sprintf("header length %d", n), append(resum(hd), make([]byte, 100)...))
	}
	// a header of the largest size opens, one more does not
	for _, d := range []int{0, 1} {
		f := refNew(refOpts{chunkSize: 64, rx: pubs([]*sign.PrivateKey{rx}), rng: rng})
		v := f.encodeHdr()
		pad := 1<<20 + d - len(v) - 4
		v = append(v, 0x3a, byte(pad&0x7f|0x80), byte(pad>>7&0x7f|0x80), byte(pad>>14))
		pad -= 1
		v = append(v[:len(v)-3], byte(pad&0x7f|0x80), byte(pad>>7&0x7f|0x80), byte(pad>>14))
		v = append(v, make([]byte, pad)...)
		_ = pad
		for len(v) < 1<<20+d {
			v = append(v, 0)
		}
		if len(v) != 1<<20+d {
			v = v[:1<<20+d]
		}
		_, err := pbFields(v)
		if err != nil {
			continue
		}
		f.hdr = frame(v)
		f.sum = sum256(f.hdr)
		f.derive(f.key)
		raw := append(f.head(), f.body([][]byte{[]byte("hello")}, nil)...)
		_, err = sign.NewDecryptor(bytes.NewReader(raw))
		if (err == nil) != (d == 0) {
			r.bad("header of %d bytes: %v", len(v), err)
		}
		r.ok("header of %d bytes", len(v))
	}
}
