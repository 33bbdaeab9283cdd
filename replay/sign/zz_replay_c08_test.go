package sign_test

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// stingy gives few bytes per call and fails at the end with the given error
type stingy struct {
	b   []byte
	rng *rand.Rand
	err error
}

func (s *stingy) Read(b []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := len(b)
	if s.rng != nil && n > 1 {
		n = 1 + s.rng.Intn(n)
	}
	n = copy(b[:n], s.b)
	s.b = s.b[n:]
	if s.rng != nil && s.rng.Intn(4) == 0 && len(s.b) == 0 {
		return n, s.err
	}
	return n, nil
}

func TestVerifC08(t *testing.T) {
	r := newRun(t, "a case is an input file (edited at a given place) and a sequence of decryptor calls")
	defer r.done()
	snd := genKey(t)
	rx := genKey(t)
	big := make(chan bool, 2) // inputs that make the decryptor set aside a large chunk buffer

	feed := func(what string, raw []byte, seed int64) {
		rng := newRng(seed)
		ended := make(chan error, 1)
		go func() {
			err, p := guard(func() error {
				var rd io.Reader = bytes.NewReader(raw)
				if rng.Intn(2) == 0 {
					rd = &stingy{append([]byte{}, raw...), rng, []error{io.EOF, errSpy, io.ErrUnexpectedEOF}[rng.Intn(3)]}
				}
				d, err := sign.NewDecryptor(rd)
				if err != nil {
					if d != nil {
						_ = d
					}
					return nil
				}
				if d == nil {
					return fmt.Errorf("panic: no decryptor and no error")
				}
				if d.ChunkSize > 1<<24 {
					big <- true
					defer func() { <-big }()
				}
				d.AuthenticatedSender()
				var sr io.Reader
				for st := 0; st < 6; st++ {
					switch rng.Intn(5) {
					case 0, 1:
						var spk *sign.PublicKey
						if rng.Intn(2) == 0 {
							spk = snd.PublicKey()
						}
						d.SetPrivateKey(rx, spk)
					case 2:
						d.Decrypt(&bytes.Buffer{})
					case 3:
						if x, err := d.NewStreamReader(); err == nil {
							sr = x
						}
					}
					if sr != nil {
						for k := 0; k < 5; k++ {
							b := make([]byte, []int{0, 1, 3, 64, 5000}[rng.Intn(5)])
							n, _ := sr.Read(b)
							if n < 0 || n > len(b) {
								return fmt.Errorf("panic: Read returned %d for %d bytes", n, len(b))
							}
						}
					}
				}
				return nil
			})
			if p || err != nil {
				ended <- err
				return
			}
			ended <- nil
		}()
		select {
		case err := <-ended:
			if err != nil {
				r.bad("%s: %v; input (hex) %s", what, err, clip(hex.EncodeToString(raw)))
				return
			}
			r.ok("%s", what)
		case <-time.After(60 * time.Second):
			r.bad("%s: no answer within a minute; input (hex) %s", what, clip(hex.EncodeToString(raw)))
		}
	}
	var jobs []func()
	seed := int64(0)
	add := func(what string, raw []byte) {
		for k := 0; k < 3; k++ {
			seed++
			sd := seed
			jobs = append(jobs, func() { feed(what, raw, sd) })
		}
	}
	frame := func(v []byte) []byte {
		b := append(append([]byte("SigTool\x03"), be4(uint32(len(v)))...), v...)
		return append(b, sum256(b)...)
	}
	rng := newRng(77)
	// short and random inputs
	for n := 0; n < 60; n++ {
		add(fmt.Sprintf("%d random bytes", n), bytesOf(rng, n))
		add(fmt.Sprintf("magic and %d random bytes", n), append([]byte("SigTool\x03"), bytesOf(rng, n)...))
	}
	for _, v := range []uint32{0, 1, 31, 32, 33, 1 << 10, 1 << 20, 1<<20 + 1, 1 << 31, 1<<32 - 1} {
		add(fmt.Sprintf("header length %d without a header", v), append([]byte("SigTool\x03"), be4(v)...))
		add(fmt.Sprintf("header length %d and 100 bytes", v), append(append([]byte("SigTool\x03"), be4(v)...), bytesOf(rng, 100)...))
	}
	mk := func(cs uint32, edit func(f *refFile), s *sign.PrivateKey) *refFile {
		return refNew(refOpts{chunkSize: cs, rx: pubs([]*sign.PrivateKey{rx}), snd: s, rng: rng, hdrEdit: edit})
	}
	pt := []byte("some text that spans a number of chunks, so to speak, and then some")
	for _, s := range []*sign.PrivateKey{nil, snd} {
		f := mk(16, nil, s)
		v := f.encodeHdr()
		body := f.body(refSplit(pt, 16), s)
		whole := append(f.head(), body...)
		for i := 0; i <= len(whole); i++ {
			add(fmt.Sprintf("cut to %d", i), whole[:i])
		}
		for i := 0; i < len(whole); i++ {
			b := append([]byte{}, whole...)
			b[i] ^= byte(1 + rng.Intn(255))
			add(fmt.Sprintf("byte %d changed", i), b)
		}
		// header bytes replaced by telling values under a right checksum
		for i := 0; i < len(v); i++ {
			for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff, v[i] + 1, v[i] - 1, v[i] ^ 3} {
				w := append([]byte{}, v...)
				w[i] = x
				add(fmt.Sprintf("header byte %d set to %#x, checksum right", i, x), append(frame(w), body...))
			}
			add(fmt.Sprintf("header cut to %d, checksum right", i), append(frame(v[:i]), body...))
			w := append(append([]byte{}, v[:i]...), bytesOf(rng, 3)...)
			add(fmt.Sprintf("3 bytes inserted at %d, checksum right", i), append(frame(append(w, v[i:]...)), body...))
			// long varints at every place
			for _, x := range [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}} {
				w := append(append(append([]byte{}, v[:i]...), x...), v[i+1:]...)
				add(fmt.Sprintf("long varint at %d, checksum right", i), append(frame(w), body...))
			}
		}
		// field sizes
		for _, n := range []int{0, 1, 12, 31, 32, 33, 47, 48, 49, 64, 79, 80, 81, 200} {
			n := n
			for k, e := range []func(f *refFile){
				func(f *refFile) { f.salt = make([]byte, n) },
				func(f *refFile) { f.pk = bytesOf(rng, n) },
				func(f *refFile) { f.pk = make([]byte, n) },
				func(f *refFile) { f.sender = make([]byte, n) },
				func(f *refFile) { f.keys[0].dkey = make([]byte, n) },
				func(f *refFile) { f.keys[0].nonce = make([]byte, n) },
				func(f *refFile) { f.keys = make([]refKey, n) },
				func(f *refFile) { f.keys = append(f.keys, refKey{make([]byte, n), nil}) },
				func(f *refFile) { f.keys = append([]refKey{{make([]byte, n), make([]byte, 12)}}, f.keys...) },
				// fields of other sizes that do open: the sender information, a root key
				func(f *refFile) {
					sk := rhkdf(f.key, f.salt, "Sender Sig", 44)
					f.sender = gcm(sk[:32]).Seal(nil, sk[32:], bytesOf(rng, n), nil)
				},
				func(f *refFile) {
					sk := rhkdf(f.key, f.salt, "Sender Sig", 44)
					f.sender = gcm(sk[:32]).Seal(nil, sk[32:], make([]byte, n), nil)
				},
				func(f *refFile) {
					esk := refCurveSK(bytesOf(rng, 32))
					f.pk = refXPub(esk)
					f.keys[0].nonce = bytesOf(rng, n)
					kn := rhkdf(refX(esk, refCurvePK(rx.Sk[32:])), sum256(f.salt, f.keys[0].nonce), "Receiver Key", 44)
					f.key = bytesOf(rng, n)
					f.keys[0].dkey = gcm(kn[:32]).Seal(nil, kn[32:], f.key, rx.Sk[32:])
				},
			} {
				g := mk(16, e, s)
				add(fmt.Sprintf("field %d of %d bytes, sender %v", k, n, s != nil), append(g.head(), g.body(refSplit(pt, 16), s)...))
			}
		}
		for _, cs := range []uint32{0, 1, 15, 17, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 16, 1<<31 - 1, 1 << 31, 1<<32 - 16, 1<<32 - 1} {
			g := mk(cs, nil, s)
			add(fmt.Sprintf("chunk size %d", cs), append(g.head(), g.body(refSplit(pt, 16), s)...))
			for _, l := range []uint32{0, 1, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 3<<30 + 1, 1<<32 - 1, 1<<32 - 16, 1<<31 - 16, 1<<31 - 17} {
				add(fmt.Sprintf("chunk size %d, chunk length %#x", cs, l), append(append(g.head(), be4(l)...), bytesOf(rng, 300)...))
			}
		}
		// chunk lengths around the chunk size at every chunk
		h := len(f.head())
		for i := 0; h+i*36 < len(whole)-64; i++ {
			for _, l := range []uint32{0, 1, 15, 16, 17, 31, 32, 33, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 15, 1<<31 + 16, 1<<31 + 17, 1<<31 + 33, 1<<32 - 1} {
				b := append([]byte{}, whole...)
				binary.BigEndian.PutUint32(b[h+i*36:], l)
				add(fmt.Sprintf("chunk %d length %#x", i, l), b)
			}
		}
		// chunks that open but have unusual sizes
		for _, ps := range [][][]byte{{pt}, {{}, pt[:16]}, {pt[:1], pt[1:17], {}}, {pt[:17], {}}, {{}, {}, {}}, {pt[:16], pt[:33]}} {
			add(fmt.Sprintf("%d well sealed chunks of unusual size", len(ps)), append(f.head(), f.body(ps, s)...))
		}
	}
	// structure-aware random headers
	n := 6000
	if thorough {
		n = 100000
	}
	for i := 0; i < n; i++ {
		rng := newRng(int64(100000 + i))
		var v []byte
		if rng.Intn(4) > 0 {
			v = append(v, 0x08)
			v = binary.AppendUvarint(v, []uint64{0, 1, 16, 4096, 1 << 30, 1 << 31, 1<<32 - 1, 1 << 32, 1<<64 - 1}[rng.Intn(9)])
		}
		for k := rng.Intn(9); k >= 0; k-- {
			v = binary.AppendUvarint(v, uint64([]int{0x12, 0x1a, 0x22, 0x2a, 0x2a, 0x0a, 0x0b, 0x0c, 0x0d, 0x09, 0x32, 0x33, 0x34, 0x7a, 0, 2, 7, rng.Intn(1 << 20), 1 << 30}[rng.Intn(19)]))
			l := []int{32, 32, 48, 80, 0, 1, 12, 66, 62, rng.Intn(100)}[rng.Intn(10)]
			switch rng.Intn(12) {
			case 0:
				v = binary.AppendUvarint(v, []uint64{1 << 31, 1<<31 - 1, 1 << 62, 1 << 63, 1<<64 - 1, 1<<63 - 1, 1000}[rng.Intn(7)])
			case 1:
				v = append(v, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
			default:
				v = binary.AppendUvarint(v, uint64(l))
			}
			if rng.Intn(2) == 0 && l >= 62 {
				v = append(v, 0x0a, 48)
				v = append(v, bytesOf(rng, 48)...)
				v = append(v, 0x12, byte(l-52))
				v = append(v, bytesOf(rng, l-52)...)
			} else {
				v = append(v, bytesOf(rng, l)...)
			}
		}
		if rng.Intn(3) == 0 {
			v = append(v, make([]byte, 40)...)
		}
		raw := append(frame(v), bytesOf(rng, rng.Intn(200))...)
		sd := int64(i)
		jobs = append(jobs, func() { feed("random header", raw, sd) })
	}
	// nested groups
	for _, d := range []int{1, 10, 1000, 100000} {
		v := bytes.Repeat([]byte{0x33}, d)
		add(fmt.Sprintf("%d nested groups", d), append(frame(append(v, make([]byte, 40)...)), 0))
		add(fmt.Sprintf("%d nested groups, closed", d), append(frame(append(v, bytes.Repeat([]byte{0x34}, d)...)), 0))
		add(fmt.Sprintf("%d group ends", d), append(frame(append(bytes.Repeat([]byte{0x34}, d), make([]byte, 40)...)), 0))
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
}

func clip(s string) string {
	if len(s) > 1600 {
		return s[:1600] + "..."
	}
	return s
}
