package sign_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC18(t *testing.T) {
	r := newRun(t, "a case is a sequence of calls on one encryptor or decryptor")
	defer r.done()
	snd := genKey(t)
	ks := keys(t, 6)

	encSeq := func(seq []int, rng interface{ Intn(int) int }, s *sign.PrivateKey, bs int) {
		var hist []string
		fail := func(f string, a ...interface{}) {
			r.bad("calls %s: %s", strings.Join(hist, ", "), fmt.Sprintf(f, a...))
		}
		err, p := guard(func() error {
			e, err := sign.NewEncryptor(s, uint64(bs))
			if err != nil {
				return err
			}
			var listed []*sign.PrivateKey
			state := 0 // 0 fresh, 1 batch done, 2 streaming, 3 closed
			var w *oddW
			var sw io.WriteCloser
			var want []byte
			full := func(n int) int { return n }
			snap := func() string {
				if w == nil {
					return "-"
				}
				return fmt.Sprintf("%d/%d", len(w.got), w.closed)
			}
			for _, op := range seq {
				before := snap()
				switch op {
				case 0:
					k := ks[rng.Intn(len(ks))]
					hist = append(hist, "AddRecipient")
					err := e.AddRecipient(k.PublicKey())
					if state == 0 {
						if err != nil {
							fail("AddRecipient: %v", err)
							return nil
						}
						listed = append(listed, k)
					} else if !errors.Is(err, sign.ErrEncStarted) {
						fail("AddRecipient after the start gives %v", err)
						return nil
					}
				case 1:
					pt := []byte("hello, batch of text!!"[:rng.Intn(23)])
					hist = append(hist, fmt.Sprintf("Encrypt(%d)", len(pt)))
					w2 := &oddW{step: full, limit: -1}
					src := bytes.NewReader(pt)
					err := e.Encrypt(src, w2)
					if state == 0 {
						if err != nil {
							fail("Encrypt: %v", err)
							return nil
						}
						w, want, state = w2, pt, 1
						before = ""
					} else {
						if err == nil {
							fail("Encrypt after the start succeeded")
							return nil
						}
						if state >= 2 && !errors.Is(err, sign.ErrEncIsStream) || state == 1 && !errors.Is(err, sign.ErrEncStarted) {
							fail("Encrypt after the start gives %v", err)
							return nil
						}
						if len(w2.got) > 0 || w2.closed > 0 || src.Len() != len(pt) {
							fail("refused Encrypt wrote %d bytes, closed %d times, read %d", len(w2.got), w2.closed, len(pt)-src.Len())
							return nil
						}
					}
				case 2:
					hist = append(hist, "NewStreamWriter")
					w2 := &oddW{step: full, limit: -1}
					x, err := e.NewStreamWriter(w2)
					if state == 0 {
						if err != nil {
							fail("NewStreamWriter: %v", err)
							return nil
						}
						w, sw, state = w2, x, 2
						before = ""
					} else {
						if !errors.Is(err, sign.ErrEncStarted) || x != nil {
							fail("NewStreamWriter after the start gives %v, %v", x, err)
							return nil
						}
						if len(w2.got) > 0 || w2.closed > 0 {
							fail("refused NewStreamWriter wrote %d bytes", len(w2.got))
							return nil
						}
					}
				case 3:
					if sw == nil {
						continue
					}
					b := []byte("some streamed text of any length"[:rng.Intn(32)])
					hist = append(hist, fmt.Sprintf("Write(%d)", len(b)))
					n, err := sw.Write(b)
					if state == 2 {
						if err != nil || n != len(b) {
							fail("Write: %d, %v", n, err)
							return nil
						}
						want = append(want, b...)
						before = ""
					} else if err == nil || n != 0 {
						fail("Write after Close gives %d, %v", n, err)
						return nil
					}
				case 4:
					if sw == nil {
						continue
					}
					hist = append(hist, "Close")
					err := sw.Close()
					if state == 2 {
						if err != nil {
							fail("Close: %v", err)
							return nil
						}
						state = 3
						before = ""
					} else if err == nil {
						fail("second Close succeeded")
						return nil
					}
				}
				if before != "" && snap() != before {
					fail("a refused call changed the output from %s to %s", before, snap())
					return nil
				}
			}
			if state == 2 {
				if err := sw.Close(); err != nil {
					fail("final Close: %v", err)
					return nil
				}
				state = 3
			}
			if state == 0 || len(listed) == 0 {
				return nil
			}
			f, err := refParse(w.got, listed[0])
			if err == nil {
				err = f.checkSender(pubOf(s))
			}
			if err != nil {
				fail("output: %v", err)
				return nil
			}
			if w.closed != 1 {
				fail("output closed %d times", w.closed)
				return nil
			}
			if !bytes.Equal(f.pt, want) {
				fail("output holds %q, want %q", f.pt, want)
				return nil
			}
			if len(f.keys) != len(listed) {
				fail("%d keys in the header, %d recipients were added", len(f.keys), len(listed))
				return nil
			}
			for i, k := range listed {
				if !bytes.Equal(f.unwrap(i, k.Sk), f.key) {
					fail("header entry %d is not for the recipient added at that place", i)
					return nil
				}
			}
			return nil
		})
		if err != nil || p {
			fail("%v", err)
			return
		}
		r.ok("%s sender %v chunk %d", strings.Join(hist, ", "), s != nil, bs)
	}
	// every short sequence
	var jobs []func()
	for l := 1; l <= 5; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= 5
		}
		for v := 0; v < n; v++ {
			seq := []int{}
			for i, x := 0, v; i < l; i++ {
				seq = append(seq, x%5)
				x /= 5
			}
			v := v
			jobs = append(jobs, func() {
				var s *sign.PrivateKey
				if v%2 == 0 {
					s = snd
				}
				encSeq(append([]int{0}, seq...), newRng(int64(v)), s, 1+v%9)
				if v%5 == 0 {
					encSeq(seq, newRng(int64(v)), s, 7)
				}
			})
		}
	}
	for i := 0; i < 500; i++ {
		i := i
		jobs = append(jobs, func() {
			rng := newRng(int64(900000 + i))
			seq := []int{0}
			for k := 0; k < 12; k++ {
				seq = append(seq, []int{0, 0, 1, 2, 3, 3, 3, 4}[rng.Intn(8)])
			}
			encSeq(seq, rng, snd, 1+rng.Intn(12))
		})
	}

	// decryptors
	decSeq := func(seq []int, rng interface{ Intn(int) int }, raw []byte, pt []byte, s *sign.PrivateKey) {
		var hist []string
		fail := func(f string, a ...interface{}) {
			r.bad("calls %s: %s", strings.Join(hist, ", "), fmt.Sprintf(f, a...))
		}
		err, p := guard(func() error {
			in := bytes.NewReader(raw)
			d, err := sign.NewDecryptor(in)
			if err != nil {
				return err
			}
			state := 0 // 0 no key, 1 key, 2 batch done, 3 streaming, 4 stream ended
			var sr io.Reader
			var got []byte
			for _, op := range seq {
				left := in.Len()
				refused := true
				switch op {
				case 0:
					hist = append(hist, "SetPrivateKey")
					if state > 1 {
						continue
					}
					if err := d.SetPrivateKey(ks[0], pubOf(s)); err != nil {
						fail("SetPrivateKey: %v", err)
						return nil
					}
					state = 1
				case 1:
					hist = append(hist, "SetPrivateKey(stranger)")
					if err := d.SetPrivateKey(ks[1], pubOf(s)); !errors.Is(err, sign.ErrBadKey) {
						fail("SetPrivateKey of a stranger: %v", err)
						return nil
					}
				case 2:
					hist = append(hist, "Decrypt")
					var w bytes.Buffer
					err := d.Decrypt(&w)
					switch state {
					case 0:
						if !errors.Is(err, sign.ErrNoKey) {
							fail("Decrypt without a key: %v", err)
							return nil
						}
					case 1:
						if err != nil || !bytes.Equal(w.Bytes(), pt) {
							fail("Decrypt: %v, %q", err, w.Bytes())
							return nil
						}
						state = 2
						refused = false
					case 2:
						if err != io.EOF {
							fail("Decrypt after the end: %v", err)
							return nil
						}
					default:
						if err == nil {
							fail("Decrypt beside a stream reader succeeded")
							return nil
						}
					}
					if refused && w.Len() > 0 {
						fail("refused Decrypt gave %d bytes", w.Len())
						return nil
					}
				case 3:
					hist = append(hist, "NewStreamReader")
					x, err := d.NewStreamReader()
					switch state {
					case 0:
						if !errors.Is(err, sign.ErrNoKey) || x != nil {
							fail("NewStreamReader without a key: %v", err)
							return nil
						}
					case 1:
						if err != nil {
							fail("NewStreamReader: %v", err)
							return nil
						}
						sr, state = x, 3
					case 2:
						if err != io.EOF || x != nil {
							fail("NewStreamReader after the end: %v", err)
							return nil
						}
					case 3:
						if err == nil || x != nil {
							fail("a second NewStreamReader: %v", err)
							return nil
						}
					}
				case 4:
					if sr == nil {
						continue
					}
					b := make([]byte, 1+rng.Intn(20))
					hist = append(hist, fmt.Sprintf("Read(%d)", len(b)))
					n, err := sr.Read(b)
					got = append(got, b[:n]...)
					refused = false
					if state == 4 && (n != 0 || err != io.EOF) {
						fail("Read after the end: %d, %v", n, err)
						return nil
					}
					if err == io.EOF {
						if !bytes.Equal(got, pt) {
							fail("stream ended with %q, want %q", got, pt)
							return nil
						}
						state = 4
					} else if err != nil {
						fail("Read: %v", err)
						return nil
					}
					if !bytes.HasPrefix(pt, got) {
						fail("read %q of %q", got, pt)
						return nil
					}
				}
				if refused && in.Len() != left {
					fail("a refused call read %d bytes of input", left-in.Len())
					return nil
				}
			}
			if state == 3 {
				for {
					b := make([]byte, 7)
					n, err := sr.Read(b)
					got = append(got, b[:n]...)
					if err == io.EOF {
						break
					}
					if err != nil {
						fail("rest of the stream: %v", err)
						return nil
					}
				}
				if !bytes.Equal(got, pt) {
					fail("stream gave %q, want %q", got, pt)
				}
			}
			return nil
		})
		if err != nil || p {
			fail("%v", err)
			return
		}
		r.ok("%s of %d bytes sender %v", strings.Join(hist, ", "), len(pt), s != nil)
	}
	for _, s := range []*sign.PrivateKey{nil, snd} {
		for _, n := range []int{0, 5, 8, 30} {
			s := s
			pt := []byte("thirty bytes of text, or so !!"[:n])
			raw, err := enc(s, 8, pubs(ks[:1]), pt)
			if err != nil {
				r.bad("encrypt: %v", err)
				return
			}
			for l := 1; l <= 5; l++ {
				m := 1
				for i := 0; i < l; i++ {
					m *= 5
				}
				for v := 0; v < m; v++ {
					seq := []int{}
					for i, x := 0, v; i < l; i++ {
						seq = append(seq, x%5)
						x /= 5
					}
					v := v
					jobs = append(jobs, func() { decSeq(seq, newRng(int64(v)), raw, pt, s) })
				}
			}
		}
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
}
