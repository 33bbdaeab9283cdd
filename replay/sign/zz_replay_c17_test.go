package sign_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC17(t *testing.T) {
	r := newRun(t, "a case is (operation, data, where and how the reader or writer fails, how much the writer takes at a time)")
	defer r.done()
	snd, rx := genKey(t), genKey(t)
	rng := newRng(17)
	pt := bytesOf(rng, 70)
	steps := []func(n int) int{
		func(n int) int { return n },
		func(n int) int { return 1 },
		func(n int) int { return (n + 1) / 2 },
		func(n int) int {
			if n > 1 {
				return n - 1
			}
			return n
		},
		func(n int) int { return 7 },
	}
	errs := []error{errSpy, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}
	newE := func(s *sign.PrivateKey) *sign.Encryptor {
		e, err := sign.NewEncryptor(s, 16)
		if err == nil {
			err = e.AddRecipient(rx.PublicKey())
		}
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	good := func(out []byte, s *sign.PrivateKey, want []byte) error {
		f, err := refParse(out, rx)
		if err == nil {
			err = f.checkSender(pubOf(s))
		}
		if err == nil && !bytes.Equal(f.pt, want) {
			err = errors.New("other plaintext")
		}
		return err
	}
	for _, s := range []*sign.PrivateKey{nil, snd} {
		for _, n := range []int{0, 16, 32, 70} {
			total := 0
			{
				w := &oddW{step: steps[0], limit: -1}
				newE(s).Encrypt(bytes.NewReader(pt[:n]), w)
				total = len(w.got)
			}
			for si, step := range steps {
				what := fmt.Sprintf("%d bytes, sender %v, writer pattern %d", n, s != nil, si)
				for mode := 0; mode < 2; mode++ {
					encrypt := func(w *oddW) (err error, sw io.WriteCloser) {
						e := newE(s)
						if mode == 0 {
							return e.Encrypt(bytes.NewReader(pt[:n]), w), nil
						}
						sw, err = e.NewStreamWriter(w)
						if err != nil {
							return err, nil
						}
						for i := 0; i < n; i += 10 {
							k := n - i
							if k > 10 {
								k = 10
							}
							m, err := sw.Write(pt[i : i+k])
							if err == nil && m != k {
								return errors.New("short Write count without an error"), sw
							}
							if err != nil {
								return err, sw
							}
						}
						return sw.Close(), sw
					}
					// a writer that works
					w := &oddW{step: step, limit: -1}
					err, _ := encrypt(w)
					if err == nil {
						err = good(w.got, s, pt[:n])
					}
					if err == nil && w.closed != 1 {
						err = fmt.Errorf("output closed %d times", w.closed)
					}
					if err != nil {
						r.bad("%s, mode %d: %v", what, mode, err)
						continue
					}
					r.ok("%s, mode %d, no failure", what, mode)
					// closing fails
					w = &oddW{step: step, limit: -1, cerr: errSpy}
					if err, _ = encrypt(w); err == nil {
						r.bad("%s, mode %d: closing the output failed but success was reported", what, mode)
					}
					// failure after every byte
					lim := total
					if mode == 1 && n > 0 && n%16 == 0 {
						lim -= 20
					}
					for at := 0; at < lim; at++ {
						w := &oddW{step: step, limit: at, err: errs[at%len(errs)], with: at%2 == 0}
						err, sw := encrypt(w)
						if err == nil {
							r.bad("%s, mode %d: the writer failed (%v) after %d of %d bytes but success was reported", what, mode, w.err, at, lim)
							break
						}
						if sw != nil {
							n, e1 := sw.Write([]byte("more"))
							e2 := sw.Close()
							if e1 == nil || e2 == nil || n != 0 {
								r.bad("%s: stream that failed after %d bytes: later Write gave %d, %v, Close %v", what, at, n, e1, e2)
								break
							}
						}
						r.ok("%s, mode %d, writer fails after %d", what, mode, at)
					}
				}
			}
			// the reader fails
			for at := 0; at <= n; at++ {
				for ei, e := range []error{errSpy, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, fmt.Errorf("wrapped: %w", io.EOF)} {
					for k := 0; k < 4; k++ {
						var rd io.Reader = &errReader{pt[:at], e}
						if k > 0 {
							rd = &pieceReader{b: append([]byte{}, pt[:at]...), split: func(l int) int { return []int{1, 16, 5}[k-1] }, end: e, with: at < 60 && at%16 != 0}
						}
						w := &oddW{step: steps[0], limit: -1}
						err := newE(s).Encrypt(rd, w)
						if err == nil {
							r.bad("sender %v: the reader failed with %v after %d of %d bytes (reader kind %d) but Encrypt reported success", s != nil, e, at, n, k)
							return
						}
						r.ok("sender %v, reader kind %d fails after %d with error %d", s != nil, k, at, ei)
					}
				}
			}
			// decryption
			ct, err := enc(s, 16, pubs([]*sign.PrivateKey{rx}), pt[:n])
			if err != nil {
				r.bad("encrypt: %v", err)
				continue
			}
			open := func(rd io.Reader) (*sign.Decryptor, error) {
				d, err := sign.NewDecryptor(rd)
				if err == nil {
					err = d.SetPrivateKey(rx, pubOf(s))
				}
				return d, err
			}
			for si, step := range steps {
				for at := -1; at < n; at++ {
					d, err := open(bytes.NewReader(ct))
					if err != nil {
						r.bad("open: %v", err)
						return
					}
					w := &oddW{step: step, limit: at, err: errs[(at+1)%len(errs)], with: at%2 == 0}
					err = d.Decrypt(w)
					if at >= 0 && err == nil {
						r.bad("decrypting %d bytes: the writer (pattern %d) failed after %d but success was reported", n, si, at)
						break
					}
					if at < 0 && (err != nil || !bytes.Equal(w.got, pt[:n])) {
						r.bad("decrypting %d bytes to a writer of pattern %d: %v, %s", n, si, err, short(w.got))
						break
					}
					if err != nil {
						if e := d.Decrypt(&bytes.Buffer{}); e == nil {
							r.bad("decrypting %d bytes: failed (%v), the next call succeeded", n, err)
							break
						}
					}
					r.ok("decrypt %d bytes, sender %v, writer pattern %d fails after %d", n, s != nil, si, at)
				}
			}
			for at := 0; at < len(ct); at++ {
				for ei, e := range errs {
					for k := 0; k < 3; k++ {
						var rd io.Reader = &errReader{ct[:at], e}
						if k > 0 {
							rd = &pieceReader{b: append([]byte{}, ct[:at]...), split: func(l int) int { return []int{1, 9}[k-1] }, end: e}
						}
						d, err := open(rd)
						if err == nil {
							var w bytes.Buffer
							if k == 1 {
								var sr io.Reader
								sr, err = d.NewStreamReader()
								if err == nil {
									b := make([]byte, 6)
									for err == nil {
										_, err = sr.Read(b)
									}
									if err == io.EOF {
										r.bad("stream of %d bytes whose input failed with %v after %d: ended like a complete one", n, e, at)
										return
									}
									if _, e2 := sr.Read(b); e2 == nil || e2 == io.EOF {
										r.bad("stream of %d bytes whose input failed with %v after %d: the failure %v is not kept, next Read gives %v", n, e, at, err, e2)
										return
									}
								}
							} else {
								err = d.Decrypt(&w)
							}
						}
						if err == nil {
							r.bad("decrypting %d bytes: the input failed with %v after %d of %d but success was reported", n, e, at, len(ct))
							return
						}
						r.ok("decrypt %d bytes, sender %v, reader %d fails after %d with %d", n, s != nil, k, at, ei)
					}
				}
			}
			// a short input split in any way reads the same
			for k := 1; k < 20; k++ {
				d, err := open(&pieceReader{b: append([]byte{}, ct...), split: func(l int) int { return k }, end: io.EOF, with: k%2 == 0})
				var w bytes.Buffer
				if err == nil {
					err = d.Decrypt(&w)
				}
				if err != nil || !bytes.Equal(w.Bytes(), pt[:n]) {
					r.bad("decrypting %d bytes from a reader giving %d at a time: %v", n, k, err)
				}
				r.ok("decrypt from pieces of %d", k)
			}
		}
	} // a writer that takes nothing now and then, a writer and an input that fail once and then work
	for _, s := range []*sign.PrivateKey{nil, snd} {
		for _, n := range []int{0, 16, 39, 70} {
			for every := 2; every < 7; every++ {
				call := 0
				idle := func(n int) int {
					if call++; call%every == 0 {
						return 0
					}
					return (n + 1) / 2
				}
				w := &oddW{step: idle, limit: -1}
				if err := newE(s).Encrypt(bytes.NewReader(pt[:n]), w); err == nil {
					if err = good(w.got, s, pt[:n]); err != nil {
						r.bad("%d bytes, sender %v: the writer took nothing on every %dth call, Encrypt reported success: %v", n, s != nil, every, err)
					}
				}
				ct, err := enc(s, 16, pubs([]*sign.PrivateKey{rx}), pt[:n])
				if err != nil {
					r.bad("encrypt: %v", err)
					continue
				}
				w = &oddW{step: idle, limit: -1}
				d, err := sign.NewDecryptor(bytes.NewReader(ct))
				if err == nil {
					err = d.SetPrivateKey(rx, pubOf(s))
				}
				if err == nil {
					if err = d.Decrypt(w); err == nil && !bytes.Equal(w.got, pt[:n]) {
						r.bad("decrypting %d bytes, sender %v: the writer took nothing on every %dth call, success was reported with %s", n, s != nil, every, short(w.got))
					}
				}
				r.ok("writer idle on every %dth call, %d bytes, sender %v", every, n, s != nil)
			}
			for at := 1; at < 14; at++ {
				w := &blinkW{at: at}
				sw, err := newE(s).NewStreamWriter(w)
				for i := 0; i < n && err == nil; i += 10 {
					_, err = sw.Write(pt[i:min2b(i+10, n)])
				}
				if sw != nil && err != nil {
					n, e1 := sw.Write([]byte("more"))
					e2 := sw.Close()
					if e1 == nil || e2 == nil || n != 0 {
						r.bad("a stream whose output failed once, at call %d: later Write gave %d, %v, Close %v", at, n, e1, e2)
					}
				}
				r.ok("output fails once, call %d, %d bytes, sender %v", at, n, s != nil)
			}
			ct, err := enc(s, 16, pubs([]*sign.PrivateKey{rx}), pt[:n])
			if err != nil {
				continue
			}
			for at := 0; at < len(ct); at++ {
				for mode := 0; mode < 2; mode++ {
					d, err := sign.NewDecryptor(&blinkR{b: append([]byte{}, ct...), at: at})
					if err == nil {
						err = d.SetPrivateKey(rx, pubOf(s))
					}
					if err != nil {
						continue
					}
					r.ok("input fails once after %d of %d, sender %v, mode %d", at, len(ct), s != nil, mode)
					if mode == 0 {
						if e1, e2 := d.Decrypt(&bytes.Buffer{}), d.Decrypt(&bytes.Buffer{}); e1 == nil || e2 == nil {
							r.bad("the input failed once after %d of %d: Decrypt gave %v, then %v", at, len(ct), e1, e2)
						}
						continue
					}
					sr, err := d.NewStreamReader()
					b := make([]byte, 6)
					for err == nil {
						_, err = sr.Read(b)
					}
					if sr == nil || err == io.EOF {
						r.bad("the input failed once after %d of %d: the stream ended with %v", at, len(ct), err)
						continue
					}
					for i := 0; i < 3; i++ {
						if n, e := sr.Read(b); n != 0 || e == nil || e == io.EOF {
							r.bad("the input failed once after %d of %d: Read failed with %v, the next gave %d, %v", at, len(ct), err, n, e)
						}
					}
				}
			}
		}
	}
}

func min2b(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// blinkW fails on one call and works again afterwards
type blinkW struct {
	n, at int
}

func (w *blinkW) Write(b []byte) (int, error) {
	if w.n++; w.n == w.at {
		return 0, errSpy
	}
	return len(b), nil
}
func (w *blinkW) Close() error { return nil }

// blinkR fails once after at bytes and works again afterwards
type blinkR struct {
	b    []byte
	at   int
	done bool
}

func (r *blinkR) Read(b []byte) (int, error) {
	if r.at == 0 && !r.done {
		r.done = true
		return 0, errSpy
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if !r.done && len(b) > r.at {
		b = b[:r.at]
	}
	n := copy(b, r.b)
	r.b = r.b[n:]
	if !r.done {
		r.at -= n
	}
	return n, nil
}
