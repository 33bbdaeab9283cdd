package sign_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC03(t *testing.T) {
	r := newRun(t, "a case is (file shape, sender, change made to the body, reading mode)")
	defer r.done()
	snd, other := genKey(t), genKey(t)
	rx, rx2 := genKey(t), genKey(t)

	// must fail, and what is handed out must be whole leading chunks (a prefix of them when streaming)
	reject := func(what string, raw []byte, pts [][]byte, s *sign.PrivateKey, stream int) {
		out, err, after := openAll(raw, rx, pubOf(s), stream)
		mode := "batch"
		if stream > 0 {
			mode = fmt.Sprintf("reads of %d", stream)
		}
		what = fmt.Sprintf("%s, sender %v, %s", what, s != nil, mode)
		if err == nil {
			r.bad("%s: accepted, gave %s (then %v)", what, short(out), after)
			return
		}
		if after == nil || after == io.EOF {
			r.bad("%s: failed, but the next call returned %v", what, after)
			return
		}
		var all []byte
		okay := len(out) == 0
		for _, p := range pts {
			all = append(all, p...)
			okay = okay || bytes.Equal(out, all)
		}
		if !okay {
			r.bad("%s: handed out %s, which is no sequence of leading chunks", what, short(out))
			return
		}
		r.ok("%s", what)
	}
	accept := func(what string, raw []byte, pt []byte, s *sign.PrivateKey) {
		for _, stream := range []int{0, 5} {
			out, err, after := openAll(raw, rx, pubOf(s), stream)
			if err != nil || !bytes.Equal(out, pt) || after != io.EOF {
				r.bad("%s: should be accepted: %v, %v, %s", what, err, after, short(out))
				return
			}
			r.ok("%s", what)
		}
	}
	seed := int64(0)
	var jobs []func()
	for _, bs := range []int{4, 16, 50} {
		for _, n := range []int{0, 1, bs - 1, bs, bs + 1, 2 * bs, 3*bs + 2, 4 * bs} {
			for _, s := range []*sign.PrivateKey{nil, snd} {
				for src := 0; src < 3; src++ {
					bs, n, s, src := bs, n, s, src
					seed++
					rng := newRng(seed)
					jobs = append(jobs, func() {
						pt := bytesOf(rng, n)
						ks := pubs([]*sign.PrivateKey{rx, rx2})
						var raw []byte
						var err error
						switch src {
						case 0:
							raw, err = enc(s, uint64(bs), ks, pt)
						case 1:
							raw, err = encStream(s, uint64(bs), ks, pt, func(l int) int { return 1 + rng.Intn(l) })
						case 2:
							f := refNew(refOpts{chunkSize: uint32(bs), rx: ks, snd: s, rng: rng})
							raw = append(f.head(), f.body(refSplit(pt, bs), s)...)
						}
						if err != nil {
							r.bad("encryption failed: %v", err)
							return
						}
						f, err := refParse(raw, rx)
						if err != nil {
							r.bad("cannot parse: %v", err)
							return
						}
						var pts, cs [][]byte
						for _, c := range f.chunks {
							pts = append(pts, c.pt)
							cs = append(cs, c.raw)
						}
						h := len(f.head())
						hd := f.head()
						shape := fmt.Sprintf("file %d of %d bytes in chunks of %d", src, n, bs)
						modes := []int{0, 1, 3, bs, 1000}
						all := func(what string, raw []byte) {
							for _, m := range modes {
								reject(shape+", "+what, raw, pts, s, m)
							}
						}
						cat := func(tr []byte, c ...[]byte) []byte {
							b := append([]byte{}, hd...)
							for _, x := range c {
								b = append(b, x...)
							}
							return append(b, tr...)
						}
						accept(shape+", unchanged", raw, pt, s)
						accept(shape+", bytes after the trailer", append(append([]byte{}, raw...), raw[h:]...), pt, s)
						// truncations at every byte
						for i := h; i < len(raw); i++ {
							for _, m := range []int{0, 3} {
								reject(fmt.Sprintf("%s, cut to %d bytes of body", shape, i-h), raw[:i], pts, s, m)
							}
						}
						// bit flips
						end := len(raw)
						if s == nil {
							end -= 64
						}
						for i := h; i < end; i++ {
							bits := []byte{1 << uint(rng.Intn(8))}
							if (i-h)%(bs+20) < 4 {
								bits = []byte{1, 2, 4, 8, 16, 32, 64, 128}
							}
							for _, m := range bits {
								b := append([]byte{}, raw...)
								b[i] ^= m
								reject(fmt.Sprintf("%s, body byte %d xor %d", shape, i-h, m), b, pts, s, []int{0, 7}[i%2])
							}
						}
						last := len(cs) - 1
						tr := f.trailer
						for i := range cs {
							if i < last {
								// the chunk that follows may be identical in effect only if it is the same chunk
								x := append([][]byte{}, cs[:i]...)
								x = append(x, cs[i+1])
								x = append(x, cs[i])
								x = append(x, cs[i+2:]...)
								all(fmt.Sprintf("chunks %d and %d swapped", i, i+1), cat(tr, x...))
							}
							if i < last {
								x := append(append([][]byte{}, cs[:i]...), cs[i+1:]...)
								all(fmt.Sprintf("chunk %d dropped", i), cat(tr, x...))
								x = append(append([][]byte{}, cs[:i+1]...), cs[i:]...)
								all(fmt.Sprintf("chunk %d doubled", i), cat(tr, x...))
								// early end
								e := append([]byte{}, cs[i]...)
								e[0] |= 0x80
								x = append(append([][]byte{}, cs[:i]...), e)
								all(fmt.Sprintf("chunk %d marked last, rest dropped", i), cat(tr, x...))
								x = append(append([][]byte{}, cs[:i]...), e)
								x = append(x, cs[i+1:]...)
								all(fmt.Sprintf("chunk %d marked last", i), cat(tr, x...))
								all(fmt.Sprintf("ends after chunk %d without a last one, trailer follows", i), cat(tr, cs[:i+1]...))
								all(fmt.Sprintf("ends after chunk %d", i), cat(nil, cs[:i+1]...))
							}
						}
						e := append([]byte{}, cs[last]...)
						e[0] &= 0x7f
						all("last chunk not marked", cat(tr, append(append([][]byte{}, cs[:last]...), e)...))
						all("last chunk not marked, then itself", cat(tr, append(append([][]byte{}, cs[:last]...), e, cs[last])...))
						// an empty last chunk in front or in place, with any tag
						for _, tag := range [][]byte{make([]byte, 16), bytesOf(rng, 16), cs[last][len(cs[last])-16:]} {
							z := append(be4(1<<31), tag...)
							if n > 0 {
								all("only an empty last chunk", cat(tr, z))
								all("empty last chunk appended", cat(tr, append(append([][]byte{}, cs[:last]...), e, z)...))
							}
							all("empty chunk without mark in front", cat(tr, append([][]byte{append(be4(0), tag...)}, cs...)...))
							for i := range cs {
								if len(pts[i]) > 0 {
									x := append(append([][]byte{}, cs[:i]...), z)
									all(fmt.Sprintf("forged empty last chunk at %d", i), cat(tr, x...))
									x = append(append([][]byte{}, cs[:i]...), z[:4])
									all(fmt.Sprintf("bare end mark at %d", i), cat(tr, x...))
									all(fmt.Sprintf("bare end mark at %d, nothing more", i), cat(nil, x...))
								}
							}
						}
						// lengths that do not fit
						for _, v := range []uint32{0x7fffffff, 0xffffffff, uint32(bs) + 1, uint32(bs) + 16, 1<<31 | uint32(bs) + 1, 0x7ffffff0, 0xfffffff0} {
							b := append([]byte{}, raw...)
							binary.BigEndian.PutUint32(b[h:], v)
							if v&0x7fffffff != uint32(len(pts[0])) {
								all(fmt.Sprintf("first chunk length %#x", v), b)
							}
						}
						// a chunk from another file of the same sender and recipient
						g := refNew(refOpts{chunkSize: uint32(bs), rx: ks, snd: s, rng: rng})
						gp := refSplit(bytesOf(rng, n), bs)
						for i := range cs {
							if i < len(gp) {
								x := append([][]byte{}, cs...)
								x[i] = g.chunk(uint32(i), gp[i], i == last)
								all(fmt.Sprintf("chunk %d from another file", i), cat(tr, x...))
							}
						}
						all("body of another file", append(append([]byte{}, hd...), g.body(gp, s)...))
						// the same root key under another header
						g2 := *f
						g2.salt = f.salt
						g2.keys = f.keys[:1]
						g2.finishHdr()
						all("body of a file with the same root key", append(append([]byte{}, hd...), g2.body(refSplit(pt, bs), s)...))
						// after a failure the decryptor must not resume further down
						junk := append([]byte{}, cs[0]...)
						junk[len(junk)-1] ^= 1
						all("forged first chunk, then the whole body", cat(tr, append([][]byte{junk}, cs...)...))
						if last >= 1 {
							j := append([]byte{}, cs[last]...)
							j[len(j)-1] ^= 1
							all("forged last chunk, then the whole body", cat(tr, append(append(append([][]byte{}, cs[:last]...), j), cs...)...))
						}

						// changes by someone who knows the keys (another recipient): the trailer protects
						if s == nil {
							return
						}
						forge := func(what string, p [][]byte, signer *sign.PrivateKey) {
							b := append([]byte{}, hd...)
							for i, x := range p {
								b = append(b, f.chunk(uint32(i), x, i == len(p)-1)...)
							}
							if signer != nil {
								b = append(b, f.trailerFor(p, signer)...)
							} else {
								b = append(b, tr...)
							}
							for _, m := range modes {
								out, err, after := openAll(b, rx, pubOf(s), m)
								w := fmt.Sprintf("%s, re-encrypted by a recipient: %s, mode %d", shape, what, m)
								if err == nil || after == nil || after == io.EOF {
									r.bad("%s: accepted (%v, %v), gave %s", w, err, after, short(out))
									continue
								}
								// the last chunk is given out only after the trailer was checked
								var lead []byte
								for _, x := range p[:len(p)-1] {
									lead = append(lead, x...)
								}
								if !bytes.HasPrefix(lead, out) {
									r.bad("%s: gave %s beyond the chunks before the last", w, short(out))
									continue
								}
								r.ok("%s", w)
							}
						}
						for i := range pts {
							if len(pts[i]) > 0 {
								x := append([][]byte{}, pts...)
								x[i] = append([]byte{}, x[i]...)
								x[i][rng.Intn(len(x[i]))] ^= 1 << uint(rng.Intn(8))
								forge(fmt.Sprintf("chunk %d changed", i), x, nil)
								forge(fmt.Sprintf("chunk %d changed, trailer by another key", i), x, other)
							}
							if i > 0 {
								forge(fmt.Sprintf("cut after chunk %d", i-1), pts[:i], nil)
								x := append([][]byte{}, pts...)
								x[i], x[i-1] = x[i-1], x[i]
								if !bytes.Equal(x[i], x[i-1]) && (len(x[i-1]) > 0) {
									forge(fmt.Sprintf("chunks %d and %d exchanged", i-1, i), x, nil)
								}
							}
							if len(pts[i]) > 1 {
								// same bytes, other boundaries
								x := append([][]byte{}, pts[:i]...)
								x = append(x, pts[i][:1], pts[i][1:])
								x = append(x, pts[i+1:]...)
								forge(fmt.Sprintf("chunk %d divided", i), x, nil)
							}
						}
						if n > 0 {
							forge("empty", [][]byte{{}}, nil)
							if n%bs != 0 && n < bs {
								forge("byte added", [][]byte{append(append([]byte{}, pt...), 0)}, nil)
							}
						}
						for i := 0; i < 64; i++ {
							b := append([]byte{}, raw...)
							b[len(b)-64+i] ^= 1 << uint(rng.Intn(8))
							reject(fmt.Sprintf("%s, trailer byte %d changed", shape, i), b, pts[:last], s, modes[i%len(modes)])
						}
						// the signature of the header in place of the trailer, and of another file
						b := append(append([]byte{}, raw[:len(raw)-64]...), f.sig...)
						all("header signature as trailer", b)
						if n > 0 {
							b = append(append([]byte{}, raw[:len(raw)-64]...), g.trailerFor(gp, s)...)
							all("trailer of another file", b)
						}
						b = append(append([]byte{}, raw[:len(raw)-64]...), make([]byte, 64)...)
						all("zero trailer", b)
					})
				}
			}
		}
	}
	// more chunks than a byte or two can count
	for _, s := range []*sign.PrivateKey{nil, snd} {
		s := s
		rng := newRng(7)
		jobs = append(jobs, func() {
			n := 300
			pt := bytesOf(rng, n)
			raw, err := enc(s, 1, pubs([]*sign.PrivateKey{rx}), pt)
			f, err2 := refParse(raw, rx)
			if err != nil || err2 != nil {
				r.bad("300 chunks: %v %v", err, err2)
				return
			}
			sw := func(i, j int) {
				x := append([]byte{}, f.head()...)
				var pts [][]byte
				for k := range f.chunks {
					m := k
					if k == i {
						m = j
					} else if k == j {
						m = i
					}
					x = append(x, f.chunks[m].raw...)
					pts = append(pts, f.chunks[k].pt)
				}
				x = append(x, f.trailer...)
				reject(fmt.Sprintf("300 chunks, %d and %d exchanged", i, j), x, pts, s, 0)
			}
			sw(1, 257)
			sw(0, 256)
			sw(3, 4)
			sw(0, 255)
			x := append([]byte{}, f.head()...)
			var pts [][]byte
			for k, c := range f.chunks {
				if k < 10 || k >= 266 {
					x = append(x, c.raw...)
				}
				pts = append(pts, c.pt)
			}
			reject("300 chunks, 256 dropped", append(x, f.trailer...), pts, s, 0)
		})
	}
	// two readers on one decryptor, or a batch call beside a reader: never anything unauthenticated
	for _, s := range []*sign.PrivateKey{nil, snd} {
		s := s
		rng := newRng(8)
		jobs = append(jobs, func() {
			pt := bytesOf(rng, 100)
			raw, _ := enc(s, 30, pubs([]*sign.PrivateKey{rx}), pt)
			d, err := sign.NewDecryptor(bytes.NewReader(raw))
			if err == nil {
				err = d.SetPrivateKey(rx, pubOf(s))
			}
			if err != nil {
				r.bad("open: %v", err)
				return
			}
			r1, err := d.NewStreamReader()
			if err != nil {
				r.bad("reader: %v", err)
				return
			}
			b := make([]byte, 5)
			n, _ := r1.Read(b)
			got := append([]byte{}, b[:n]...)
			if r2, err := d.NewStreamReader(); err == nil {
				r2.Read(make([]byte, 5))
			}
			var w bytes.Buffer
			d.Decrypt(&w)
			for {
				n, err := r1.Read(b)
				got = append(got, b[:n]...)
				if err != nil {
					break
				}
			}
			if !bytes.HasPrefix(pt, got) || w.Len() > 0 {
				r.bad("second reader or batch call beside a stream reader: the first reader gave %s for %s, the batch call %d bytes", short(got), short(pt), w.Len())
				return
			}
			r.ok("two readers, sender %v", s != nil)
		})
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
}
