package sign_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC02(t *testing.T) {
	r := newRun(t, "a case is (chunk size, plaintext length, how it is written, how it is read, sender)")
	defer r.done()
	snd := genKey(t)
	k := genKey(t)
	splits := func(bs int, kind int, seed int64) (string, func(int) int) {
		rng := newRng(seed)
		one := func(f func(l int) int) func(int) int {
			return func(l int) int {
				n := f(l)
				if n < 0 {
					n = 0
				}
				return n
			}
		}
		switch kind {
		case 0:
			return "all at once", one(func(l int) int { return l })
		case 1:
			return "byte by byte", one(func(l int) int { return 1 })
		case 2:
			return "in chunk size pieces", one(func(l int) int { return bs })
		case 3:
			return "in pieces one less than a chunk", one(func(l int) int {
				if bs == 1 {
					return 1
				}
				return bs - 1
			})
		case 4:
			return "in pieces one more than a chunk", one(func(l int) int { return bs + 1 })
		case 5:
			return "in pieces of two chunks", one(func(l int) int { return 2 * bs })
		case 6:
			z := false
			return "with empty calls in between", one(func(l int) int {
				if z = !z; z {
					return 0
				}
				return 1 + rng.Intn(bs+bs/2+1)
			})
		case 7:
			first := true
			return "one byte, then the rest", one(func(l int) int {
				if first {
					first = false
					return 1
				}
				return 1 << 30
			})
		case 8:
			return "in pieces of two and a half chunks", one(func(l int) int { return 2*bs + (bs+1)/2 })
		}
		return fmt.Sprintf("in random pieces %d", kind), one(func(l int) int { return 1 + rng.Intn(3*bs) })
	}
	type job func()
	var jobs []job
	seed := int64(0)
	add := func(bs, n int, auth bool, wk, rk int) {
		seed += 3
		sd := seed
		jobs = append(jobs, func() {
			rng := newRng(sd)
			pt := bytesOf(rng, n)
			var s *sign.PrivateKey
			if auth {
				s = snd
			}
			var ct []byte
			var err error
			wn := "batch"
			if wk < 0 {
				ct, err = enc(s, uint64(bs), pubs([]*sign.PrivateKey{k}), pt)
			} else {
				var f func(int) int
				wn, f = splits(bs, wk, sd+1)
				ct, err = encStream(s, uint64(bs), pubs([]*sign.PrivateKey{k}), pt, f)
			}
			rn, rf := "batch", func(int) int { return 0 }
			if rk >= 0 {
				rn, rf = splits(bs, rk, sd+2)
			}
			what := fmt.Sprintf("chunk size %d, %d bytes, sender %v, written %s, read %s", bs, n, auth, wn, rn)
			if err != nil {
				r.bad("%s: writing failed: %v", what, err)
				return
			}
			f, err := refParse(ct, k)
			if err != nil {
				r.bad("%s: not a valid stream: %v", what, err)
				return
			}
			if !bytes.Equal(f.pt, pt) {
				r.bad("%s: stream contains %s, want %s", what, short(f.pt), short(pt))
				return
			}
			for i, c := range f.chunks {
				if i < len(f.chunks)-1 && len(c.pt) != bs {
					r.bad("%s: chunk %d of %d holds %d bytes", what, i, len(f.chunks), len(c.pt))
				}
			}
			if k := len(f.chunks); wk >= 0 && k > 1 && len(f.chunks[k-1].pt) == 0 {
				r.bad("%s: the last chunk of the stream is empty", what)
			}
			var got []byte
			if rk < 0 {
				got, err = dec(ct, k, pubOf(s))
			} else {
				got, err = decStream(ct, k, pubOf(s), func() int {
					if rk == 0 {
						return n + 1
					}
					return rf(1 << 20)
				})
			}
			if err != nil || !bytes.Equal(got, pt) {
				r.bad("%s: read %s, %v; want %s", what, short(got), err, short(pt))
				return
			}
			r.ok("%s", what)
		})
	}
	for _, bs := range []int{1, 2, 3, 8, 64, 1000, 4096} {
		for _, n := range append(sizesAround(bs), 7*bs, 10*bs+3) {
			for k := 0; k <= 10; k++ {
				if k == 9 {
					continue
				}
				add(bs, n, k%2 == 0, k, -1)
				add(bs, n, k%2 == 1, k, (k+3)%9)
				add(bs, n, k%3 == 1, -1, k)
			}
		}
	}
	for i := 0; i < 400; i++ {
		rng := newRng(int64(i))
		bs := 1 + rng.Intn(40)
		add(bs, rng.Intn(6*bs), i%2 == 0, 20+i, 20+i)
	}
	for _, n := range []int{255, 256, 257, 65536, 65537, 66000} {
		add(1, n, true, 0, 0)
		add(1, n, false, 1, 5)
		add(1, n, false, 8, -1)
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
	jobs = nil
	for _, n := range []int{0, 4 << 20, 4<<20 + 1, 8 << 20, 9 << 20} {
		add(4<<20, n, true, 0, 0)
		add(4<<20, n, false, 4, 3)
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
}
