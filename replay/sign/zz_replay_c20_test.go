package sign_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

// output against the documented format, and files put together by the document against the code
func TestVerifC20(t *testing.T) {
	r := newRun(t, "a case is (direction, mode, chunk size, plaintext length, sender, number of recipients)")
	defer r.done()
	snd := genKey(t)
	ks := keys(t, 5)
	type job func()
	var jobs []job
	seed := int64(0)
	add := func(dir int, bs, n int, auth bool, nr int) {
		seed++
		sd := seed
		jobs = append(jobs, func() {
			rng := newRng(sd)
			pt := bytesOf(rng, n)
			var s *sign.PrivateKey
			if auth {
				s = snd
			}
			what := fmt.Sprintf("chunk size %d, %d bytes, sender %v, %d recipients", bs, n, auth, nr)
			pos := rng.Intn(nr)
			switch dir {
			case 0, 1:
				mode := "batch"
				var out []byte
				var err error
				if dir == 0 {
					out, err = enc(s, uint64(bs), pubs(ks[:nr]), pt)
				} else {
					mode = "stream"
					out, err = encStream(s, uint64(bs), pubs(ks[:nr]), pt, func(l int) int { return 1 + rng.Intn(l) })
				}
				if err != nil {
					r.bad("%s %s: %v", mode, what, err)
					return
				}
				f, err := refParse(out, ks[pos])
				if err == nil {
					err = f.checkSender(pubOf(s))
				}
				want := uint32(bs)
				if bs == 0 {
					want = 4 << 20
				}
				if err == nil && f.chunkSize != want {
					err = fmt.Errorf("chunk size field %d", f.chunkSize)
				}
				if err == nil && len(f.keys) != nr {
					err = fmt.Errorf("%d wrapped keys", len(f.keys))
				}
				if err == nil && !bytes.Equal(f.pt, pt) {
					err = fmt.Errorf("contains other plaintext")
				}
				if err == nil {
					for i := 0; i < nr; i++ {
						if !bytes.Equal(f.unwrap(i, ks[i].Sk), f.key) {
							err = fmt.Errorf("wrapped key %d is not the root key for recipient %d", i, i)
						}
					}
				}
				if err != nil {
					r.bad("%s %s: output is not the version 3 format: %v", mode, what, err)
					return
				}
				r.ok("%s %s", mode, what)
			default:
				f := refNew(refOpts{chunkSize: uint32(bs), rx: pubs(ks[:nr]), snd: s, rng: rng})
				pts := refSplit(pt, bs)
				if dir == 3 && len(pts) > 1 && len(pts[len(pts)-1]) == 0 {
					pts = pts[:len(pts)-1]
				}
				raw := append(f.head(), f.body(pts, s)...)
				got, err := dec(raw, ks[pos], pubOf(s))
				if err != nil || !bytes.Equal(got, pt) {
					r.bad("%s: a file made by the document is not decrypted: %v, %s for %s", what, err, short(got), short(pt))
					return
				}
				got, err = decStream(raw, ks[pos], pubOf(s), func() int { return 1 + rng.Intn(bs+5) })
				if err != nil || !bytes.Equal(got, pt) {
					r.bad("%s: a file made by the document is not read in streaming mode: %v, %s for %s", what, err, short(got), short(pt))
					return
				}
				r.ok("documented file, last chunk style %d, %s", dir, what)
			}
		})
	}
	for _, bs := range []int{1, 2, 16, 100, 127, 128, 129, 255, 256, 4096, 16383, 16384, 65535, 65536, 1 << 17} {
		for _, n := range sizesAround(bs) {
			for dir := 0; dir < 4; dir++ {
				add(dir, bs, n, false, 1)
				add(dir, bs, n, true, 1+n%3)
			}
		}
	}
	for nr := 1; nr <= 5; nr++ {
		for dir := 0; dir < 4; dir++ {
			add(dir, 50, 120, nr%2 == 0, nr)
		}
	}
	for _, n := range []int{255, 256, 257, 300, 65535, 65536, 65537, 66000} {
		for dir := 0; dir < 4; dir++ {
			add(dir, 1, n, dir == 0, 1)
		}
	}
	for _, n := range []int{0, 5, 4194303, 4194304, 4194305} {
		add(0, 0, n, n > 10, 2)
		add(1, 0, n, n > 10, 2)
	}
	for _, bs := range []int{1<<21 - 1, 1 << 21, 1<<21 + 1} {
		for dir := 0; dir < 3; dir++ {
			add(dir, bs, bs+1, dir == 1, 1)
		}
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
	for _, c := range []struct{ bs, want uint64 }{{0, 4 << 20}, {1<<30 - 1, 1<<30 - 1}, {1 << 30, 1 << 30}, {1<<30 + 1, 1 << 30}, {1 << 32, 1 << 30}, {1<<33 + 7, 1 << 30}, {1<<64 - 1, 1 << 30}} {
		out, err := enc(snd, c.bs, pubs(ks[:1]), []byte("hello"))
		if err != nil {
			r.bad("chunk size %d: %v", c.bs, err)
			continue
		}
		f, err := refParse(out, ks[0])
		if err == nil {
			err = f.checkSender(snd.PublicKey())
		}
		if err == nil && uint64(f.chunkSize) != c.want {
			err = fmt.Errorf("chunk size field %d, want %d", f.chunkSize, c.want)
		}
		if err != nil {
			r.bad("chunk size %d: output is not the version 3 format: %v", c.bs, err)
			continue
		}
		r.ok("requested chunk size %d", c.bs)
	}
	many := keys(t, 300)
	for _, nr := range []int{100, 180, 255, 256, 300} {
		out, err := enc(nil, 64, pubs(many[:nr]), []byte("hello"))
		if err != nil {
			r.bad("%d recipients: %v", nr, err)
			continue
		}
		for _, p := range []int{0, nr / 2, nr - 1} {
			f, err := refParse(out, many[p])
			if err == nil && (len(f.keys) != nr || f.unwrap(p, many[p].Sk) == nil) {
				err = fmt.Errorf("%d keys, key %d does not open", len(f.keys), p)
			}
			if err != nil {
				r.bad("%d recipients: %v", nr, err)
				break
			}
		}
		r.ok("%d recipients", nr)
	}
}
