package sign_test

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"regexp"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

// chopRand gives the random source's bytes in small pieces, as a reader may
type chopRand struct {
	src  io.Reader
	n    int
	left int // fails after that many bytes; -1: never
}

func (c *chopRand) Read(b []byte) (int, error) {
	if c.left == 0 {
		return 0, errors.New("out of randomness")
	}
	n := c.n
	if n > len(b) {
		n = len(b)
	}
	if c.left > 0 && n > c.left {
		n = c.left
	}
	if c.left > 0 {
		c.left -= n
	}
	return io.ReadFull(c.src, b[:n])
}

type drawn struct {
	kind string
	b    []byte
	who  string
}

func TestVerifC19(t *testing.T) {
	r := newRun(t, "a case is a random quantity (which, of which object) compared with all the others; or a random source behaving in a given way")
	defer r.done()
	snd := genKey(t)
	ks := keys(t, 5)

	var all []drawn
	esk := map[string][]byte{}
	var make1 func(who string, s *sign.PrivateKey, mode int, rec *recRand)
	make1 = func(who string, s *sign.PrivateKey, mode int, rec *recRand) {
		var out []byte
		var err error
		pt := []byte("the same text every time")
		if mode == 0 {
			out, err = enc(s, 16, pubs(ks), pt)
		} else {
			out, err = encStream(s, 16, pubs(ks), pt, func(l int) int { return 5 })
		}
		if err != nil {
			r.bad("%s: %v", who, err)
			return
		}
		f, err := refParse(out, ks[0])
		if err != nil {
			r.bad("%s: %v", who, err)
			return
		}
		d := []drawn{{"root key", f.key, who}, {"salt", f.salt, who}, {"ephemeral public key", f.pk, who}}
		for i, k := range f.keys {
			d = append(d, drawn{fmt.Sprintf("nonce of wrapped key %d", i), k.nonce, who})
		}
		if s == nil {
			d = append(d, drawn{"trailer of an anonymous file", f.trailer, who})
		}
		// where each comes from, if the source is the one that was recorded
		if rec != nil && bytes.Contains(rec.log, f.key) {
			type span struct {
				n    string
				a, b int
			}
			var sp []span
			for _, x := range d {
				if x.kind == "ephemeral public key" {
					for i := 0; i+32 <= len(rec.log); i++ {
						e := append([]byte{}, rec.log[i:i+32]...)
						e[0] &= 248
						e[31] = e[31]&127 | 64
						if bytes.Equal(refXPub(e), x.b) {
							sp = append(sp, span{x.kind, i, i + 32})
							esk[who] = e
							break
						}
					}
					continue
				}
				i := bytes.Index(rec.log, x.b)
				if i < 0 {
					r.bad("%s: the %s %x was not drawn from the random source (while the root key was)", who, x.kind, x.b)
					return
				}
				sp = append(sp, span{x.kind, i, i + len(x.b)})
			}
			for i, x := range sp {
				for _, y := range sp[:i] {
					if x.a < y.b && y.a < x.b {
						r.bad("%s: %s and %s share random bytes", who, x.n, y.n)
						return
					}
				}
			}
		}
		all = append(all, d...)
	}
	withRand(func(rec *recRand) {
		for i := 0; i < 60; i++ {
			rec.log = nil
			var s *sign.PrivateKey
			if i%3 == 2 {
				s = snd
			}
			make1(fmt.Sprintf("encryptor %d", i), s, i%2, rec)
		}
	})
	// the source may give fewer bytes than asked for
	old := rand.Reader
	for _, n := range []int{1, 5, 11, 31} {
		rand.Reader = &chopRand{old, n, -1}
		make1(fmt.Sprintf("encryptor with a random source giving %d bytes at a time", n), nil, n%2, nil)
		k, err := sign.NewPrivateKey()
		rand.Reader = old
		if err != nil {
			r.bad("key generation with a random source giving %d bytes at a time: %v", n, err)
			continue
		}
		all = append(all, drawn{"seed", append([]byte{}, k.Sk[:32]...), fmt.Sprintf("key made with a random source giving %d bytes at a time", n)})
	}
	// and it may fail: no object may come out of that with missing randomness
	for _, left := range []int{1, 4, 11, 12, 20, 31, 32, 33, 40, 63, 64, 65, 80, 95, 96, 97, 100, 107, 108, 120, 150, 160, 170, 200, 219, 221} {
		rand.Reader = &chopRand{old, 1 << 20, left}
		who := fmt.Sprintf("encryptor with a random source failing after %d bytes", left)
		out, err := enc(nil, 16, pubs(ks), []byte("text"))
		rand.Reader = old
		if err == nil {
			if f, err := refParse(out, ks[0]); err == nil {
				all = append(all, drawn{"root key", f.key, who}, drawn{"salt", f.salt, who}, drawn{"ephemeral public key", f.pk, who}, drawn{"trailer of an anonymous file", f.trailer, who})
				for i, k := range f.keys {
					all = append(all, drawn{fmt.Sprintf("nonce of wrapped key %d", i), k.nonce, who})
				}
			}
		}
		var k *sign.PrivateKey
		rand.Reader = &chopRand{old, 1 << 20, left}
		err, _ = guard(func() (err error) { k, err = sign.NewPrivateKey(); return })
		rand.Reader = old
		if err == nil && k != nil {
			all = append(all, drawn{"seed", append([]byte{}, k.Sk[:32]...), fmt.Sprintf("key made with a random source failing after %d bytes", left)})
		}
		r.ok("random source failing after %d", left)
	}
	for i := 0; i < 300; i++ {
		k := genKey(t)
		all = append(all, drawn{"seed", append([]byte{}, k.Sk[:32]...), fmt.Sprintf("generated key %d", i)})
	}
	// salts of serialized keys
	saltRE := regexp.MustCompile(`(?m)^salt: *"?([A-Za-z0-9+/=]+)`)
	n := 6
	if thorough {
		n = 40
	}
	for i := 0; i < n; i++ {
		k := snd
		if i%3 == 2 {
			k = ks[0]
		}
		if i == 1 {
			rand.Reader = &chopRand{old, 3, -1}
		}
		b, err := k.MarshalBinary("same comment", []byte("same password"))
		rand.Reader = old
		if err != nil {
			r.bad("MarshalBinary: %v", err)
			continue
		}
		m := saltRE.FindSubmatch(b)
		if m == nil {
			r.bad("serialized private key has no salt: %s", b)
			continue
		}
		s, err := base64.StdEncoding.DecodeString(string(m[1]))
		if err != nil || len(s) != 32 {
			r.bad("salt of a serialized private key: %x %v", s, err)
			continue
		}
		all = append(all, drawn{"salt", s, fmt.Sprintf("serialized private key %d", i)})
	}
	// nothing shared, truncated, constant or derived by plain hashing
	pieces := map[string]drawn{}
	for _, d := range all {
		for i := 0; i+7 <= len(d.b); i++ {
			p := string(d.b[i : i+7])
			if p == string(make([]byte, 7)) {
				r.bad("%s of %s has zero bytes at %d: %x", d.kind, d.who, i, d.b)
				return
			}
			if o, ok := pieces[p]; ok && !(o.who == d.who && o.kind == d.kind) {
				r.bad("%s of %s and %s of %s have the bytes %x in common", d.kind, d.who, o.kind, o.who, p)
				return
			} else if ok && len(d.b) > 12 {
				r.bad("%s of %s repeats %x", d.kind, d.who, p)
				return
			}
			pieces[p] = d
		}
		r.ok("%s of %s", d.kind, d.who)
	}
	for _, d := range all {
		h1, h2 := sha256.Sum256(d.b), sha512.Sum512(d.b)
		for _, h := range [][]byte{h1[:], h2[:]} {
			for i := 0; i+7 <= len(h); i++ {
				if o, ok := pieces[string(h[i:i+7])]; ok {
					r.bad("%s of %s contains a hash of %s of %s", o.kind, o.who, d.kind, d.who)
					return
				}
			}
		}
	}
	// every byte position takes many values
	by := map[string][][]byte{}
	for _, d := range all {
		k := d.kind
		if len(k) > 5 && k[:5] == "nonce" {
			k = "nonce of a wrapped key"
		}
		by[k] = append(by[k], d.b)
	}
	for k, v := range by {
		if len(v) < 40 {
			continue
		}
		for i := range v[0] {
			seen := map[byte]bool{}
			for _, b := range v {
				if i < len(b) {
					seen[b[i]] = true
				}
			}
			if len(seen) < 15 {
				r.bad("byte %d of the %s takes only %d values in %d samples", i, k, len(seen), len(v))
				return
			}
		}
		r.ok("spread of the %s over %d samples", k, len(v))
	}
}
