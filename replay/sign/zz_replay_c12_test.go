package sign_test

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC12(t *testing.T) {
	r := newRun(t, "a case is a key or signature, a comment, a password and an edit of the serialized form")
	defer r.done()
	dir := t.TempDir()
	rng := newRng(12)

	// serialized by the code under test, read by code and reference
	pws := [][]byte{nil, []byte("a"), []byte("correct horse"), bytes.Repeat([]byte("x"), 64), bytes.Repeat([]byte("y"), 65), bytes.Repeat([]byte("z"), 100), bytes.Repeat([]byte("w"), 5000), {0}, {0, 0}, []byte("pass\n"), {0xff, 0xfe}}
	if !thorough {
		pws = pws[:6]
	}
	sem := make(chan bool, 5) // a derivation takes half a gigabyte
	var wg sync.WaitGroup
	var salts sync.Map
	for i, pw := range pws {
		i, pw := i, pw
		sk := newSk(rng)
		k := skRef(t, sk)
		if i%2 == 0 {
			k.ToCurve25519SK()
		}
		comment := oddComments[rng.Intn(len(oddComments))]
		fn := filepath.Join(dir, fmt.Sprintf("key%d", i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if e := recover(); e != nil {
					r.bad("password %x: panic: %v %s", pw, e, stack())
				}
			}()
			var doc []byte
			var err error
			if i%2 == 0 {
				doc, err = k.MarshalBinary(comment, pw)
			} else {
				if err = k.Serialize(fn, comment, false, pw); err == nil {
					doc, err = os.ReadFile(fn)
				}
			}
			if err != nil {
				r.bad("serializing with comment %q, password %x: %v", comment, pw, err)
				return
			}
			for _, x := range [][]byte{sk, sk[:32], refCurveSK(sk[:32])} {
				for _, e := range []string{string(x), string(x[:16]), hex.EncodeToString(x[:16]), b64(x)[:16], base64.RawURLEncoding.EncodeToString(x)[:16]} {
					if strings.Contains(string(doc), e) {
						r.bad("serialized key shows secret key %x: %s", sk, doc)
						return
					}
				}
			}
			got, salt, err := refReadPriv(doc, pw)
			if err != nil || !bytes.Equal(got, sk) {
				r.bad("serialized key of seed %x with comment %q, password %x: reference reads %x, %v", sk[:32], comment, pw, got, err)
				return
			}
			if _, dup := salts.LoadOrStore(string(salt), true); dup {
				r.bad("salt %x used twice", salt)
				return
			}
			var k2 *sign.PrivateKey
			if i%2 == 0 {
				k2, err = sign.MakePrivateKey(doc, pwf(pw))
			} else {
				k2, err = sign.ReadPrivateKey(fn, pwf(pw))
			}
			if err != nil {
				r.bad("loading with comment %q, password %x: %v", comment, pw, err)
				return
			}
			if err = checkPriv(k2, sk); err != nil {
				r.bad("loaded with comment %q, password %x: %v", comment, pw, err)
				return
			}
			if i == 2 {
				if k2, err = sign.MakePrivateKey(doc, pwf([]byte("Correct horse"))); err == nil || k2 != nil {
					r.bad("key of password %x loads with another", pw)
					return
				}
			}
			if i == 0 {
				if k2, err = sign.MakePrivateKey(doc, nil); err != nil || checkPriv(k2, sk) != nil {
					r.bad("key without a password does not load without a password function: %v", err)
					return
				}
				if d2, err := k.MarshalBinary(comment, pw); err != nil || yamlField(d2, "salt") == yamlField(doc, "salt") || yamlField(d2, "esk") == yamlField(doc, "esk") {
					r.bad("two serializations of a key share salt or ciphertext")
					return
				}
			}
			r.ok("full strength, password %s", short(pw))
		}()
	}

	// cheap parameters: many passwords and edits
	n := 300
	if thorough {
		n = 6000
	}
	r.par(n, func(i int) {
		rng := newRng(int64(12000 + i))
		sk := newSk(rng)
		pw := bytesOf(rng, []int{0, 1, 8, 31, 63, 64, 65, 71, 72, 73, 127, 128, 129, 300}[rng.Intn(14)])
		salt := bytesOf(rng, 32)
		N, R, P := []int{2, 4, 64}[rng.Intn(3)], 1+rng.Intn(3), 1+rng.Intn(2)
		doc := refPrivYAML(sk, pw, salt, N, R, P)
		k, err := sign.MakePrivateKey(doc, pwf(pw))
		if err != nil || checkPriv(k, sk) != nil {
			r.bad("key with password %x: %v %s", pw, err, doc)
			return
		}
		if len(pw) == 0 {
			if k, err = sign.MakePrivateKey(doc, nil); err != nil || checkPriv(k, sk) != nil {
				r.bad("key without password, no password function: %v %s", err, doc)
				return
			}
		}
		r.ok("password of %d bytes, N %d r %d p %d", len(pw), N, R, P)
		refuse := func(what string, d, p []byte) {
			k, err := sign.MakePrivateKey(d, pwf(p))
			if err == nil || k != nil {
				r.bad("%s: loaded; %s password %x", what, d, p)
			}
			r.ok("%s, password of %d bytes", what, len(pw))
		}
		others := [][]byte{append(append([]byte{}, pw...), 0), append(append([]byte{}, pw...), '\n'), append([]byte{0}, pw...), append(append([]byte{}, pw...), pw...), bytesOf(rng, len(pw)+1)}
		if len(pw) > 0 {
			f := append([]byte{}, pw...)
			f[len(f)-1] ^= 1
			others = append(others, nil, pw[:len(pw)-1], pw[1:], f)
		}
		for j, o := range others {
			if !bytes.Equal(o, pw) {
				refuse(fmt.Sprintf("other password %d", j), doc, o)
			}
		}
		if _, err := sign.MakePrivateKey(doc, func() ([]byte, error) { return pw, errors.New("no") }); err == nil {
			r.bad("the password function failed and the key was loaded")
		}
		esk, _ := base64.StdEncoding.DecodeString(yamlField(doc, "esk"))
		put := func(f string, v []byte) []byte {
			return bytes.Replace(doc, []byte(f+": "+yamlField(doc, f)), []byte(f+": "+b64(v)), 1)
		}
		flip := func(b []byte, i int) []byte {
			c := append([]byte{}, b...)
			c[i] ^= 1 << rng.Intn(8)
			return c
		}
		for _, j := range []int{0, 31, 32, 63, 64, 79, rng.Intn(80), rng.Intn(80)} {
			refuse(fmt.Sprintf("ciphertext byte %d changed", j), put("esk", flip(esk, j)), pw)
		}
		refuse("ciphertext cut", put("esk", esk[:79]), pw)
		refuse("ciphertext extended", put("esk", append(append([]byte{}, esk...), 0)), pw)
		refuse("no ciphertext", put("esk", nil), pw)
		refuse("no tag", put("esk", esk[:64]), pw)
		refuse("secret in the clear", put("esk", sk), pw)
		for _, j := range []int{0, 11, 12, 31, rng.Intn(32)} {
			refuse(fmt.Sprintf("salt byte %d changed", j), put("salt", flip(salt, j)), pw)
		}
		refuse("salt cut", put("salt", salt[:31]), pw)
		refuse("short salt", put("salt", salt[:rng.Intn(12)]), pw)
		refuse("another N", bytes.Replace(doc, []byte("Z: "), []byte("Z: 1"), 1), pw)
		refuse("another r", bytes.Replace(doc, []byte(fmt.Sprintf("r: %d", R)), []byte(fmt.Sprintf("r: %d", R+1)), 1), pw)
		refuse("another p", bytes.Replace(doc, []byte(fmt.Sprintf("p: %d\n", P)), []byte(fmt.Sprintf("p: %d\n", P+1)), 1), pw)
		// sealed properly, but no key
		for _, j := range []int{0, 31, 32, 63} {
			refuse("mismatched halves", refPrivYAML(flip(sk, j), pw, salt, N, R, P), pw)
		}
		refuse("short key", refPrivYAML(sk[:63], pw, salt, N, R, P), pw)
		refuse("seed only", refPrivYAML(sk[:32], pw, salt, N, R, P), pw)
		refuse("long key", refPrivYAML(append(append([]byte{}, sk...), 0), pw, salt, N, R, P), pw)

		// public keys and signatures, with any comment
		comment := oddComments[i%len(oddComments)]
		if i >= 2*len(oddComments) {
			comment = ""
			for j := rng.Intn(6); j > 0; j-- {
				comment += oddComments[rng.Intn(len(oddComments))] + []string{" ", "", "\n", ":", "\t"}[rng.Intn(5)]
			}
		}
		p := sk[32:]
		if rng.Intn(3) == 0 {
			p = bytesOf(rng, 32)
		}
		pk, err := pkOf(p)
		if err != nil {
			r.bad("public key %x: %v", p, err)
			return
		}
		doc, err = pk.MarshalBinary(comment)
		if err != nil {
			r.bad("serializing public key %x with comment %q: %v", p, comment, err)
			return
		}
		pk2, err := sign.MakePublicKey(doc)
		if err != nil {
			r.bad("public key %x with comment %q: %v; %s", p, comment, err, doc)
			return
		}
		if err = checkPub(pk2, p); err != nil {
			r.bad("public key with comment %q: %v", comment, err)
			return
		}
		pk3, err := sign.MakePublicKeyFromString(b64(p))
		if err != nil || checkPub(pk3, p) != nil {
			r.bad("public key %x as a string: %v", p, err)
			return
		}
		pub, prv := filepath.Join(dir, fmt.Sprintf("p%d", i)), filepath.Join(dir, fmt.Sprintf("s%d", i))
		if err = pk.Serialize(pub, comment, false); err != nil {
			r.bad("writing public key: %v", err)
			return
		}
		if pk2, err = sign.ReadPublicKey(pub); err != nil || checkPub(pk2, p) != nil {
			r.bad("public key %x from a file, comment %q: %v", p, comment, err)
			return
		}
		m := bytesOf(rng, rng.Intn(100))
		sig, err := k.SignMessage(m, comment)
		if err != nil {
			r.bad("signing: %v", err)
			return
		}
		if err = sig.Serialize(prv, comment, false); err != nil {
			r.bad("writing signature: %v", err)
			return
		}
		doc, err = sig.MarshalBinary(comment)
		if err != nil {
			r.bad("serializing signature: %v", err)
			return
		}
		var s2 sign.Signature
		if err = s2.UnmarshalBinary(doc); err != nil {
			r.bad("signature with comment %q: %v; %s", comment, err, doc)
			return
		}
		s3, err := sign.ReadSignature(prv)
		if err != nil {
			r.bad("signature from a file, comment %q: %v", comment, err)
			return
		}
		for _, s := range []*sign.Signature{&s2, s3} {
			if !bytes.Equal(s.Sig, sig.Sig) || !s.IsPKMatch(k.PublicKey()) || !k.PublicKey().VerifyMessage(m, s) {
				r.bad("signature %x with comment %q read back as %x", sig.Sig, comment, s.Sig)
				return
			}
			if d2, err := s.MarshalBinary(comment); err != nil || !bytes.Equal(d2, doc) {
				r.bad("signature with comment %q is serialized differently the second time", comment)
				return
			}
		}
		os.Remove(pub)
		os.Remove(prv)
		r.ok("comment %q", comment)
	})
	wg.Wait()
}
