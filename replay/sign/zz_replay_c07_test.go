package sign_test

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func edPub(t testing.TB, seed []byte) *sign.PublicKey {
	pk, err := pkOf(ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey))
	if err != nil {
		t.Fatal(err)
	}
	return pk
}

func TestVerifC07(t *testing.T) {
	r := newRun(t, "a case is (number of recipients, which key opens, sender, kind of key or edit)")
	defer r.done()
	snd := genKey(t)
	all := keys(t, 40)
	strangers := keys(t, 8)
	pt := []byte("attack at dawn, or a little later; bring the usual things")

	for nr := 1; nr <= 12; nr++ {
		for _, s := range []*sign.PrivateKey{nil, snd} {
			ks := all[:nr]
			var rnd []byte
			var out []byte
			var err error
			withRand(func(rec *recRand) {
				out, err = enc(s, 16, pubs(ks), pt)
				rnd = rec.log
			})
			what := fmt.Sprintf("%d recipients, sender %v", nr, s != nil)
			if err != nil {
				r.bad("%s: %v", what, err)
				continue
			}
			f, err := refParse(out, ks[0])
			if err != nil {
				r.bad("%s: %v", what, err)
				continue
			}
			if len(f.keys) != nr {
				r.bad("%s: %d wrapped keys", what, len(f.keys))
				continue
			}
			// the root key and the ephemeral secret are nowhere in the output
			find := func(name string, b []byte) {
				for i := 0; i+8 <= len(b); i++ {
					if bytes.Contains(out, b[i:i+8]) {
						r.bad("%s: bytes %d..%d of the %s appear in the output", what, i, i+8, name)
						return
					}
				}
			}
			find("root key", f.key)
			find("data key", f.dkey)
			find("hmac key", f.hkey)
			sk := rhkdf(f.key, f.salt, "Sender Sig", 44)
			find("sender field key", sk[:32])
			find("plaintext", pt)
			found := false
			for i := 0; i+32 <= len(rnd); i++ {
				e := append([]byte{}, rnd[i:i+32]...)
				e[0] &= 248
				e[31] &= 127
				e[31] |= 64
				if bytes.Equal(refXPub(e), f.pk) {
					found = true
					find("ephemeral secret", e)
					find("ephemeral secret before clamping", rnd[i:i+32])
				}
			}
			_ = found
			// every entry opens for its recipient and nobody else
			for i := range f.keys {
				for j, k := range ks {
					u := f.unwrap(i, k.Sk)
					if (u != nil) != (i == j) {
						r.bad("%s: entry %d unwrapped for recipient %d: %v", what, i, j, u != nil)
					}
					if u != nil && !bytes.Equal(u, f.key) {
						r.bad("%s: entry %d holds another root key", what, i)
					}
				}
				for j := 0; j < i; j++ {
					if bytes.Equal(f.keys[i].nonce, f.keys[j].nonce) || bytes.Equal(f.keys[i].dkey, f.keys[j].dkey) {
						r.bad("%s: entries %d and %d share randomness", what, i, j)
					}
				}
			}
			for i, k := range ks {
				got, err := dec(out, k, pubOf(s))
				if err != nil || !bytes.Equal(got, pt) {
					r.bad("%s: recipient %d cannot decrypt: %v", what, i, err)
					continue
				}
				r.ok("%s: recipient %d", what, i)
			}
			wrong := append([]*sign.PrivateKey{all[nr], all[39], snd}, strangers...)
			// keys that share a half with a recipient
			for _, k := range ks[:1] {
				mix := append(append([]byte{}, k.Sk[:32]...), strangers[0].Sk[32:]...)
				if m, err := skOf(mix); err == nil {
					wrong = append(wrong, m)
				}
				for _, at := range []int{0, 5, 31} {
					seed := append([]byte{}, k.Sk[:32]...)
					seed[at] ^= 0x10
					if m, err := skOf(ed25519.NewKeyFromSeed(seed)); err == nil {
						wrong = append(wrong, m)
					}
				}
			}
			for i, k := range wrong {
				err, p := guard(func() error {
					d, err := sign.NewDecryptor(bytes.NewReader(out))
					if err != nil {
						return fmt.Errorf("open: %v", err)
					}
					err = d.SetPrivateKey(k, pubOf(s))
					if !errors.Is(err, sign.ErrBadKey) {
						return fmt.Errorf("another key (%d) gives %v, not the wrong-key error", i, err)
					}
					var w bytes.Buffer
					if err = d.Decrypt(&w); !errors.Is(err, sign.ErrNoKey) || w.Len() > 0 {
						return fmt.Errorf("Decrypt after the wrong key (%d) gives %v, %d bytes", i, err, w.Len())
					}
					// the right one still works
					if err = d.SetPrivateKey(ks[nr-1], pubOf(s)); err != nil {
						return fmt.Errorf("right key after the wrong one: %v", err)
					}
					if err = d.Decrypt(&w); err != nil || !bytes.Equal(w.Bytes(), pt) {
						return fmt.Errorf("right key after the wrong one: %v", err)
					}
					return nil
				})
				if err != nil || p {
					r.bad("%s: %v", what, err)
					continue
				}
				r.ok("%s: stranger %d", what, i)
			}
			// an entry bound to another public key does not open: wrapped under the right shared
			// secret but another associated key
			h := *f
			for i := range ks {
				h.keys = append([]refKey{}, f.keys...)
				h.keys[i] = refKey{append([]byte{}, f.keys[i].dkey...), append([]byte{}, f.keys[i].nonce...)}
				h.keys[i].nonce[i%12] ^= 1
				h.finishHdr()
				d, err := sign.NewDecryptor(bytes.NewReader(append(h.head(), make([]byte, 100)...)))
				if err == nil {
					err = d.SetPrivateKey(ks[i], nil)
				}
				if !errors.Is(err, sign.ErrBadKey) {
					r.bad("%s: entry %d with another nonce: %v", what, i, err)
				}
				h.keys[i].nonce[i%12] ^= 1
				h.keys[i].dkey[i] ^= 4
				h.finishHdr()
				d, err = sign.NewDecryptor(bytes.NewReader(append(h.head(), make([]byte, 100)...)))
				if err == nil {
					err = d.SetPrivateKey(ks[i], nil)
				}
				if !errors.Is(err, sign.ErrBadKey) {
					r.bad("%s: entry %d altered: %v", what, i, err)
				}
				r.ok("%s: entry %d altered", what, i)
			}
		}
	}
	// binding to the recipient's public key: the same curve point, another Ed25519 key (sign bit)
	{
		rng := newRng(9)
		f := refNew(refOpts{chunkSize: 16, rx: pubs(all[:1]), rng: rng, hdrEdit: func(f *refFile) {
			esk := bytesOf(rng, 32)
			esk[0] &= 248
			esk[31] = esk[31]&127 | 64
			f.pk = refXPub(esk)
			n := bytesOf(rng, 12)
			kn := rhkdf(refX(esk, refCurvePK(all[0].Sk[32:])), sum256(f.salt, n), "Receiver Key", 44)
			f.keys[0] = refKey{gcm(kn[:32]).Seal(nil, kn[32:], f.key, all[1].Sk[32:]), n}
		}})
		d, err := sign.NewDecryptor(bytes.NewReader(append(f.head(), make([]byte, 100)...)))
		if err == nil {
			err = d.SetPrivateKey(all[0], nil)
		}
		if !errors.Is(err, sign.ErrBadKey) {
			r.bad("key wrapped for one public key but bound to another: %v", err)
		}
		r.ok("binding to the public key")
	}
	// repeated recipients, keys loaded by other ways
	for _, reps := range []int{2, 3} {
		var rx []*sign.PublicKey
		for i := 0; i < reps; i++ {
			rx = append(rx, edPub(t, all[3].Sk[:32]), all[3].PublicKey())
		}
		out, err := enc(nil, 16, rx, pt)
		if err != nil {
			r.bad("same recipient %d times: %v", 2*reps, err)
			continue
		}
		k, _ := skOf(append([]byte{}, all[3].Sk...))
		got, err := dec(out, k, nil)
		if err != nil || !bytes.Equal(got, pt) {
			r.bad("same recipient %d times: %v", 2*reps, err)
			continue
		}
		f, err := refParse(out, all[3])
		if err != nil || len(f.keys) != 2*reps {
			r.bad("same recipient %d times: %v", 2*reps, err)
			continue
		}
		for i := range f.keys {
			for j := 0; j < i; j++ {
				if bytes.Equal(f.keys[i].nonce, f.keys[j].nonce) || bytes.Equal(f.keys[i].dkey, f.keys[j].dkey) {
					r.bad("same recipient %d times: entries %d and %d are alike", 2*reps, i, j)
				}
			}
		}
		r.ok("same recipient %d times", 2*reps)
	}
	// many keys: one recipient, one stranger each
	n := 1500
	if thorough {
		n = 15000
	}
	r.par(n, func(i int) {
		a, b := genKey(t), genKey(t)
		out, err := enc(nil, 8, pubs([]*sign.PrivateKey{a}), pt[:9])
		if err != nil {
			r.bad("recipient %x: %v", a.Sk, err)
			return
		}
		got, err := dec(out, a, nil)
		if err != nil || !bytes.Equal(got, pt[:9]) {
			r.bad("recipient %x cannot decrypt: %v", a.Sk, err)
			return
		}
		if _, err = dec(out, b, nil); !errors.Is(err, sign.ErrBadKey) {
			r.bad("file for %x, key %x: %v", a.Sk, b.Sk, err)
			return
		}
		r.ok("random pair")
	})
	// many recipients, every position
	for _, nr := range []int{127, 128, 255, 256, 300} {
		ks := keys(t, nr)
		out, err := enc(nil, 16, pubs(ks), pt)
		if err != nil {
			r.bad("%d recipients: %v", nr, err)
			continue
		}
		r.par(nr, func(i int) {
			if i%7 == 0 || i > nr-4 || i < 4 {
				got, err := dec(out, ks[i], nil)
				if err != nil || !bytes.Equal(got, pt) {
					r.bad("%d recipients, key %d: %v", nr, i, err)
					return
				}
				r.ok("%d recipients, key %d", nr, i)
			}
		})
	}
}
