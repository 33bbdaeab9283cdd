package sign_test

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC05(t *testing.T) {
	r := newRun(t, "a case is (who signed what, whose key is supplied, call history)")
	defer r.done()
	rng := newRng(5)
	A, B := genKey(t), genKey(t)
	rx, rx2, no := genKey(t), genKey(t), genKey(t)
	pt := bytesOf(rng, 100)

	// setup on one decryptor; okay tells what is expected
	try := func(what string, raw []byte, k *sign.PrivateKey, spk *sign.PublicKey, okay, auth bool, then func(d *sign.Decryptor)) {
		err, p := guard(func() error {
			in := bytes.NewReader(raw)
			d, err := sign.NewDecryptor(in)
			if err != nil {
				if okay {
					return fmt.Errorf("NewDecryptor: %v", err)
				}
				return nil
			}
			if d.AuthenticatedSender() {
				return errors.New("sender reported as authenticated before any key was set")
			}
			left := in.Len()
			err = d.SetPrivateKey(k, spk)
			if (err == nil) != okay {
				return fmt.Errorf("SetPrivateKey returned %v", err)
			}
			if d.AuthenticatedSender() != (okay && auth) {
				return fmt.Errorf("AuthenticatedSender is %v after SetPrivateKey returned %v", d.AuthenticatedSender(), err)
			}
			if !okay {
				var w bytes.Buffer
				if e := d.Decrypt(&w); e == nil || w.Len() > 0 {
					return fmt.Errorf("after the refusal (%v) Decrypt gave %d bytes and %v", err, w.Len(), e)
				}
				if rd, e := d.NewStreamReader(); e == nil {
					b := make([]byte, 10)
					n, e := rd.Read(b)
					return fmt.Errorf("after the refusal (%v) a stream reader was made, giving %d bytes, %v", err, n, e)
				}
				if in.Len() != left {
					return fmt.Errorf("after the refusal (%v) input was read", err)
				}
			}
			if then != nil {
				then(d)
			}
			return nil
		})
		if err != nil || p {
			r.bad("%s: %v", what, err)
			return
		}
		r.ok("%s", what)
	}
	full := func(what string, raw []byte, k *sign.PrivateKey, spk *sign.PublicKey, okay bool) {
		for _, m := range []int{0, 7} {
			out, err, _ := openAll(raw, k, spk, m)
			if okay && (err != nil || !bytes.Equal(out, pt)) || !okay && err == nil {
				r.bad("%s, mode %d: gave %s and %v", what, m, short(out), err)
				return
			}
			r.ok("%s, mode %d", what, m)
		}
	}
	cp := func(k *sign.PrivateKey) *sign.PublicKey {
		p, err := sign.MakePublicKey(pubBytes(t, k))
		if err != nil {
			t.Fatal(err)
		}
		return p
	}
	for _, s := range []*sign.PrivateKey{nil, A, B} {
		for src := 0; src < 2; src++ {
			var raw []byte
			var err error
			if src == 0 {
				raw, err = enc(s, 30, pubs([]*sign.PrivateKey{rx2, rx}), pt)
			} else {
				f := refNew(refOpts{chunkSize: 30, rx: pubs([]*sign.PrivateKey{rx2, rx}), snd: s, rng: rng})
				raw = append(f.head(), f.body(refSplit(pt, 30), s)...)
			}
			if err != nil {
				r.bad("encrypt: %v", err)
				return
			}
			for ki, k := range []*sign.PrivateKey{rx, rx2, no} {
				for gi, g := range []*sign.PrivateKey{nil, A, B, rx, rx2} {
					var spk *sign.PublicKey
					if g != nil {
						spk = cp(g)
					}
					okay := ki < 2 && g == s
					what := fmt.Sprintf("signer %d, recipient %d, sender key %d, source %d", idx(s, A, B), ki, gi, src)
					try(what, raw, k, spk, okay, s != nil, nil)
					full(what, raw, k, spk, okay)
					// refused first, right afterwards
					var ok *sign.PublicKey
					if s != nil {
						ok = cp(s)
					}
					if !okay {
						try(what+", then the right one", raw, k, spk, false, false, func(d *sign.Decryptor) {
							var w bytes.Buffer
							err := d.SetPrivateKey(rx, ok)
							if err != nil || d.AuthenticatedSender() != (s != nil) {
								r.bad("%s: the right key afterwards: %v, authenticated %v", what, err, d.AuthenticatedSender())
								return
							}
							if err = d.Decrypt(&w); err != nil || !bytes.Equal(w.Bytes(), pt) {
								r.bad("%s: the right key afterwards: Decrypt gave %v", what, err)
							}
						})
					}
				}
			}
		}
	}
	// forgeries by someone who knows the root key (any recipient)
	base := func(snd *sign.PrivateKey, edit func(f *refFile)) *refFile {
		return refNew(refOpts{chunkSize: 30, rx: pubs([]*sign.PrivateKey{rx}), snd: snd, rng: rng, hdrEdit: edit})
	}
	setSig := func(f *refFile, sig []byte) {
		sk := rhkdf(f.key, f.salt, "Sender Sig", 44)
		f.sender = gcm(sk[:32]).Seal(nil, sk[32:], sig, nil)
	}
	fin := func(f *refFile, s *sign.PrivateKey) []byte {
		f.finishHdr()
		return append(f.head(), f.body(refSplit(pt, 30), s)...)
	}
	sign64 := func(k *sign.PrivateKey, m []byte) []byte { return ed25519.Sign(ed25519.PrivateKey(k.Sk), m) }
	forge := func(what string, edit func(f *refFile)) {
		f := base(A, nil)
		edit(f)
		raw := fin(f, A)
		try("forged: "+what, raw, rx, cp(A), false, false, nil)
		full("forged: "+what, raw, rx, cp(A), false)
	}
	old := base(A, nil)
	forge("signature of another key", func(f *refFile) { setSig(f, sign64(B, refSignMsg(f.senderMsg()))) })
	forge("signature taken from another file", func(f *refFile) { setSig(f, sign64(A, refSignMsg(old.senderMsg()))) })
	for i := 0; i < 4; i++ {
		forge(fmt.Sprintf("signature over another %s", []string{"root key", "ephemeral key", "salt", "version"}[i]), func(f *refFile) {
			p := [][]byte{[]byte("SigTool"), {3}, f.pk, f.salt, f.key}
			p[[]int{4, 2, 3, 1}[i]] = [][]byte{old.key, old.pk, old.salt, {2}}[i]
			setSig(f, sign64(A, refSignMsg(sum256(p...))))
		})
	}
	forge("signature over the message without the domain prefix", func(f *refFile) { setSig(f, sign64(A, f.senderMsg())) })
	forge("signature over the root key only", func(f *refFile) { setSig(f, sign64(A, refSignMsg(sum256(f.key)))) })
	forge("no signature", func(f *refFile) { setSig(f, make([]byte, 64)) })
	forge("almost no signature", func(f *refFile) { z := make([]byte, 64); z[63] = 1; setSig(f, z) })
	forge("almost no signature", func(f *refFile) { z := make([]byte, 64); z[0] = 1; setSig(f, z) })
	forge("all ones signature", func(f *refFile) { setSig(f, bytes.Repeat([]byte{255}, 64)) })
	forge("empty signature", func(f *refFile) { setSig(f, nil) })
	forge("short signature", func(f *refFile) { setSig(f, sign64(A, refSignMsg(f.senderMsg()))[:63]) })
	forge("short zeros", func(f *refFile) { setSig(f, make([]byte, 32)) })
	forge("long zeros", func(f *refFile) { setSig(f, make([]byte, 65)) })
	forge("long signature", func(f *refFile) { setSig(f, append(sign64(A, refSignMsg(f.senderMsg())), 0)) })
	forge("no sender field", func(f *refFile) { f.sender = nil })
	forge("garbage sender field", func(f *refFile) { f.sender = bytesOf(rng, 80) })
	forge("sender field of another file", func(f *refFile) { f.sender = old.sender })
	for i := 0; i < 64; i++ {
		i := i
		forge(fmt.Sprintf("signature byte %d changed", i), func(f *refFile) {
			s := sign64(A, refSignMsg(f.senderMsg()))
			s[i] ^= 1 << uint(i%8)
			setSig(f, s)
		})
	}
	for i := 0; i < 80; i++ {
		i := i
		forge(fmt.Sprintf("sender field byte %d changed", i), func(f *refFile) { f.sender[i] ^= 1 << uint(i%8) })
	}
	// another body or recipient list under a copied sender field: the root key is what is signed;
	// the trailer decides
	tr := func(what string, edit func(f *refFile, raw []byte) []byte) {
		f := base(A, nil)
		raw := fin(f, A)
		raw = edit(f, raw)
		for _, m := range []int{0, 7} {
			out, err, _ := openAll(raw, rx, cp(A), m)
			if err == nil {
				r.bad("trailer %s, mode %d: accepted, gave %s", what, m, short(out))
				return
			}
			r.ok("trailer %s, mode %d", what, m)
		}
	}
	put := func(raw, t []byte) []byte { return append(append([]byte{}, raw[:len(raw)-64]...), t...) }
	tr("by another key", func(f *refFile, raw []byte) []byte { return put(raw, f.trailerFor(refSplit(pt, 30), B)) })
	tr("over other content", func(f *refFile, raw []byte) []byte {
		return put(raw, f.trailerFor(refSplit(append([]byte{1}, pt...), 30), A))
	})
	tr("of another file", func(f *refFile, raw []byte) []byte { return put(raw, old.trailerFor(refSplit(pt, 30), A)) })
	tr("replaced by the header signature", func(f *refFile, raw []byte) []byte {
		return put(raw, sign64(A, refSignMsg(f.senderMsg())))
	})
	tr("zero", func(f *refFile, raw []byte) []byte { return put(raw, make([]byte, 64)) })
	tr("missing", func(f *refFile, raw []byte) []byte { return raw[:len(raw)-64] })
	tr("half", func(f *refFile, raw []byte) []byte { return raw[:len(raw)-32] })
	tr("without domain prefix", func(f *refFile, raw []byte) []byte {
		g, err := refParse(raw, rx)
		if err != nil {
			t.Fatal(err)
		}
		return put(raw, sign64(A, g.mac))
	})
	for i := 0; i < 64; i++ {
		tr(fmt.Sprintf("byte %d changed", i), func(f *refFile, raw []byte) []byte {
			b := append([]byte{}, raw...)
			b[len(b)-64+i] ^= 1 << uint(i%8)
			return b
		})
	}
	// a second, refused setup does not change what the first one established
	for _, s := range []*sign.PrivateKey{nil, A} {
		raw, _ := enc(s, 30, pubs([]*sign.PrivateKey{rx}), pt)
		d, err := sign.NewDecryptor(bytes.NewReader(raw))
		if err == nil {
			err = d.SetPrivateKey(rx, pubOf(s))
		}
		e2 := d.SetPrivateKey(rx, cp(B))
		if err != nil || e2 == nil || d.AuthenticatedSender() != (s != nil) {
			r.bad("refused second setup, signed %v: %v %v, authenticated %v", s != nil, err, e2, d.AuthenticatedSender())
		}
		r.ok("refused second setup, signed %v", s != nil)
	}
}

func idx(s *sign.PrivateKey, ks ...*sign.PrivateKey) int {
	for i, k := range ks {
		if s == k {
			return i + 1
		}
	}
	return 0
}

// pubBytes gives the serialized public key
func pubBytes(t testing.TB, k *sign.PrivateKey) []byte {
	b, err := k.PublicKey().MarshalBinary("")
	if err != nil {
		t.Fatal(err)
	}
	return b
}
