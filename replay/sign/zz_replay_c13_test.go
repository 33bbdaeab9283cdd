package sign_test

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

// Key objects through random histories, against the key bytes each should hold.
func TestVerifC13(t *testing.T) {
	r := newRun(t, "a case is a history of calls on a pool of key objects, checked after every call")
	defer r.done()
	n := 2500
	if thorough {
		n = 60000
	}
	r.par(n, func(i int) {
		rng := newRng(int64(13000 + i))
		type priv struct {
			k *sign.PrivateKey
			s []byte
		}
		type pub struct {
			k *sign.PublicKey
			p []byte
		}
		type sg struct {
			sig *sign.Signature
			p   []byte
		}
		var hist []string
		var sks []*priv
		var pks []*pub
		var sigs []sg
		log := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		mkpriv := func() *priv {
			if rng.Intn(3) == 0 {
				k, err := sign.NewPrivateKey()
				if err != nil {
					panic(err)
				}
				log("new private key %d", len(sks))
				return &priv{k, append([]byte{}, k.Sk...)}
			}
			s := newSk(rng)
			k, err := skOf(s)
			if err != nil {
				panic(err)
			}
			log("private key %d loaded", len(sks))
			return &priv{k, s}
		}
		anypub := func() []byte {
			p := bytesOf(rng, 32)
			switch rng.Intn(8) {
			case 0:
				for j := range p {
					p[j] = 0
				}
				p[0] = byte(rng.Intn(4))
			case 1: // values around the field prime
				for j := range p {
					p[j] = 255
				}
				p[31] = []byte{127, 255}[rng.Intn(2)]
				p[0] = byte(220 + rng.Intn(36))
			case 2, 3, 4:
				p = newSk(rng)[32:]
			}
			return p
		}
		sks = append(sks, mkpriv(), mkpriv())
		check := func() bool {
			for j, x := range sks {
				if err := checkPriv(x.k, x.s); err != nil {
					r.bad("private key %d: %v; after %v", j, err, hist)
					return false
				}
			}
			for j, x := range pks {
				if err := checkPub(x.k, x.p); err != nil {
					r.bad("public key %d: %v; after %v", j, err, hist)
					return false
				}
			}
			return true
		}
		for st := 0; st < 4+rng.Intn(10); st++ {
			x := sks[rng.Intn(len(sks))]
			var y *pub
			if len(pks) > 0 {
				y = pks[rng.Intn(len(pks))]
			}
			switch rng.Intn(14) {
			case 0:
				s := newSk(rng)
				pw := bytesOf(rng, rng.Intn(5))
				var doc []byte
				if rng.Intn(2) == 0 {
					doc = sshPriv(s, "x")
				} else {
					doc = refPrivYAML(s, pw, bytesOf(rng, 32), 2, 1, 1)
				}
				log("load into private key")
				if err := x.k.UnmarshalBinary(doc, pwf(pw)); err != nil {
					r.bad("loading a key: %v after %v", err, hist)
					return
				}
				x.s = s
			case 1: // a load that fails
				s := newSk(rng)
				var doc []byte
				switch rng.Intn(3) {
				case 0:
					s[rng.Intn(64)] ^= 1 << rng.Intn(8)
					doc = sshPriv(s, "x")
				case 1:
					s[rng.Intn(64)] ^= 1 << rng.Intn(8)
					doc = refPrivYAML(s, nil, bytesOf(rng, 32), 2, 1, 1)
				default:
					doc = refPrivYAML(s, []byte("x"), bytesOf(rng, 32), 2, 1, 1)
				}
				log("failing load into private key")
				if err := x.k.UnmarshalBinary(doc, pwf(nil)); err == nil {
					r.bad("a malformed key was loaded: %s after %v", doc, hist)
					return
				}
			case 2:
				log("PublicKey() kept")
				pks = append(pks, &pub{x.k.PublicKey(), append([]byte{}, x.s[32:]...)})
			case 3:
				p := anypub()
				k, err := pkOf(p)
				if err != nil {
					r.bad("public key %x: %v", p, err)
					return
				}
				log("public key loaded")
				pks = append(pks, &pub{k, p})
			case 4, 5:
				if y == nil {
					continue
				}
				p := anypub()
				doc := []byte("pk: " + b64(p) + "\nhash: " + b64(bytesOf(rng, 16)) + "\n")
				if rng.Intn(2) == 0 {
					doc = []byte("ssh-ed25519 " + b64(sshPub(p)) + " comment\n")
				}
				log("load into public key")
				if err := y.k.UnmarshalBinary(doc); err != nil {
					r.bad("loading a public key: %v after %v", err, hist)
					return
				}
				y.p = p
			case 6:
				if y == nil {
					continue
				}
				log("failing load into public key")
				if err := y.k.UnmarshalBinary([]byte("pk: " + b64(bytesOf(rng, 31)) + "\n")); err == nil {
					r.bad("a malformed public key was loaded after %v", hist)
					return
				}
			case 7:
				log("sign")
				m := bytesOf(rng, rng.Intn(40))
				s, err := x.k.SignMessage(m, "c")
				if err != nil || !x.k.PublicKey().VerifyMessage(m, s) {
					r.bad("signing: %v after %v", err, hist)
					return
				}
				sigs = append(sigs, sg{s, append([]byte{}, x.s[32:]...)})
			case 8:
				log("serialize public key")
				b, err := x.k.PublicKey().MarshalBinary("c")
				if err != nil {
					r.bad("serializing: %v after %v", err, hist)
					return
				}
				k, err := sign.MakePublicKey(b)
				if err != nil {
					r.bad("reading back: %v after %v", err, hist)
					return
				}
				pks = append(pks, &pub{k, append([]byte{}, x.s[32:]...)})
			case 9:
				log("encrypt and decrypt")
				z := sks[rng.Intn(len(sks))]
				var snd *sign.PrivateKey
				var spk *sign.PublicKey
				if rng.Intn(2) == 0 {
					snd, spk = x.k, x.k.PublicKey()
				}
				ct, err := enc(snd, 16, []*sign.PublicKey{z.k.PublicKey()}, []byte("some text"))
				if err != nil {
					r.bad("encrypting: %v after %v", err, hist)
					return
				}
				pt, err := dec(ct, z.k, spk)
				if err != nil || string(pt) != "some text" {
					r.bad("decrypting: %v after %v", err, hist)
					return
				}
			case 10:
				log("ToCurve25519SK")
				x.k.ToCurve25519SK()
			case 11:
				log("ToCurve25519PK of a PublicKey()")
				x.k.PublicKey().ToCurve25519PK()
			case 12:
				if len(sks) < 5 {
					sks = append(sks, mkpriv())
				}
			case 13:
				if y != nil {
					log("Hash")
					y.k.Hash()
				}
			}
			if rng.Intn(2) == 0 && !check() {
				return
			}
			for _, s := range sigs {
				for j, x := range sks {
					if got, want := s.sig.IsPKMatch(x.k.PublicKey()), bytes.Equal(s.p, x.s[32:]); got != want {
						r.bad("signature by %x and private key %d (%x): match %v; after %v", s.p, j, x.s[32:], got, hist)
						return
					}
				}
				for j, y := range pks {
					if got, want := s.sig.IsPKMatch(y.k), bytes.Equal(s.p, y.p); got != want {
						r.bad("signature by %x and public key %d (%x): match %v; after %v", s.p, j, y.p, got, hist)
						return
					}
				}
			}
		}
		if check() {
			r.ok("%v", hist)
		}
	})
	// signatures loaded from files naming other hashes
	rng := newRng(13)
	for i := 0; i < 4; i++ {
		k := genKey(t)
		pk := k.PublicKey()
		h := sha256.Sum256(pk.Pk)
		m := bytesOf(rng, 20)
		sg := ed25519.Sign(ed25519.PrivateKey(k.Sk), refSignMsg(m))
		for n := 0; n <= 32; n++ {
			for _, e := range [][]byte{h[:n], bytesOf(rng, n), append([]byte{h[0] ^ 1}, h[1:]...)[:n], h[32-n:]} {
				b64 := base64.StdEncoding.EncodeToString
				doc := fmt.Sprintf("comment: c\npkhash: %q\nsignature: %q\n", b64(e), b64(sg))
				var s sign.Signature
				if s.UnmarshalBinary([]byte(doc)) != nil {
					continue
				}
				if got, want := s.IsPKMatch(pk), bytes.Equal(e, h[:16]); got != want {
					r.bad("key %x and the signature file %q: match %v", pk.Pk, doc, got)
				}
				r.ok("loaded signature with a hash of %d bytes", n)
			}
		}
	}
}
