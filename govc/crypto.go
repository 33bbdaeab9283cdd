package main

import (
	"math/big"
	"strings"
)

// Symbolic (ideal) cryptography. Every rewriting here is a trusted contract of a dependency
// and is listed in the evidence.

var maxByte = B(255)

const hkdfMax = 255 * 64

func rewriteIApp(name string, lo, hi *big.Int, as []*Term) *Term {
	return IApp(name, lo, hi, as...)
}

func rewriteBApp(name string, as []*Term) *Term {
	switch name {
	case "openok":
		return openOK(as[0], as[1], as[2], as[3])
	case "edverify":
		return edVerify(as[0], as[1], as[2])
	case "x25519ok":
		return x25519OK(as[0], as[1])
	case "b64ok":
		return b64OK(as[0], as[1])
	case "yamlok":
		return yamlOK(as[0], as[1])
	}
	return BApp(name, as...)
}

func rewriteQApp(name string, ln *Term, as []*Term) *Term {
	switch name {
	case "open":
		return gcmOpen(as[0], as[1], as[2], as[3])
	case "x25519":
		return x25519(as[0], as[1])
	case "dh":
		return dh(as[0], as[1])
	case "edsign":
		return edSign(as[0], as[1], as[2])
	case "curvepk":
		return curvePK(as[0])
	case "b64dec":
		return b64Dec(as[0], as[1])
	case "seal":
		return gcmSeal(as[0], as[1], as[2], as[3])
	case "ctr":
		return ctrXor(as[0], as[1], as[2])
	case "cbcdec":
		return cbcDec(as[0], as[1], as[2])
	}
	return QApp(name, ln, as...)
}

func isQApp(t *Term, name string) bool { return t.op == OQApp && t.name == name }

func hashTerm(alg string, s *Term) *Term {
	n := int64(32)
	switch alg {
	case "sha512":
		n = 64
	case "md5":
		n = 16
	}
	return QApp(alg, Int(n), s)
}

// equality of two results of a collision-free function is equality of the arguments
func injective(a, b *Term) *Term {
	if a.op != OQApp || b.op != OQApp || a.name != b.name || len(a.args) != len(b.args) {
		return nil
	}
	k := 1
	switch a.name {
	case "sha256", "sha512":
	case "b64enc":
		if a.args[1] != b.args[1] {
			return nil
		}
		k = 2
	case "scrypt":
		// PBKDF2-HMAC-SHA256 pads shorter passwords and hashes longer ones
		if !a.args[1].ln.isK(64) || !b.args[1].ln.isK(64) || a.ln != b.ln {
			return nil
		}
	default:
		return nil
	}
	r := True
	for ; k < len(a.args); k++ {
		if a.args[k].sort == SSeq {
			r = And(r, SeqEq(a.args[k], b.args[k]))
		} else {
			r = And(r, Eq(a.args[k], b.args[k]))
		}
	}
	return r
}

func hmacTerm(alg string, key, s *Term) *Term {
	return QApp("hmac-"+alg, Int(32), key, s)
}

func hkdfTerm(alg string, secret, salt, info *Term) *Term {
	return QApp("hkdf-"+alg, Int(hkdfMax), secret, salt, info)
}

func gcmSeal(k, n, p, a *Term) *Term {
	return QApp("seal", AddK(p.ln, 16), k, n, p, a)
}

// args of a seal application
func sealArgs(t *Term) (k, n, p, a *Term, ok bool) {
	if isQApp(t, "seal") {
		return t.args[1], t.args[2], t.args[3], t.args[4], true
	}
	return
}

func openOK(k, n, c, a *Term) *Term {
	if k2, n2, _, a2, ok := sealArgs(c); ok {
		return And(SeqEq(k, k2), SeqEq(n, n2), SeqEq(a, a2))
	}
	return BApp("openok", k, n, c, a)
}

func gcmOpen(k, n, c, a *Term) *Term {
	if k2, n2, p, a2, ok := sealArgs(c); ok && k == k2 && n == n2 && a == a2 {
		return p
	}
	return QApp("open", AddK(c.ln, -16), k, n, c, a)
}

func byteAnd(b *Term, m int64) *Term {
	return byteTable(b, func(v int64) int64 { return v & m })
}

// clamp(s): the X25519 scalar
func xclamp(s *Term) *Term {
	b0 := byteTable(At(s, Int(0)), func(v int64) int64 { return v & 248 })
	b31 := byteTable(At(s, Int(31)), func(v int64) int64 { return (v & 127) | 64 })
	return Cat(QByte(b0), QSub(s, Int(1), Int(30)), QByte(b31))
}

var basePoint = Lit("\x09" + strings.Repeat("\x00", 31))

func x25519(s, p *Term) *Term {
	s = xclamp(s)
	if p == basePoint {
		return QApp("xpub", Int(32), s)
	}
	if isQApp(p, "xpub") {
		return dh(s, p.args[1])
	}
	return QApp("x25519", Int(32), s, p)
}

func dh(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return QApp("dh", Int(32), a, b)
}

func x25519OK(s, p *Term) *Term {
	if p == basePoint || isQApp(p, "xpub") {
		return True
	}
	return BApp("x25519ok", xclamp(s), p)
}

func edPub(seed *Term) *Term { return QApp("edpub", Int(32), seed) }

func edSign(seed, pub, msg *Term) *Term {
	return QApp("edsign", Int(64), seed, pub, msg)
}

// Verify(pub, msg, sig), |pub| = 32
func edVerify(pub, msg, sig *Term) *Term {
	if isQApp(sig, "edsign") && sig.args[2] == edPub(sig.args[1]) {
		return And(SeqEq(pub, sig.args[2]), SeqEq(msg, sig.args[3]))
	}
	return BApp("edverify", pub, msg, sig)
}

// the birational map from Ed25519 to Curve25519 public keys
func curvePK(p *Term) *Term {
	if isQApp(p, "edpub") {
		return QApp("xpub", Int(32), xclamp(QSub(hashTerm("sha512", p.args[1]), Int(0), Int(32))))
	}
	return QApp("curvepk", Int(32), p)
}

// base64
func b64Len(enc string, n *Term) *Term {
	if strings.HasPrefix(enc, "raw") {
		// ceil(4n/3)
		return DivK(AddK(MulK(n, B(4)), 2), B(3))
	}
	return MulK(DivK(AddK(n, 2), B(3)), B(4))
}

func b64Enc(enc, s *Term) *Term {
	if s.op == OLit && s.name == "" {
		return Empty
	}
	return QApp("b64enc", b64Len(enc.name, s.ln), enc, s)
}

func b64OK(enc, s *Term) *Term {
	if s.op == OLit && s.name == "" {
		return True
	}
	if isQApp(s, "b64enc") && s.args[1] == enc {
		return True
	}
	for _, g := range segs(s) {
		// a character outside of the alphabet
		if g.op == OLit && strings.Trim(g.name, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\r\n") != "" {
			return False
		}
	}
	return BApp("b64ok", enc, s)
}

func b64Dec(enc, s *Term) *Term {
	if s.op == OLit && s.name == "" {
		return Empty
	}
	if isQApp(s, "b64enc") && s.args[1] == enc {
		return s.args[2]
	}
	return QApp("b64dec", IApp("b64declen", b0, maxLen, enc, s), enc, s)
}

// scrypt(pw, salt, N, r, p) -> 32 bytes stream prefix
func scryptTerm(pw, salt, n, r, p *Term, l *Term) *Term {
	return QApp("scrypt", l, pw, salt, n, r, p)
}

func ctrXor(k, iv, s *Term) *Term {
	if isQApp(s, "ctr") && s.args[1] == k && s.args[2] == iv {
		return s.args[3]
	}
	return QApp("ctr", s.ln, k, iv, s)
}

func cbcDec(k, iv, s *Term) *Term {
	if isQApp(s, "cbcenc") && s.args[1] == k && s.args[2] == iv {
		return s.args[3]
	}
	return QApp("cbcdec", s.ln, k, iv, s)
}

// yaml documents: yaml(tag1, v1, tag2, v2, ...) terms are built by Marshal
func yamlOK(ty, s *Term) *Term {
	if isQApp(s, "yaml") {
		return Bool(true)
	}
	return BApp("yamlok", ty, s)
}
