package sign_test

import (
	"bytes"
	mrand "math/rand"
	"strings"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC15(t *testing.T) {
	r := newRun(t, "a case is an OpenSSH key or authorized_keys file put together from parts, and the change made to it")
	defer r.done()
	n := 400
	if thorough {
		n = 8000
	}
	comments := []string{"", "a", "user@host", "two words", "three  words\there", "ünïcode", "#hash", "quote\"d", "a,b", "ssh-ed25519 AAAA", "a=b", "x\\\"y", strings.Repeat("long ", 300)}
	others := func(rng *mrand.Rand) string {
		switch rng.Intn(4) {
		case 0:
			return "ssh-rsa " + b64(sshStr([]byte("ssh-rsa"), []byte{1, 0, 1}, bytesOf(rng, 256)))
		case 1:
			return "ecdsa-sha2-nistp256 " + b64(sshStr([]byte("ecdsa-sha2-nistp256"), []byte("nistp256"), bytesOf(rng, 65)))
		case 2:
			return "sk-ssh-ed25519@openssh.com " + b64(sshStr([]byte("sk-ssh-ed25519@openssh.com"), bytesOf(rng, 32), []byte("ssh:")))
		}
		return "ssh-dss " + b64(sshStr([]byte("ssh-dss"), bytesOf(rng, 128), bytesOf(rng, 20), bytesOf(rng, 128), bytesOf(rng, 128)))
	}
	r.par(n, func(i int) {
		rng := newRng(int64(15000 + i))
		sk := newSk(rng)
		pw := bytesOf(rng, 1+rng.Intn(80))
		mk := func() (*sshOpts, string) {
			o := sshNew(sk, rng)
			o.comment = comments[rng.Intn(len(comments))]
			switch i % 3 {
			case 1:
				return o.enc("aes256-ctr", pw), "ctr"
			case 2:
				return o.enc("aes256-cbc", pw), "cbc"
			}
			return o, "plain"
		}
		o, kind := mk()
		o.rounds = uint32(1 + rng.Intn(3))
		o.salt = bytesOf(rng, []int{1, 8, 16, 32}[rng.Intn(4)])
		if rng.Intn(3) == 0 && kind == "plain" {
			o.pad = nil
			o.block = []int{1, 4, 8, 16, 64, 255}[rng.Intn(6)]
		}
		k, err := sign.MakePrivateKey(o.file(), pwf(pw))
		if err != nil {
			r.bad("%s key with seed %x, password %x, comment %q: %v", kind, sk[:32], pw, o.comment, err)
			return
		}
		if err = checkPriv(k, sk); err != nil {
			r.bad("%s key: %v", kind, err)
			return
		}
		r.ok("%s key, comment of %d bytes", kind, len(o.comment))
		if kind == "plain" {
			if k, err = sign.MakePrivateKey(o.file(), nil); err != nil || checkPriv(k, sk) != nil {
				r.bad("plain key without a password function: %v", err)
				return
			}
		}
		k2 := skRef(t, newSk(rng))
		k2.ToCurve25519SK()
		if err = k2.UnmarshalBinary(o.file(), pwf(pw)); err != nil || checkPriv(k2, sk) != nil {
			r.bad("%s key into an object in use: %v", kind, err)
			return
		}
		refuse := func(what string, o *sshOpts, pw func() ([]byte, error)) {
			f := o.file()
			k, err := sign.MakePrivateKey(f, pw)
			if err == nil {
				r.bad("%s key, %s: loaded key with seed %x; file %s", kind, what, k.Sk[:32], f)
				return
			}
			if k != nil {
				r.bad("%s key, %s: error and key", kind, what)
			}
			r.ok("%s key, %s", kind, what)
		}
		x := func(what string, f func(o *sshOpts)) {
			o, _ := mk()
			f(o)
			refuse(what, o, pwf(pw))
		}
		other := newSk(rng)
		flip := func(b []byte, i int) []byte {
			c := append([]byte{}, b...)
			c[i] ^= 1 << rng.Intn(8)
			return c
		}
		x("private half with a changed seed", func(o *sshOpts) { o.priv = flip(o.priv, rng.Intn(32)) })
		x("private half with a changed public key", func(o *sshOpts) { o.priv = flip(o.priv, 32+rng.Intn(32)) })
		x("another private key", func(o *sshOpts) { o.priv = other })
		x("another public key", func(o *sshOpts) { o.pub = other[32:] })
		x("another public key in the header", func(o *sshOpts) { o.outer = sshPub(other[32:]) })
		x("no public key", func(o *sshOpts) { o.pub = nil })
		x("cut private key", func(o *sshOpts) { o.priv = o.priv[:rng.Intn(64)] })
		x("long private key", func(o *sshOpts) { o.priv = append(append([]byte{}, o.priv...), bytesOf(rng, 1+rng.Intn(64))...) })
		x("check numbers", func(o *sshOpts) { o.c2 ^= 1 << rng.Intn(32) })
		x("algorithm", func(o *sshOpts) {
			o.typ = []string{"ssh-rsa", "", "ssh-ed25519 ", "ssh-ed2551", "SSH-ED25519", "sk-ssh-ed25519@openssh.com"}[rng.Intn(6)]
		})
		x("no keys", func(o *sshOpts) { o.nkeys = 0 })
		x("two keys", func(o *sshOpts) { o.nkeys = 2 })
		x("very many keys", func(o *sshOpts) { o.nkeys = 1<<32 - 1 })
		x("magic", func(o *sshOpts) {
			o.magic = []string{"", "openssh-key-v1", "openssh-key-v2\x00", "openssh-key-v1\x01"}[rng.Intn(4)]
		})
		x("trailer", func(o *sshOpts) { o.trailer = bytesOf(rng, 1+rng.Intn(20)) })
		bs := map[string]int{"plain": 8, "ctr": 16, "cbc": 16}[kind]
		x("padding", func(o *sshOpts) {
			o.pad = make([]byte, bs)
			for j := range o.pad {
				o.pad[j] = byte(j + 1)
			}
			// keep to whole blocks
			for len(o.comment)%bs != (bs-(8+4+11+4+32+4+64+4)%bs)%bs {
				o.comment += "x"
			}
			o.pad[rng.Intn(bs)] ^= 1 << rng.Intn(8)
		})
		x("padding with zeros", func(o *sshOpts) {
			o.pad = make([]byte, bs)
			for len(o.comment)%bs != (bs-(8+4+11+4+32+4+64+4)%bs)%bs {
				o.comment += "x"
			}
		})
		if kind != "plain" {
			o, _ := mk()
			refuse("another password", o, pwf(append(append([]byte{}, pw...), 'x')))
			refuse("no password", o, pwf(nil))
			refuse("no password function", o, nil)
			x("no rounds", func(o *sshOpts) { o.rounds = 0 })
			x("no salt", func(o *sshOpts) { o.salt = nil })
			x("another cipher", func(o *sshOpts) {
				o.cipher = []string{"none", "aes128-ctr", "aes256-gcm@openssh.com", "3des-cbc"}[rng.Intn(4)]
			})
			x("the other mode", func(o *sshOpts) {
				o.crypt = o.cipher
				o.cipher = map[string]string{"aes256-ctr": "aes256-cbc", "aes256-cbc": "aes256-ctr"}[o.cipher]
			})
		} else {
			x("a kdf without a cipher", func(o *sshOpts) { o.kdf = "bcrypt" })
			x("a cipher without a kdf", func(o *sshOpts) { o.cipher = "aes256-ctr" })
			x("unknown kdf", func(o *sshOpts) { o.kdf = "x" })
		}
		// truncations
		b := o.blob()
		for j := 0; j < 6; j++ {
			c := rng.Intn(len(b))
			f := sshPEM(b[:c])
			if k, err := sign.MakePrivateKey(f, pwf(pw)); err == nil {
				r.bad("%s key cut to %d of %d bytes: loaded %x", kind, c, len(b), k.Sk)
				return
			}
			r.ok("%s key, cut", kind)
		}

		// public keys
		p := sk[32:]
		if rng.Intn(3) == 0 {
			p = bytesOf(rng, 32)
		}
		comment := comments[rng.Intn(len(comments))]
		line := "ssh-ed25519 " + b64(sshPub(p))
		if comment != "" {
			line += " " + comment
		}
		for _, end := range []string{"", "\n", "\r\n"} {
			pk, err := sign.MakePublicKey([]byte(line + end))
			if err != nil {
				r.bad("public key %q: %v", line+end, err)
				return
			}
			if err = checkPub(pk, p); err != nil {
				r.bad("public key %q: %v", line+end, err)
				return
			}
			if pk.Comment != strings.TrimSpace(comment) {
				r.bad("public key %q: comment %q", line+end, pk.Comment)
				return
			}
		}
		pk, err := sign.MakePublicKeyFromString(b64(sshPub(p)))
		if err != nil || checkPub(pk, p) != nil {
			r.bad("public key %x given as a string: %v", p, err)
			return
		}
		r.ok("public key, comment of %d bytes", len(comment))
		pref := func(what string, blob []byte) {
			l := []byte("ssh-ed25519 " + b64(blob) + " comment\n")
			if pk, err := sign.MakePublicKey(l); err == nil {
				r.bad("public key with %s: read as %x; %s", what, pk.Pk, l)
				return
			}
			if pk, err := sign.MakePublicKeyFromString(b64(blob)); err == nil {
				r.bad("public key with %s given as a string: read as %x; %s", what, pk.Pk, l)
				return
			}
			if ks, err := sign.ParseAuthorizedKeys(l); err == nil && len(ks) > 0 {
				r.bad("public key with %s in authorized_keys: read as %x; %s", what, ks[0].Pk, l)
				return
			}
			r.ok("public key, %s", what)
		}
		pref("a byte more", append(sshPub(p), 0))
		pref("a field more", append(sshPub(p), sshStr([]byte("x"))...))
		pref("31 bytes", sshPub(p[:31]))
		pref("33 bytes", sshPub(append(append([]byte{}, p...), 1)))
		pref("no bytes", sshPub(nil))
		pref("another algorithm", sshStr([]byte("ssh-ed25518"), p))
		pref("no algorithm", sshStr(nil, p))
		blob := sshPub(p)
		if c := rng.Intn(len(blob)); c != 32 {
			pref("bytes missing", blob[:c])
		}
		big := append([]byte{}, blob...)
		big[15] = 255
		pref("a huge length", big)

		// authorized_keys
		type want struct {
			p []byte
			c string
		}
		var ws []want
		var file bytes.Buffer
		var lines []string
		eol := []string{"\n", "\r\n"}[rng.Intn(2)]
		for j, m := 0, rng.Intn(9); j < m; j++ {
			var l string
			q := newSk(rng)[32:]
			c := comments[rng.Intn(len(comments))]
			key := "ssh-ed25519 " + b64(sshPub(q))
			good := want{q, strings.TrimSpace(c)}
			if c != "" {
				key += []string{" ", "\t", "  "}[rng.Intn(3)] + c
			} else {
				key += []string{"", " ", "\t"}[rng.Intn(3)]
			}
			other := others(rng)
			if rng.Intn(2) == 0 {
				other += " comment words"
			}
			opts := options(rng, q)
			switch rng.Intn(12) {
			case 0:
				l = ""
			case 1:
				l = strings.Repeat(" ", rng.Intn(4)) + "# " + key
			case 2:
				l = "#" + opts + " " + key
			case 3:
				l = " \t "
			case 4:
				l = other
			case 5:
				l = opts + " " + other
			case 6:
				l = "ssh-ed25519"
			case 7, 8:
				l = opts + []string{" ", "\t", "  "}[rng.Intn(3)] + key
				ws = append(ws, good)
			default:
				l = []string{"", " ", "\t"}[rng.Intn(3)] + key
				ws = append(ws, good)
			}
			lines = append(lines, l)
			file.WriteString(l)
			if j < m-1 || rng.Intn(2) == 0 {
				file.WriteString(eol)
			}
		}
		ks, err := sign.ParseAuthorizedKeys(file.Bytes())
		if err != nil {
			r.bad("authorized_keys: %v; %q", err, file.String())
			return
		}
		if len(ks) != len(ws) {
			r.bad("authorized_keys: %d keys, not %d; %q", len(ks), len(ws), file.String())
			return
		}
		for j, w := range ws {
			if err := checkPub(ks[j], w.p); err != nil || ks[j].Comment != w.c {
				r.bad("authorized_keys, key %d: comment %q, not %q; %v; %q", j, ks[j].Comment, w.c, err, file.String())
				return
			}
		}
		r.ok("authorized_keys of %d lines, %d keys", len(lines), len(ws))
	})
}

func options(rng *mrand.Rand, p []byte) string {
	var l []string
	for j := 1 + rng.Intn(4); j > 0; j-- {
		l = append(l, []string{"no-pty", "restrict", "cert-authority", `from="10.0.0.0/8,*.example.com"`, `command="echo hi"`, `command="a \"quoted\" word"`, `command="sh -c 'a,b' # no comment"`,
			`environment="A=B C"`, `permitopen="[::1]:22"`, `expiry-time="20300101"`, `command="x ` + b64(sshPub(newSk(rng)[32:])) + ` y"`, `command="ssh-ed25519 ` + b64(sshPub(newSk(rng)[32:])) + `"`, `command=""`, `command=" "`, `principals="a	b"`, `command="\\\" x"`}[rng.Intn(16)])
	}
	return strings.Join(l, ",")
}
