package sign

// C15. OpenSSH keys, written as the format says by functions of this file.

const vPemType = "OPENSSH PRIVATE KEY"
const vEd = "ssh-ed25519"

func vField(s string) string   { return vBe32(uint32(len(s))) + s }
func vPubBlob(p string) string { return vField(vEd) + vField(p) }

// an unencrypted private part: seed and public key, comment, 1, 2, ... as padding
func vInner(seed string) string {
	p := vEdPub(seed)
	c := vU32("check")
	n := vInt("pad")
	vAssume(0 <= n && n <= 255 && len(vStr("comment")) < 1<<30)
	return vBe32(c) + vBe32(c) + vField(vEd) + vField(p) + vField(seed+p) + vField(vStr("comment")) +
		vRange(0, n, func(i int) string { return string([]byte{byte(i + 1)}) })
}

func vOuter(ciph, kdf, opts, pub, inner string) string {
	return "openssh-key-v1\x00" + vField(ciph) + vField(kdf) + vField(opts) + vBe32(1) + vField(pub) + vField(inner)
}

func vLoaded(doc, pw, want string, pwf func() ([]byte, error)) {
	k, err := MakePrivateKey([]byte(doc), pwf)
	vAssert("loads", err == nil && k != nil)
	vPrivInv(k, want)
	// into an object in use
	k2 := vAnyKey("2")
	err = k2.UnmarshalBinary([]byte(doc), pwf)
	vAssert("loads into an object in use", err == nil)
	vPrivInv(k2, want)
	vCover("end")
}

func vcC15_plain() {
	seed := vStrN("seed", 32)
	doc := vPem(vPemType, vOuter("none", "none", "", vPubBlob(vEdPub(seed)), vInner(seed)))
	pw := vStr("pw")
	if vBool("nopw") {
		vLoaded(doc, pw, seed+vEdPub(seed), nil)
		return
	}
	vLoaded(doc, pw, seed+vEdPub(seed), func() ([]byte, error) { return []byte(pw), nil })
}

func vOpts() (string, string, int) {
	salt := vStr("salt")
	r := vU32("rounds")
	vAssume(len(salt) > 0 && len(salt) < 1<<20 && r > 0)
	return vField(salt) + vBe32(r), salt, int(r)
}

func vcC15_ctr() {
	seed := vStrN("seed", 32)
	pw := vStr("pw")
	vAssume(len(pw) > 0)
	opts, salt, r := vOpts()
	k := vBcrypt(pw, salt, r, 48)
	doc := vPem(vPemType, vOuter("aes256-ctr", "bcrypt", opts, vPubBlob(vEdPub(seed)), vCtr(k[:32], k[32:48], vInner(seed))))
	vLoaded(doc, pw, seed+vEdPub(seed), func() ([]byte, error) { return []byte(pw), nil })
}

func vcC15_cbc() {
	seed := vStrN("seed", 32)
	pw := vStr("pw")
	vAssume(len(pw) > 0)
	opts, salt, r := vOpts()
	k := vBcrypt(pw, salt, r, 48)
	in := vInner(seed)
	vAssume(len(in)%16 == 0)
	doc := vPem(vPemType, vOuter("aes256-cbc", "bcrypt", opts, vPubBlob(vEdPub(seed)), vCbcEnc(k[:32], k[32:48], in)))
	vLoaded(doc, pw, seed+vEdPub(seed), func() ([]byte, error) { return []byte(pw), nil })
}

// a parser of the format, as the oracle: false if the text does not go on as said
type vParse struct {
	s   string
	bad bool
}

func (p *vParse) u32() uint32 {
	if p.bad || len(p.s) < 4 {
		p.bad = true
		return 0
	}
	v := vNum32(p.s, 0)
	p.s = p.s[4:]
	return v
}

func (p *vParse) field() string {
	n := int(p.u32())
	if p.bad || len(p.s) < n {
		p.bad = true
		return ""
	}
	v := p.s[:n]
	p.s = p.s[n:]
	return v
}

// any bytes in the PEM block: what is loaded is what the format says is stored
func vcC15_any() {
	body := vStr("body")
	pw := vStr("pw")
	asked := 0
	k, err := MakePrivateKey([]byte(vPem(vPemType, body)), func() ([]byte, error) {
		asked++
		return []byte(pw), nil
	})
	if err != nil {
		vCover("refused")
		vAssert("no key on error", k == nil)
		return
	}
	vCover("loaded")
	vAssert("the magic text", len(body) >= 15 && body[:15] == "openssh-key-v1\x00")
	p := &vParse{s: body[15:]}
	ciph, kdf, opts, n, pub, inner := p.field(), p.field(), p.field(), p.u32(), p.field(), p.field()
	vAssert("complete header, nothing after it", !p.bad && len(p.s) == 0)
	vAssert("one key", n == 1)
	if ciph == "none" {
		vAssert("no key derivation", kdf == "none")
		vAssert("no password", asked == 0)
	} else {
		vCover("encrypted")
		vAssert("bcrypt", kdf == "bcrypt" && asked == 1)
		o := &vParse{s: opts}
		salt, r := o.field(), o.u32()
		vAssert("complete options", !o.bad && len(o.s) == 0)
		key := vBcrypt(pw, salt, int(r), 48)
		if ciph == "aes256-ctr" {
			inner = vCtr(key[:32], key[32:48], inner)
		} else {
			vAssert("a known cipher", ciph == "aes256-cbc")
			inner = vCbcDec(key[:32], key[32:48], inner)
		}
	}
	q := &vParse{s: inner}
	c1, c2, typ, pk, sk := q.u32(), q.u32(), q.field(), q.field(), q.field()
	q.field()
	vAssert("complete key", !q.bad)
	vAssert("the two check numbers are the same", c1 == c2)
	vAssert("an ed25519 key", typ == vEd)
	vAssert("the private key is the one stored", string(k.Sk) == sk)
	vPrivInv(k, sk)
	vAssert("the public key belongs to it", pk == sk[32:64])
	vAssert("the public key in the header too", pub == vPubBlob(pk))
	if i := vInt("i"); 0 <= i && i < len(q.s) {
		vAssert("the padding is 1, 2, 3, ...", int(q.s[i]) == i+1)
		vCover("padding")
	}
}

// with no password function an encrypted key is refused
func vcC15_nopw() {
	body := vStr("body")
	k, err := MakePrivateKey([]byte(vPem(vPemType, body)), nil)
	if err != nil {
		vCover("refused")
		vAssert("no key on error", k == nil)
		return
	}
	vCover("loaded")
	p := &vParse{s: body[15:]}
	ciph, kdf := p.field(), p.field()
	vAssert("not encrypted", !p.bad && ciph == "none" && kdf == "none")
}

// the password function fails
func vcC15_pwfail() {
	body := vStr("body")
	e := vErr("pw")
	vAssume(e != nil)
	asked := 0
	k, err := MakePrivateKey([]byte(vPem(vPemType, body)), func() ([]byte, error) {
		asked++
		return vBytes("pw"), e
	})
	if asked > 0 {
		vCover("asked")
		vAssert("no password, no key", err != nil && k == nil)
	}
	if err == nil {
		vCover("loaded")
	}
}

// PEM of another type
func vcC15_type() {
	t := vStr("type")
	vAssume(t != vPemType)
	doc := vPem(t, vStr("body"))
	vAssume(vNoYaml(doc))
	k, err := MakePrivateKey([]byte(doc), func() ([]byte, error) { return vBytes("pw"), nil })
	vAssert("refused", err != nil && k == nil)
	vCover("end")
}

// a public key line
func vLine(blob, comment, end string) string {
	s := vEd
	if vBool("tab") {
		s += "\t"
	} else {
		s += " "
	}
	s += vB64(blob)
	if vBool("commented") {
		if vBool("two blanks") {
			s += "  "
		} else {
			s += " "
		}
		s += comment
	}
	return s + end
}

func vEnd() string {
	if vBool("noend") {
		return ""
	}
	if vBool("crlf") {
		return "\r\n"
	}
	return "\n"
}

func vComment() string {
	if vBool("commented") {
		c := vStr("comment")
		vAssume(vOneLine(c) && len(c) > 0)
		return c
	}
	return ""
}

func vcC15_public() {
	p := vStrN("p", 32)
	c := vComment()
	line := vLine(vPubBlob(p), c, vEnd())
	pk, err := MakePublicKey([]byte(line))
	vAssert("loads", err == nil && pk != nil)
	vPubInv(pk, p)
	vAssert("the comment", pk.Comment == c)
	k2 := vAnyPub("q")
	vAssert("loads into an object in use", k2.UnmarshalBinary([]byte(line)) == nil)
	vPubInv(k2, p)
	k3, err := MakePublicKeyFromString(vB64(vPubBlob(p)))
	vAssert("loads from the command line", err == nil && k3 != nil)
	vPubInv(k3, p)
	vCover("end")
}

// the encoding of an ed25519 public key, and nothing else
func vWellFormed(blob string) (string, bool) {
	p := &vParse{s: blob}
	alg, k := p.field(), p.field()
	return k, !p.bad && alg == vEd && len(k) == 32 && len(p.s) == 0
}

// any bytes in place of the key
func vcC15_blob() {
	blob := vStr("blob")
	vAssume(len(blob) > 0)
	line := vLine(blob, vComment(), vEnd())
	vAssume(vNoYaml(line))
	pk, err := MakePublicKey([]byte(line))
	if err != nil {
		vCover("refused")
		vAssert("no key on error", pk == nil)
		_, ok := vWellFormed(blob)
		vAssert("a well-formed key is read", !ok)
		return
	}
	vCover("loaded")
	p, ok := vWellFormed(blob)
	vAssert("only a well-formed key is read", ok)
	vPubInv(pk, p)
}

func vcC15_string() {
	blob := vStr("blob")
	pk, err := MakePublicKeyFromString(vB64(blob))
	if err != nil {
		vCover("refused")
		vAssert("no key on error", pk == nil)
		_, ok := vWellFormed(blob)
		vAssert("a well-formed key is read", !ok && len(blob) != 32)
		return
	}
	vCover("loaded")
	if len(blob) == 32 {
		vCover("raw")
		vPubInv(pk, blob)
		return
	}
	p, ok := vWellFormed(blob)
	vAssert("only a well-formed key is read", ok)
	vPubInv(pk, p)
}

// another algorithm named in front of the key
func vcC15_algo() {
	a := vStr("algo")
	vAssume(vNoBlank(a) && a != vEd && len(a) > 0)
	line := a + " " + vB64(vPubBlob(vStrN("p", 32))) + vEnd()
	vAssume(vNoYaml(line))
	pk, err := MakePublicKey([]byte(line))
	vAssert("refused", err != nil && pk == nil)
	vCover("end")
}

// authorized_keys files of two lines, each of one of these forms
type vAuth struct {
	key     bool
	p, comm string
}

// what may stand between two fields (of a file of one line)
func vBlank(tag string) string {
	switch vInt("blank" + tag) {
	case 0:
		return " "
	case 1:
		if vOneAuthLine {
			return "\t"
		}
	case 2:
		if vOneAuthLine {
			return " \t  "
		}
	}
	vStop()
	return ""
}

var vOneAuthLine bool

func vKeyText(tag string) (string, *vAuth) {
	a := &vAuth{key: true, p: vStrN("p"+tag, 32)}
	s := vEd + vBlank("a"+tag) + vB64(vPubBlob(a.p))
	if vBool("commented" + tag) {
		a.comm = vStr("comment" + tag)
		vAssume(vOneLine(a.comm) && len(a.comm) > 0)
		s += vBlank("c"+tag) + a.comm
	}
	return s, a
}

func vOtherKey(tag string) string {
	rest := vStr("rsa" + tag)
	vAssume(len(rest) < 1<<20)
	return "ssh-rsa " + vB64(vField("ssh-rsa")+rest) + " someone"
}

func vAuthLine(tag string) (string, *vAuth) {
	key, a := vKeyText(tag)
	switch vInt("form" + tag) {
	case 0:
		return "", &vAuth{}
	case 1:
		return " \t", &vAuth{}
	case 2:
		return "# " + key, &vAuth{}
	case 3:
		return " #" + key, &vAuth{}
	case 4:
		return key, a
	case 5:
		return "\t" + key + " ", a
	case 6:
		return vOtherKey(tag), &vAuth{}
	case 7:
		return `no-pty,from="10.0.0.1,*.org" ` + key, a
	case 8:
		return `command="ssh-ed25519 \"a b\" c",no-pty` + "\t" + key, a
	case 9:
		return "restrict " + vOtherKey(tag), &vAuth{}
	}
	if !vOneAuthLine {
		vStop()
		return "", nil
	}
	// more option lists and lines without a key
	switch vInt("form" + tag) {
	case 10:
		return `restrict,pty,permitopen="[::1]:22"  ` + key, a
	case 11:
		return `environment="A=\"x y\"",tunnel="0"` + "\t " + key, a
	case 12:
		return `command="" ` + key, a
	case 13:
		return vEd, &vAuth{}
	case 14:
		return `command="no end ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIBwM`, &vAuth{}
	case 15:
		return "no-pty " + vEd, &vAuth{}
	case 16:
		return "cert-authority \t" + key, a
	case 17:
		rest := vStr("cert" + tag)
		vAssume(len(rest) < 1<<20)
		cert := "ssh-ed25519-cert-v01@openssh.com"
		return cert + vBlank("x") + vB64(vField(cert)+rest), &vAuth{}
	}
	vStop()
	return "", nil
}

func vCheckAuth(ks []*PublicKey, at int, a *vAuth) int {
	if !a.key {
		return at
	}
	vAssert("the key is listed", at < len(ks))
	vAssert("the line's key", string(ks[at].Pk) == a.p)
	vAssert("the line's comment", ks[at].Comment == a.comm)
	k := *ks[at]
	vPubInv(&k, a.p)
	return at + 1
}

func vAuthFile(n int) {
	eol := "\n"
	if vBool("crlf") {
		eol = "\r\n"
	}
	l1, a1 := vAuthLine("1")
	file := l1
	a2 := &vAuth{}
	if n > 1 {
		l2, a := vAuthLine("2")
		a2 = a
		file += eol + l2
	}
	if vBool("end") {
		file += eol
	}
	ks, err := ParseAuthorizedKeys([]byte(file))
	vAssert("read", err == nil)
	at := vCheckAuth(ks, 0, a1)
	at = vCheckAuth(ks, at, a2)
	vAssert("nothing else is listed", at == len(ks))
	vCover("end")
}

func vcC15_auth1() { vOneAuthLine = true; vAuthFile(1) }
func vcC15_auth2() { vAuthFile(2) }

// between two lines with keys
func vcC15_auth3() {
	l1, a1 := vKeyText("1")
	l2, a2 := vAuthLine("2")
	l3, a3 := vKeyText("3")
	ks, err := ParseAuthorizedKeys([]byte(l1 + "\n" + l2 + "\n" + l3 + "\n"))
	vAssert("read", err == nil)
	at := vCheckAuth(ks, 0, a1)
	at = vCheckAuth(ks, at, a2)
	at = vCheckAuth(ks, at, a3)
	vAssert("nothing else is listed", at == len(ks))
	vCover("end")
}
