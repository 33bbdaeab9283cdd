package sign_test

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/pem"
	"errors"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC09(t *testing.T) {
	r := newRun(t, "a case is an input file, and the parser it is given to")
	defer r.done()
	dir := t.TempDir()
	ref := genKey(t)
	refSig, _ := ref.SignMessage([]byte("m"), "")
	refDoc, _ := refSig.MarshalBinary("x")

	usePriv := func(k *sign.PrivateKey) error {
		if k == nil || k.PublicKey() == nil {
			return errors.New("no key and no error")
		}
		s, err := k.SignMessage([]byte("m"), "c")
		if err != nil {
			return nil
		}
		k.PublicKey().VerifyMessage([]byte("m"), s)
		s.IsPKMatch(k.PublicKey())
		k.ToCurve25519SK()
		k.PublicKey().ToCurve25519PK()
		k.PublicKey().Hash()
		k.PublicKey().MarshalBinary("x")
		s.MarshalBinary("x")
		return nil
	}
	usePub := func(k *sign.PublicKey) error {
		if k == nil {
			return errors.New("no key and no error")
		}
		k.VerifyMessage([]byte("m"), refSig)
		refSig.IsPKMatch(k)
		k.ToCurve25519PK()
		k.Hash()
		k.MarshalBinary("x")
		return nil
	}
	pws := map[string]func() ([]byte, error){"no password function": nil, "no password": nopw, "password": pwf([]byte("pw")),
		"failing password": func() ([]byte, error) { return nil, errors.New("no") }, "failing password with bytes": func() ([]byte, error) { return []byte("pw"), errors.New("no") }}
	try := func(what, parser string, in []byte, f func() error) bool {
		ended := make(chan error, 1)
		go func() {
			err, _ := guard(f)
			ended <- err
		}()
		select {
		case err := <-ended:
			if err != nil {
				r.bad("%s given to %s: %v; input (hex) %s", what, parser, err, hex.EncodeToString(in))
				return false
			}
			r.ok("%s given to %s", what, parser)
		case <-time.After(100 * time.Second):
			r.bad("%s given to %s: no answer; input (hex) %s", what, parser, hex.EncodeToString(in))
			return false
		}
		return true
	}
	feed := func(what string, in []byte) bool {
		if costly(in) {
			return true
		}
		for n, pw := range pws {
			pw := pw
			if !try(what, "MakePrivateKey, "+n, in, func() error {
				k, err := sign.MakePrivateKey(in, pw)
				if err != nil {
					return nil
				}
				return usePriv(k)
			}) {
				return false
			}
		}
		return try(what, "MakePublicKey", in, func() error {
			k, err := sign.MakePublicKey(in)
			if err != nil {
				return nil
			}
			return usePub(k)
		}) && try(what, "MakePublicKeyFromString", in, func() error {
			k, err := sign.MakePublicKeyFromString(string(in))
			if err != nil {
				return nil
			}
			return usePub(k)
		}) && try(what, "Signature.UnmarshalBinary", in, func() error {
			var s sign.Signature
			if s.UnmarshalBinary(in) != nil {
				return nil
			}
			ref.PublicKey().VerifyMessage([]byte("m"), &s)
			s.IsPKMatch(ref.PublicKey())
			s.MarshalBinary("x")
			return nil
		}) && try(what, "ParseAuthorizedKeys", in, func() error {
			ks, err := sign.ParseAuthorizedKeys(in)
			if err != nil {
				return nil
			}
			for _, k := range ks {
				if err := usePub(k); err != nil {
					return err
				}
			}
			return nil
		})
	}

	type in struct {
		what string
		b    []byte
	}
	var ins []in
	add := func(what string, b []byte) { ins = append(ins, in{what, b}) }
	rng := newRng(9)
	for n := 0; n < 40; n++ {
		add("random bytes", bytesOf(rng, n))
	}
	sk := newSk(rng)
	plain := sshNew(sk, rng).file()
	ctr := sshNew(sk, rng).enc("aes256-ctr", []byte("pw")).file()
	cbc := sshNew(sk, rng).enc("aes256-cbc", []byte("pw")).file()
	yml := refPrivYAML(sk, []byte("pw"), bytesOf(rng, 32), 2, 1, 1)
	pubb, _ := ref.PublicKey().MarshalBinary("comment")
	line := "ssh-ed25519 " + b64(sshPub(sk[32:])) + " user@host"
	auth := []byte("# c\n\n" + line + "\r\ncommand=\"a b\",no-pty " + line + "\nssh-rsa " + b64(sshStr([]byte("ssh-rsa"), []byte{1, 0, 1}, bytesOf(rng, 64))) + "\n" + line)
	texts := map[string][]byte{"openssh key": plain, "openssh key, ctr": ctr, "openssh key, cbc": cbc, "yaml private key": yml, "yaml public key": pubb, "ssh public key": []byte(line + "\n"), "signature": refDoc, "authorized_keys": auth}
	for n, x := range texts {
		add(n, x)
		step := 1
		if len(x) > 150 && !thorough {
			step = len(x) / 75
		}
		for i := 0; i < len(x); i += step {
			add(n+", cut", x[:i])
			c := append([]byte{}, x...)
			c[i] ^= 1 << rng.Intn(8)
			add(n+", one bit changed", c)
			c = append([]byte{}, x[:i]...)
			add(n+", bytes missing", append(c, x[min2(len(x), i+1+rng.Intn(9)):]...))
			c = append([]byte{}, x[:i]...)
			add(n+", something inserted", append(append(c, []string{"\n", " ", "\t", ":", "\"", "\r", ",", "\\", "\x00", "\x80", "- ", "{", "  ", "\"\"", "%"}[rng.Intn(15)]...), x[i:]...))
		}
	}
	// openssh keys with single fields changed
	mutate := func(o *sshOpts) string {
		k := rng.Intn(15)
		some := func(n int) []byte { return bytesOf(rng, n) }
		ln := []int{0, 1, 3, 4, 8, 16, 31, 32, 33, 63, 64, 65, 100}[rng.Intn(13)]
		switch k {
		case 0:
			o.pub = some(ln)
		case 1:
			o.priv = some(ln)
		case 2:
			o.priv = o.priv[:min2(ln, len(o.priv))]
		case 3:
			o.outer = some(ln)
		case 4:
			o.typ = []string{"", "ssh-rsa", "ssh-ed25519x", "ssh-ed2551"}[rng.Intn(4)]
		case 5:
			o.pad = some(ln)
		case 6:
			o.c2++
		case 7:
			o.nkeys = []uint32{0, 2, 1 << 31}[rng.Intn(3)]
		case 8:
			o.salt = some(ln)
		case 9:
			o.rounds = uint32(rng.Intn(3))
		case 10:
			o.kdf = []string{"", "none", "bcrypt", "x"}[rng.Intn(4)]
		case 11:
			o.cipher = []string{"", "none", "aes256-ctr", "aes256-cbc", "aes128-ctr"}[rng.Intn(5)]
		case 12:
			o.trailer = some(ln)
		case 13:
			o.pad = []byte{}
		case 14:
			o.comment = string(some(ln))
		}
		return fmt.Sprint(k)
	}
	n := 400
	if thorough {
		n = 20000
	}
	for i := 0; i < n; i++ {
		o := sshNew(sk, rng)
		switch rng.Intn(3) {
		case 1:
			o.enc("aes256-ctr", []byte("pw"))
		case 2:
			o.enc("aes256-cbc", []byte("pw"))
		}
		w := mutate(o)
		if rng.Intn(3) == 0 {
			w += "," + mutate(o)
		}
		b := o.blob()
		switch rng.Intn(4) {
		case 0:
			b = b[:rng.Intn(len(b)+1)]
			w += " cut"
		case 1: // length fields (not the number of rounds)
			if o.kdf == "none" {
				j := rng.Intn(len(b))
				b[j] = []byte{0, 1, 127, 255}[rng.Intn(4)]
				w += " byte changed"
			}
		}
		add("openssh key, changed field "+w, sshPEM(b))
	}
	for _, ty := range []string{"RSA PRIVATE KEY", "OPENSSH PRIVATE KEY", "PRIVATE KEY", ""} {
		add("pem "+ty, []byte("-----BEGIN "+ty+"-----\nProc-Type: 4,ENCRYPTED\nDEK-Info: x\n\nAAAA\n-----END "+ty+"-----\n"))
		add("pem "+ty, []byte("-----BEGIN "+ty+"-----\n-----END "+ty+"-----\n"))
		add("pem "+ty, []byte("-----BEGIN "+ty+"-----\nAAAA\n-----END "+ty+"-----\n"))
	}
	// public keys on the wire
	for i := 0; i < 3*n/2; i++ {
		var b []byte
		switch rng.Intn(6) {
		case 0:
			b = sshStr([]byte("ssh-ed25519"), bytesOf(rng, rng.Intn(40)))
		case 1:
			b = append(sshPub(sk[32:]), bytesOf(rng, 1+rng.Intn(5))...)
		case 2:
			b = sshPub(sk[32:])
			b = b[:rng.Intn(len(b))]
		case 3:
			b = sshPub(sk[32:])
			b[[]int{0, 1, 2, 3, 15, 16, 17, 18}[rng.Intn(8)]] = []byte{0, 1, 31, 33, 127, 128, 255}[rng.Intn(7)]
		case 4:
			b = bytesOf(rng, rng.Intn(70))
		case 5:
			b = append(be4([]uint32{0, 1, 1 << 31, 1<<32 - 1, 1<<32 - 4}[rng.Intn(5)]), bytesOf(rng, rng.Intn(9))...)
		}
		s := b64(b)
		add("public key blob", []byte(s))
		add("public key blob in yaml", []byte("pk: "+s+"\nhash: "+s+"\n"))
		add("public key blob in a line", []byte([]string{"ssh-ed25519 ", "ssh-rsa ", "a=\"b c\" ssh-ed25519 ", "\"", " ", "\t\t", "x,\"\\\"\" y "}[rng.Intn(7)]+s+[]string{"", " c", " c d", "\r", "\r\n", " \t"}[rng.Intn(6)]))
		add("odd signature", []byte("signature: "+s+"\npkhash: "+[]string{"", s, "x"}[rng.Intn(3)]+"\n"))
	}
	// yaml private keys
	num := []string{"0", "1", "-1", "2", "3", "64", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "4294967296", "99999999999999999999", "x", "1.5", "true", "~", "[1]", "33554433", "1073741824"}
	for i := 0; i < n; i++ {
		pk := func(def string, k int) string {
			if rng.Intn(4) == 0 {
				return num[rng.Intn(len(num))]
			}
			return def
		}
		salt := bytesOf(rng, []int{0, 1, 11, 12, 13, 31, 32, 33}[rng.Intn(8)])
		s := fmt.Sprintf("esk: %s\nsalt: %s\nZ: %s\nr: %s\np: %s\n", b64(bytesOf(rng, []int{0, 1, 15, 16, 17, 79, 80, 81}[rng.Intn(8)])), b64(salt), pk("2", 0), pk("1", 1), pk("1", 2))
		add("yaml private key with odd values", []byte(s))
		if len(salt) >= 12 {
			add("sealed private key of odd length", refPrivYAML(bytesOf(rng, []int{0, 1, 31, 32, 33, 63, 64, 65}[rng.Intn(8)]), []byte("pw"), salt, 2, 1, 1))
		}
	}
	for _, v := range []string{"{}", "[]", "null", "~", "a", "esk:", "esk: []", "esk: {}", "salt: \nesk: ", "pk:", "pk: []", "pk: ~", "pk: 1", "signature:", "signature: ~", "signature: []", "a: &a [*a]", "&a a", "<<: *b", "--- \n---\n", "!!binary x", "pk: !!binary AAAA", "? {a: b}\n: c", "\"\\", "pk: \"\\xff\"", "%YAML 9", "\t", "a:\n\t- b"} {
		add("yaml", []byte(v))
	}
	for i := 0; i < n; i++ {
		add("authorized_keys soup", soup(rng, line))
	}
	r.par(len(ins), func(i int) { feed(ins[i].what, ins[i].b) })

	// files
	for i, fn := range []string{"", filepath.Join(dir, "missing"), dir, "/dev/null"} {
		try(fmt.Sprintf("file %d", i), "the readers", []byte(fn), func() error {
			if k, err := sign.ReadPrivateKey(fn, nil); err == nil {
				return usePriv(k)
			}
			if k, err := sign.ReadPublicKey(fn); err == nil {
				return usePub(k)
			}
			if s, err := sign.ReadSignature(fn); err == nil && s == nil {
				return errors.New("no signature and no error")
			}
			return nil
		})
	}
	for i, x := range []([]byte){plain, ctr, yml, pubb, refDoc, []byte(line)} {
		fn := filepath.Join(dir, fmt.Sprint(i))
		os.WriteFile(fn, x, 0600)
		try(fmt.Sprintf("written file %d", i), "the readers", x, func() error {
			if k, err := sign.ReadPrivateKey(fn, pwf([]byte("pw"))); err == nil {
				return usePriv(k)
			}
			if k, err := sign.ReadPublicKey(fn); err == nil {
				return usePub(k)
			}
			sign.ReadSignature(fn)
			return nil
		})
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// soup is a text made of pieces of authorized_keys files
func soup(rng *mrand.Rand, line string) []byte {
	var b bytes.Buffer
	for j := rng.Intn(14); j > 0; j-- {
		b.WriteString([]string{line, "\n", "\r\n", "\r", " ", "\t", "\"", ",", "\\\"", "#", "ssh-ed25519", "ssh-rsa AAAA", "command=\"x y\"", "a", "=", "AAAA", "\n\n", "\x00", "\xff", "\u00a0", "\v", "AAAAC3NzaC1lZDI1NTE5"}[rng.Intn(22)])
	}
	return b.Bytes()
}

// costly tells if the key asks for very many rounds of bcrypt
func costly(in []byte) bool {
	b, _ := pem.Decode(in)
	if b == nil {
		return false
	}
	i := bytes.Index(b.Bytes, []byte("bcrypt"))
	if i < 0 || len(b.Bytes) < i+14 {
		return false
	}
	x := b.Bytes[i+10:]
	n := uint64(binary.BigEndian.Uint32(x)) + 4
	return n+4 <= uint64(len(x)) && binary.BigEndian.Uint32(x[n:]) > 64
}
