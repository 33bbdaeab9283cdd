package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/opencoff/sigtool/sign"
)

// The tool itself, run as a process of its own in a scratch directory: the test binary calls
// main() when it is started with VERIF_TOOL.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_TOOL") != "" {
		signal.Ignore(syscall.SIGXFSZ)
		if n, err := strconv.ParseUint(os.Getenv("VERIF_FSIZE"), 10, 64); err == nil {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
		}
		os.Args = append([]string{"sigtool"}, os.Args[1:]...)
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

type tkey struct {
	sk   ed25519.PrivateKey
	name string
}

func be(n int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(n)) }
func sshs(l ...[]byte) (r []byte) {
	for _, s := range l {
		r = append(append(r, be(len(s))...), s...)
	}
	return
}

func newKey(rng *mrand.Rand, dir, name string) tkey {
	seed := make([]byte, 32)
	rng.Read(seed)
	sk := ed25519.NewKeyFromSeed(seed)
	pub := sshs([]byte("ssh-ed25519"), sk[32:])
	in := append(be(7), be(7)...)
	in = append(in, sshs([]byte("ssh-ed25519"), sk[32:], sk, []byte(name))...)
	for i := 1; len(in)%8 != 0; i++ {
		in = append(in, byte(i))
	}
	b := append([]byte("openssh-key-v1\x00"), sshs([]byte("none"), []byte("none"), nil)...)
	b = append(b, be(1)...)
	b = append(b, sshs(pub, in)...)
	os.WriteFile(filepath.Join(dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: b}), 0600)
	os.WriteFile(filepath.Join(dir, name+".pub"), []byte("ssh-ed25519 "+base64.StdEncoding.EncodeToString(pub)+" "+name+"@host\n"), 0644)
	return tkey{sk, name}
}

func (k tkey) line() string {
	return "ssh-ed25519 " + base64.StdEncoding.EncodeToString(sshs([]byte("ssh-ed25519"), k.sk[32:])) + " " + k.name + "@host\n"
}

type tcase struct {
	what   string
	args   []string
	env    []string
	stdin  []byte
	stdout string // "": collected; else the file that is standard output
	ok     bool   // has to succeed
	either bool   // may fail
	out    string // the output file, "-": stdout, "": none
	check  func(out []byte) string
	setup  func(dir string)
	during func(dir string) // between the start and the input
	left   string           // what may be left behind by a failure
}

func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			m[p[len(dir):]] = string(b)
		} else {
			m[p[len(dir):]] = fi.Mode().String()
		}
		return nil
	})
	return m
}

func TestVerifC16(t *testing.T) {
	fmt.Println("RULE: a case is a command line with the files, environment, limits and standard streams it meets")
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := mrand.New(mrand.NewSource(1600 + s))
	base := t.TempDir()
	common := filepath.Join(base, "common")
	os.Mkdir(common, 0755)
	var ks []tkey
	for _, n := range []string{"a", "b", "c"} {
		ks = append(ks, newKey(rng, common, n))
	}
	pt := make([]byte, 300000)
	rng.Read(pt)
	os.WriteFile(filepath.Join(common, "in"), pt, 0644)
	os.WriteFile(filepath.Join(common, "small"), []byte("hello"), 0644)
	os.WriteFile(filepath.Join(common, "empty"), nil, 0644)
	os.WriteFile(filepath.Join(common, "junk"), []byte("not a key\n"), 0644)
	os.Mkdir(filepath.Join(common, "dir"), 0755)
	os.Mkdir(filepath.Join(common, ".ssh"), 0755)
	os.WriteFile(filepath.Join(common, ".ssh/authorized_keys"), []byte("# keys\n"+ks[0].line()+"\n"+ks[1].line()+ks[2].line()), 0644)
	key := func(i int) *sign.PrivateKey {
		k, err := sign.ReadPrivateKey(filepath.Join(common, ks[i].name+".key"), func() ([]byte, error) { return nil, nil })
		if err != nil {
			t.Fatal(err)
		}
		return k
	}
	pub := func(i int) *sign.PublicKey {
		k, err := sign.ReadPublicKey(filepath.Join(common, ks[i].name+".pub"))
		if err != nil {
			t.Fatal(err)
		}
		return k
	}
	var mu sync.Mutex
	// what the commands need, made by the package
	for i, n := range []string{"in", "small", "empty"} {
		sg, err := key(0).SignFile(filepath.Join(common, n))
		if err != nil {
			t.Fatal(err)
		}
		b, _ := sg.MarshalBinary("")
		os.WriteFile(filepath.Join(common, n+".good"), b, 0644)
		sg, _ = key(0).SignFile(filepath.Join(common, []string{"small", "empty", "in"}[i]))
		b, _ = sg.MarshalBinary("")
		os.WriteFile(filepath.Join(common, n+".other"), b, 0644)
	}
	enc := func(fn string, sender *sign.PrivateKey, data []byte, to ...int) []byte {
		e, err := sign.NewEncryptor(sender, 65536)
		if err != nil {
			t.Fatal(err)
		}
		for _, i := range to {
			e.AddRecipient(pub(i))
		}
		var b nopc
		if err := e.Encrypt(bytes.NewReader(data), &b); err != nil {
			t.Fatal(err)
		}
		os.WriteFile(filepath.Join(common, fn), b.Bytes(), 0644)
		return b.Bytes()
	}
	e1 := enc("enc", nil, pt, 0, 1)
	e2 := enc("senc", key(2), pt, 0)
	enc("eenc", nil, nil, 1, 0)
	decrypts := func(want []byte, sender int, to ...int) func([]byte) string {
		return func(out []byte) string {
			mu.Lock()
			defer mu.Unlock()
			for _, i := range to {
				d, err := sign.NewDecryptor(bytes.NewReader(out))
				if err != nil {
					return "the output is not an encrypted file: " + err.Error()
				}
				var pk *sign.PublicKey
				if sender >= 0 {
					pk = pub(sender)
				}
				if err := d.SetPrivateKey(key(i), pk); err != nil {
					return fmt.Sprintf("recipient %s can't open the output: %v", ks[i].name, err)
				}
				var b nopc
				if err := d.Decrypt(&b); err != nil {
					return "the output doesn't decrypt: " + err.Error()
				}
				if !bytes.Equal(b.Bytes(), want) {
					return "the output decrypts to something else"
				}
			}
			return ""
		}
	}
	signs := func(i int, fn string) func([]byte) string {
		return func(out []byte) string {
			f := filepath.Join(base, fmt.Sprintf("sig%d", unique()))
			os.WriteFile(f, out, 0644)
			defer os.Remove(f)
			sg, err := sign.ReadSignature(f)
			if err != nil {
				return "the output is not a signature: " + err.Error()
			}
			if ok, err := pub(i).VerifyFile(filepath.Join(common, fn), sg); err != nil || !ok {
				return "the signature is not valid"
			}
			return ""
		}
	}
	is := func(want []byte) func([]byte) string {
		return func(out []byte) string {
			if !bytes.Equal(out, want) {
				return fmt.Sprintf("the output has %d bytes, not the %d expected", len(out), len(want))
			}
			return ""
		}
	}
	var cases []tcase
	add := func(c tcase) { cases = append(cases, c) }
	write := func(fn, data string) func(string) {
		return func(dir string) { os.WriteFile(filepath.Join(dir, fn), []byte(data), 0644) }
	}
	mkdir := func(fn string) func(string) {
		return func(dir string) { os.Mkdir(filepath.Join(dir, fn), 0755) }
	}

	// command lines
	for _, a := range [][]string{{}, {"frob"}, {"--frob"}, {"e"}, {"d"}, {"v"}, {"s"}, {"g"}, {"encrypt", "a.pub"}, {"decrypt"}, {"sign", "a.key"}, {"verify", "a.pub", "in.good"}, {"generate"}, {""}} {
		add(tcase{what: "bad command line", args: a})
	}
	for _, c := range []string{"encrypt", "decrypt", "sign", "verify", "generate"} {
		for _, o := range []string{"--frob", "-Z", "--no-password=maybe", "--outfile", "--overwrite=7x"} {
			add(tcase{what: "bad option", args: []string{c, o}})
			add(tcase{what: "bad option", args: []string{c, "a.key", "in", o}})
		}
	}

	// verify
	for _, f := range []string{"in", "small", "empty"} {
		for _, q := range []string{"", "-q"} {
			v := func(what string, ok bool, a ...string) {
				args := []string{"verify"}
				if q != "" {
					args = append(args, q)
				}
				add(tcase{what: what, args: append(args, a...), ok: ok})
			}
			v("right signature", true, "a.pub", f+".good", f)
			v("right signature, key as a string", true, strings.Fields(ks[0].line())[1], f+".good", f)
			v("another file's signature", false, "a.pub", f+".other", f)
			v("another key", false, "b.pub", f+".good", f)
			v("another key as a string", false, strings.Fields(ks[1].line())[1], f+".good", f)
			v("no such file", false, "a.pub", f+".good", "nosuch")
			v("no such key", false, "nosuch", f+".good", f)
			v("no such signature", false, "a.pub", "nosuch", f)
			v("junk key", false, "junk", f+".good", f)
			v("junk signature", false, "a.pub", "junk", f)
			v("signature of a directory", false, "a.pub", f+".good", "dir")
		}
	}

	// where outputs go
	type where struct {
		what   string
		out    string
		opts   []string
		ok     bool
		either bool
		env    []string
		stdout string
		setup  func(string)
	}
	outs := func(small bool) []where {
		lim := []string{"0", "1", "100"}
		if !small {
			lim = append(lim, "5000", "200000")
		}
		w := []where{
			{what: "new file", out: "out", ok: true},
			{what: "stdout", out: "-", ok: true},
			{what: "existing file", out: "out", setup: write("out", "precious")},
			{what: "existing file, overwrite", out: "out", opts: []string{"--overwrite"}, ok: true, setup: write("out", "precious")},
			{what: "new file, overwrite", out: "out", opts: []string{"--overwrite"}, ok: true},
			{what: "directory", out: "out", setup: mkdir("out")},
			{what: "directory, overwrite", out: "out", opts: []string{"--overwrite"}, setup: mkdir("out")},
			{what: "in a missing directory", out: "missing/out"},
			{what: "below a file", out: "in/out"},
			{what: "full stdout", out: "-", stdout: "/dev/full"},
		}
		for _, l := range lim {
			w = append(w, where{what: "file limited to " + l, out: "out", env: []string{"VERIF_FSIZE=" + l}},
				where{what: "file limited to " + l + ", overwrite", out: "out", opts: []string{"--overwrite"}, env: []string{"VERIF_FSIZE=" + l}, setup: write("out", "precious")})
		}
		return w
	}
	all := func(c tcase, w where, opt string, pre []string, post []string) {
		c.args = append(append([]string{}, pre...), opt, w.out)
		c.args = append(append(c.args, w.opts...), post...)
		c.out, c.stdout, c.setup = w.out, w.stdout, w.setup
		c.env = append(append([]string{}, c.env...), w.env...)
		c.ok = c.ok && w.ok
		c.what += ", " + w.what
		add(c)
	}

	// sign
	for _, w := range outs(true) {
		for _, f := range []string{"in", "empty"} {
			all(tcase{what: "sign", ok: true, check: signs(0, f)}, w, "-o", []string{"sign", "--no-password"}, []string{"a.key", f})
		}
		all(tcase{what: "sign a missing file"}, w, "-o", []string{"s", "--no-password"}, []string{"a.key", "nosuch"})
		all(tcase{what: "sign a directory"}, w, "-o", []string{"s", "--no-password"}, []string{"a.key", "dir"})
		all(tcase{what: "sign with a missing key"}, w, "-o", []string{"s", "--no-password"}, []string{"nosuch", "in"})
		all(tcase{what: "sign with a public key"}, w, "-o", []string{"s", "--no-password"}, []string{"a.pub", "in"})
	}
	add(tcase{what: "sign, default name", args: []string{"sign", "a.key", "in"}, ok: true, out: "in.sig", check: signs(0, "in")})
	add(tcase{what: "sign, default name exists", args: []string{"sign", "a.key", "in"}, out: "in.sig", setup: write("in.sig", "precious")})

	// encrypt
	for _, w := range outs(false) {
		x := func(what string, ok bool, check func([]byte) string, opts []string, a ...string) {
			all(tcase{what: what, ok: ok, check: check, stdin: pt}, w, "-o", append([]string{"encrypt"}, opts...), a)
		}
		x("encrypt to one", true, decrypts(pt, -1, 0), nil, "a.pub", "in")
		x("encrypt stdin", true, decrypts(pt, -1, 0), nil, "a.pub", "-")
		x("encrypt to three", true, decrypts(pt, -1, 0, 1, 2), []string{"-B", "1000"}, "a.pub", "b.pub", "c.pub", "in")
		x("encrypt to a user", true, decrypts(pt, -1, 1), nil, "b@host", "in")
		x("encrypt to users and files", true, decrypts(pt, -1, 0, 1, 2), nil, "c@host", "b.pub", "a@host", "in")
		x("encrypt with a sender", true, decrypts(pt, 2, 1, 0), []string{"-s", "c.key"}, "b.pub", "a.pub", "in")
		x("encrypt, unknown user first", false, nil, nil, "nobody@host", "b.pub", "in")
		x("encrypt, unknown user last", false, nil, nil, "b.pub", "nobody@host", "in")
		x("encrypt, missing key first", false, nil, nil, "nosuch", "b.pub", "in")
		x("encrypt, missing key in the middle", false, nil, nil, "a.pub", "nosuch", "b.pub", "in")
		x("encrypt, junk key last", false, nil, nil, "a.pub", "junk", "in")
		x("encrypt, private key as recipient", false, nil, nil, "a.key", "in")
		x("encrypt, missing input", false, nil, nil, "a.pub", "nosuch")
		x("encrypt, directory as input", false, nil, nil, "a.pub", "dir")
		x("encrypt, missing sender", false, nil, []string{"-s", "nosuch"}, "a.pub", "in")
		x("encrypt, public key as sender", false, nil, []string{"-s", "a.pub"}, "a.pub", "in")
	}
	for _, b := range []string{"x", "-1", "0", "3q", "2G", "100000000G", ""} {
		c := tcase{what: "block size " + b, args: []string{"encrypt", "-B" + b, "-o", "out", "a.pub", "in"}, out: "out", either: true, check: decrypts(pt, -1, 0)}
		if b == "x" || b == "3q" || b == "-1" {
			c.either = false
		}
		add(c)
	}
	add(tcase{what: "encrypt without a home directory", args: []string{"encrypt", "-o", "out", "a@host", "in"}, out: "out", env: []string{"HOME="}})
	add(tcase{what: "encrypt to a user without authorized_keys", args: []string{"encrypt", "-o", "out", "a@host", "in"}, out: "out", env: []string{"HOME=/nonexistent"}})

	// decrypt
	cut := []int{0, 1, 20, 41, 42, 100, 200, len(e1) / 2, len(e1) - 100, len(e1) - 65, len(e1) - 64, len(e1) - 63, len(e1) - 1}
	for i, n := range cut {
		os.WriteFile(filepath.Join(common, fmt.Sprintf("cut%d", i)), e1[:n], 0644)
		f := append([]byte{}, e2...)
		if n > 200 {
			n += len(e2) - len(e1)
		}
		f[n] ^= 1 << uint(rng.Intn(8))
		os.WriteFile(filepath.Join(common, fmt.Sprintf("flip%d", i)), f, 0644)
	}
	for _, w := range outs(false) {
		x := func(what string, ok bool, opts []string, a ...string) {
			all(tcase{what: what, ok: ok, check: is(pt), stdin: e1}, w, "-o", append([]string{"decrypt"}, opts...), a)
		}
		x("decrypt", true, nil, "a.key", "enc")
		x("decrypt stdin", true, nil, "b.key", "-")
		x("decrypt stdin", true, nil, "b.key")
		x("decrypt, sender checked", true, []string{"-v", "c.pub"}, "a.key", "senc")
		x("decrypt, sender not given", false, nil, "a.key", "senc")
		x("decrypt, wrong sender", false, []string{"-v", "b.pub"}, "a.key", "senc")
		x("decrypt, no sender", false, []string{"-v", "c.pub"}, "a.key", "enc")
		x("decrypt, missing sender key", false, []string{"-v", "nosuch"}, "a.key", "senc")
		x("decrypt, not a recipient", false, nil, "c.key", "enc")
		x("decrypt, missing key", false, nil, "nosuch", "enc")
		x("decrypt, public key", false, nil, "a.pub", "enc")
		x("decrypt, missing input", false, nil, "a.key", "nosuch")
		x("decrypt, directory", false, nil, "a.key", "dir")
		x("decrypt, plain input", false, nil, "a.key", "in")
		k := rng.Intn(len(cut))
		x("decrypt, truncated", false, nil, "a.key", fmt.Sprintf("cut%d", k))
		x("decrypt, altered", false, []string{"-v", "c.pub"}, "a.key", fmt.Sprintf("flip%d", k))
	}
	for i := range cut {
		add(tcase{what: "decrypt, truncated", args: []string{"decrypt", "-o", "out", "b.key", fmt.Sprintf("cut%d", i)}, out: "out"})
		add(tcase{what: "decrypt, altered", args: []string{"decrypt", "-v", "c.pub", "-o", "out", "a.key", fmt.Sprintf("flip%d", i)}, out: "out"})
		add(tcase{what: "test, truncated", args: []string{"decrypt", "-t", "b.key", fmt.Sprintf("cut%d", i)}})
		add(tcase{what: "test, altered", args: []string{"decrypt", "-t", "-v", "c.pub", "a.key", fmt.Sprintf("flip%d", i)}})
	}
	add(tcase{what: "test", args: []string{"decrypt", "-t", "b.key", "enc"}, ok: true})
	add(tcase{what: "test, sender", args: []string{"decrypt", "-t", "-v", "c.pub", "a.key", "senc"}, ok: true})
	add(tcase{what: "test, wrong sender", args: []string{"decrypt", "-t", "-v", "b.pub", "a.key", "senc"}})
	add(tcase{what: "test, not a recipient", args: []string{"decrypt", "-t", "c.key", "enc"}})
	add(tcase{what: "decrypt an empty file", args: []string{"decrypt", "-o", "out", "a.key", "eenc"}, ok: true, out: "out", check: is(nil)})

	// the target appears while the input is being read
	wait := func(dir string) {
		for i := 0; i < 400; i++ {
			if l, _ := filepath.Glob(filepath.Join(dir, "*out*")); len(l) > 0 {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	add(tcase{what: "encrypt, target becomes a directory", args: []string{"encrypt", "--overwrite", "-o", "out", "a.pub", "-"}, stdin: pt, out: "out",
		during: func(dir string) { wait(dir); os.Mkdir(filepath.Join(dir, "out"), 0755) }})
	add(tcase{what: "decrypt, target becomes a directory", args: []string{"decrypt", "--overwrite", "-o", "out", "a.key", "-"}, stdin: e1, out: "out",
		during: func(dir string) { wait(dir); os.Mkdir(filepath.Join(dir, "out"), 0755) }})

	// generate, keys with passphrases (slow)
	var slow []tcase
	slowadd := func(c tcase) { slow = append(slow, c) }
	gen := func(dir string) string {
		sk, err := sign.ReadPrivateKey(filepath.Join(dir, "k.key"), func() ([]byte, error) { return nil, nil })
		if err != nil {
			return "the private key can't be read: " + err.Error()
		}
		pk, err := sign.ReadPublicKey(filepath.Join(dir, "k.pub"))
		if err != nil {
			return "the public key can't be read: " + err.Error()
		}
		if !bytes.Equal(sk.PublicKey().Pk, pk.Pk) {
			return "the public key belongs to another private key"
		}
		return ""
	}
	slowadd(tcase{what: "generate", args: []string{"generate", "--no-password", "-c", "x", "k"}, ok: true, out: "k.pub"})
	slowadd(tcase{what: "generate, overwrite", args: []string{"generate", "--overwrite", "--no-password", "k"}, ok: true, out: "k.pub", setup: write("k.key", "precious")})
	slowadd(tcase{what: "generate, key exists", args: []string{"generate", "--no-password", "k"}, setup: write("k.key", "precious")})
	slowadd(tcase{what: "generate, public key exists", args: []string{"generate", "--no-password", "k"}, setup: write("k.pub", "precious")})
	slowadd(tcase{what: "generate, missing directory", args: []string{"generate", "--no-password", "missing/k"}})
	slowadd(tcase{what: "generate, limited", args: []string{"generate", "--no-password", "k"}, env: []string{"VERIF_FSIZE=50"}})
	slowadd(tcase{what: "generate, key is a directory", args: []string{"generate", "--overwrite", "--no-password", "k"}, setup: mkdir("k.key")})
	slowadd(tcase{what: "generate, public key is a directory", args: []string{"generate", "--overwrite", "--no-password", "k"}, left: "/k.key", setup: func(dir string) {
		os.MkdirAll(filepath.Join(dir, "k.pub", "sub"), 0755)
	}})
	k0, err := sign.NewPrivateKey()
	if err != nil {
		t.Fatal(err)
	}
	if err := k0.Serialize(filepath.Join(common, "p.key"), "", true, []byte("secret")); err != nil {
		t.Fatal(err)
	}
	slowadd(tcase{what: "sign, right passphrase", args: []string{"sign", "-E", "PW", "p.key", "in"}, env: []string{"PW=secret"}, ok: true, out: "in.sig", check: func(out []byte) string {
		f := filepath.Join(base, fmt.Sprintf("sig%d", unique()))
		os.WriteFile(f, out, 0644)
		defer os.Remove(f)
		sg, err := sign.ReadSignature(f)
		if err != nil {
			return err.Error()
		}
		if ok, err := k0.PublicKey().VerifyFile(filepath.Join(common, "in"), sg); err != nil || !ok {
			return "the signature is not valid"
		}
		return ""
	}})
	slowadd(tcase{what: "sign, wrong passphrase", args: []string{"sign", "-E", "PW", "p.key", "in"}, env: []string{"PW=other"}, out: "in.sig"})
	slowadd(tcase{what: "encrypt, wrong passphrase", args: []string{"encrypt", "-s", "p.key", "-E", "PW", "-o", "out", "a.pub", "in"}, env: []string{"PW=other"}, out: "out"})
	slowadd(tcase{what: "decrypt, wrong passphrase", args: []string{"decrypt", "-E", "PW", "-o", "out", "p.key", "enc"}, env: []string{"PW="}, out: "out"})

	fails, samples := 0, 0
	seen := map[string]bool{}
	one := func(i int, c tcase) {
		mu.Lock()
		stop := fails > 4
		mu.Unlock()
		if stop {
			return
		}
		dir := filepath.Join(base, fmt.Sprintf("run%d", i))
		os.Mkdir(dir, 0755)
		defer os.RemoveAll(dir)
		l, _ := os.ReadDir(common)
		for _, e := range l {
			os.Symlink(filepath.Join(common, e.Name()), filepath.Join(dir, e.Name()))
		}
		if c.setup != nil {
			c.setup(dir)
		}
		before := tree(dir)
		cmd := exec.Command(self, c.args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_TOOL=1", "HOME="+dir, "TMPDIR="+dir)
		cmd.Env = append(cmd.Env, c.env...)
		var so, se bytes.Buffer
		cmd.Stderr = &se
		cmd.Stdout = &so
		if c.stdout != "" {
			f, err := os.OpenFile(c.stdout, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer f.Close()
			cmd.Stdout = f
		}
		var werr error
		if c.during != nil {
			p, _ := cmd.StdinPipe()
			if err := cmd.Start(); err != nil {
				t.Error(err)
				return
			}
			c.during(dir)
			if c.during != nil {
				after := tree(dir)
				for k, v := range after {
					if k == "/out" {
						before[k] = v
					}
				}
			}
			io.Copy(p, bytes.NewReader(c.stdin))
			p.Close()
			werr = cmd.Wait()
		} else {
			cmd.Stdin = bytes.NewReader(c.stdin)
			werr = cmd.Run()
		}
		bad := func(f string, a ...interface{}) {
			mu.Lock()
			defer mu.Unlock()
			fails++
			fmt.Printf("\nFAILING-INPUT: %s: sigtool %q %q: %s\n", c.what, c.args, c.env, strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
			t.Fail()
		}
		rc := cmd.ProcessState.ExitCode()
		if _, ok := werr.(*exec.ExitError); werr != nil && !ok && c.stdin == nil {
			t.Error(werr)
			return
		}
		after := tree(dir)
		var diff []string
		for k, v := range after {
			if w, ok := before[k]; !ok || v != w {
				diff = append(diff, k)
			}
		}
		for k := range before {
			if _, ok := after[k]; !ok {
				diff = append(diff, k+" is gone")
			}
		}
		sort.Strings(diff)
		gens := c.args
		isGen := len(gens) > 0 && gens[0] == "generate"
		switch {
		case rc < 0:
			bad("ended by a signal: %s", se.String())
		case rc == 0 && !c.ok && !c.either:
			bad("exit status 0")
		case rc != 0 && c.ok:
			// not what this property is about
			fmt.Printf("NOTE: %s: sigtool %q %q: status %d: %s\n", c.what, c.args, c.env, rc, se.String())
		case rc != 0:
			// a complete private key may be left when its public key could not be written
			if d := strings.Join(diff, " "); d != "" && d != c.left {
				bad("failed with status %d but changed %v", rc, diff)
			}
		case rc == 0 && isGen:
			if s := gen(dir); s != "" {
				bad("exit status 0, but %s", s)
			}
			if strings.Join(diff, " ") != "/k.key /k.pub" {
				bad("changed %v", diff)
			}
		case rc == 0:
			var out []byte
			if c.out == "-" {
				out = so.Bytes()
				if len(diff) > 0 {
					bad("output to stdout, but changed %v", diff)
				}
			} else if c.out != "" {
				var err error
				if out, err = os.ReadFile(filepath.Join(dir, c.out)); err != nil {
					bad("exit status 0, but %v", err)
					break
				}
				if len(diff) != 1 || diff[0] != "/"+c.out {
					bad("changed %v", diff)
				}
			} else if len(diff) > 0 {
				bad("changed %v", diff)
			}
			if c.check != nil {
				if s := c.check(out); s != "" {
					bad("exit status 0, but %s", s)
				}
			}
		}
		mu.Lock()
		s := fmt.Sprint(c.what, c.args, c.env)
		seen[s] = true
		if samples < 4 {
			samples++
			fmt.Printf("SAMPLE: %s: sigtool %q: status %d\n", c.what, c.args, rc)
		}
		mu.Unlock()
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				one(i, cases[i])
			}
		}()
	}
	var sg sync.WaitGroup
	sl := make(chan int, 2)
	for i := range slow {
		sg.Add(1)
		go func(i int) {
			defer sg.Done()
			sl <- 1
			one(100000+i, slow[i])
			<-sl
		}(i)
	}
	for i := range cases {
		ch <- i
	}
	close(ch)
	wg.Wait()
	sg.Wait()
	fmt.Printf("CASES: %d DISTINCT: %d\n", len(cases)+len(slow), len(seen))
}

type nopc struct{ bytes.Buffer }

func (*nopc) Close() error { return nil }

var randmu sync.Mutex
var randn int

func unique() int {
	randmu.Lock()
	defer randmu.Unlock()
	randn++
	return randn
}
