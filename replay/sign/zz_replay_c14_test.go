package sign_test

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
)

// Files through writes that fail at every possible place, in a scratch directory.
func TestVerifC14(t *testing.T) {
	r := newRun(t, "a case is an object, what is under the target name, the overwrite flag and the step that fails")
	defer r.done()
	signal.Ignore(syscall.SIGXFSZ)
	rng := newRng(14)
	sk := newSk(rng)
	k, err := skOf(sk)
	if err != nil {
		t.Fatal(err)
	}
	pk := k.PublicKey()
	sig, err := k.SignMessage([]byte("m"), "")
	if err != nil {
		t.Fatal(err)
	}
	big := string(bytes.Repeat([]byte("long comment "), 3000))
	pkb, _ := pk.MarshalBinary("c")
	sigb, _ := sig.MarshalBinary("c")
	bigb, _ := sig.MarshalBinary(big)
	type obj struct {
		name  string
		write func(fn string, ow bool) error
		want  []byte
		mode  os.FileMode
		slow  bool
	}
	objs := []obj{
		{"public key", func(fn string, ow bool) error { return pk.Serialize(fn, "c", ow) }, pkb, 0644, false},
		{"signature", func(fn string, ow bool) error { return sig.Serialize(fn, "c", ow) }, sigb, 0644, false},
		{"signature with a long comment", func(fn string, ow bool) error { return sig.Serialize(fn, big, ow) }, bigb, 0644, false},
		{"private key", func(fn string, ow bool) error { return k.Serialize(fn, "c", ow, []byte("pw")) }, nil, 0600, true},
	}
	base := t.TempDir()
	n := 0
	limit := func(v uint64) func() {
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: v, Max: old.Max})
		return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
	}
	nofiles := func() func() {
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 0, Max: old.Max})
		return func() { syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old) }
	}
	type fault struct {
		name string
		do   func() func()
		ok   int // 1: has to work, -1: has to fail, 0: either
	}
	one := func(o obj, target string, ow bool, f fault) bool {
		n++
		dir := filepath.Join(base, fmt.Sprint(n))
		os.Mkdir(dir, 0700)
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "target")
		other := filepath.Join(dir, "other")
		os.WriteFile(other, []byte("unrelated"), 0640)
		expectOK := f.ok
		exists := true
		switch target {
		case "absent":
			exists = false
		case "file":
			os.WriteFile(fn, []byte("previous content, rather longer than what replaces it"+big), 0644)
		case "short file":
			os.WriteFile(fn, []byte("x"), 0666)
			os.Chmod(fn, 0666)
		case "empty file":
			os.WriteFile(fn, nil, 0600)
		case "directory":
			os.Mkdir(fn, 0700)
			os.WriteFile(filepath.Join(fn, "f"), []byte("in it"), 0600)
			expectOK = -1
		case "symlink":
			os.Symlink(other, fn)
			expectOK = 0
		case "no such directory":
			fn = filepath.Join(dir, "nodir", "target")
			exists, expectOK = false, -1
		case "below a file":
			fn = filepath.Join(other, "target")
			exists, expectOK = false, -1
		}
		if exists && !ow && expectOK > 0 {
			expectOK = -1
		}
		before := listing(dir)
		undo := f.do()
		err, panicked := guard(func() error { return o.write(fn, ow) })
		undo()
		after := listing(dir)
		what := fmt.Sprintf("%s, target %s, overwrite %v, %s", o.name, target, ow, f.name)
		if panicked {
			r.bad("%s: %v", what, err)
			return false
		}
		if err != nil {
			if expectOK > 0 {
				r.bad("%s: %v", what, err)
				return false
			}
			if before != after {
				r.bad("%s: error %v, but the directory changed: before %s after %s", what, err, short2(before), short2(after))
				return false
			}
			r.ok("%s: refused", what)
			return true
		}
		if expectOK < 0 || exists && !ow {
			r.bad("%s: success reported; directory %s", what, short2(after))
			return false
		}
		got, rerr := os.ReadFile(fn)
		if rerr != nil {
			r.bad("%s: success reported, but %v", what, rerr)
			return false
		}
		if o.want != nil && !bytes.Equal(got, o.want) {
			r.bad("%s: success reported, file has %d bytes %s, not %d", what, len(got), short(got), len(o.want))
			return false
		}
		if o.want == nil {
			if x, _, err := refReadPriv(got, []byte("pw")); err != nil || !bytes.Equal(x, sk) {
				r.bad("%s: success reported, file reads as %x %v", what, x, err)
				return false
			}
		}
		fi, _ := os.Stat(fn)
		m := fi.Mode().Perm()
		if m&^o.mode != 0 || m&0400 == 0 {
			r.bad("%s: the file has mode %v", what, m)
			return false
		}
		if b, _ := os.ReadFile(other); string(b) != "unrelated" {
			r.bad("%s: another file was written", what)
			return false
		}
		if es, _ := os.ReadDir(dir); len(es) != 2 {
			r.bad("%s: left files behind: %s", what, short2(after))
			return false
		}
		r.ok("%s: written", what)
		return true
	}
	none := fault{"nothing fails", func() func() { return func() {} }, 1}
	for _, o := range objs {
		size := len(o.want)
		if o.slow {
			size = 300
		}
		for _, ow := range []bool{false, true} {
			targets := []string{"absent", "file", "short file", "empty file", "directory", "symlink", "no such directory", "below a file"}
			if o.slow && !thorough {
				targets = []string{"absent", "short file"}
			}
			for _, tg := range targets {
				if !one(o, tg, ow, none) {
					return
				}
			}
			cuts := []int{0, 1, 2, size / 2, size - 1, 4096, 8192, 32768}
			if thorough && !o.slow {
				for i := 0; i < size && i < 600; i++ {
					cuts = append(cuts, i)
				}
			}
			if o.slow {
				cuts = []int{0, 200}
				if thorough {
					cuts = append(cuts, 1, 100, 280)
				}
			}
			for _, c := range cuts {
				if c >= size {
					continue
				}
				c := c
				tgs := []string{"absent", "file", "short file"}
				if o.slow {
					tgs = []string{"short file"}
				}
				for _, tg := range tgs {
					if o.slow && !ow {
						tg = "absent"
					}
					if !one(o, tg, ow, fault{fmt.Sprintf("file system full after %d bytes", c), func() func() { return limit(uint64(c)) }, -1}) {
						return
					}
				}
			}
			if o.slow && !thorough {
				continue
			}
			for _, tg := range []string{"absent", "file"} {
				if !one(o, tg, ow, fault{"no file can be opened", nofiles, -1}) {
					return
				}
			}
		}
	}
}

func short2(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
