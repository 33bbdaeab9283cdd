package sign_test

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func refSigned(ck []byte) []byte {
	h := sha512.Sum512(append([]byte("sigtool signed message"), ck...))
	return h[:]
}

func refFileDigest(c []byte) []byte {
	h := sha512.New()
	h.Write(c)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(len(c)))
	h.Write(b[:])
	return h.Sum(nil)
}

func TestVerifC11(t *testing.T) {
	r := newRun(t, "a case is a message or file content, and what it is signed as and verified against")
	defer r.done()
	dir := t.TempDir()
	rng := newRng(11)
	ks := keys(t, 4)
	edits := func(m []byte) (e [][]byte) {
		flip := func(i int) {
			c := append([]byte{}, m...)
			c[i] ^= 1 << rng.Intn(8)
			e = append(e, c)
		}
		if len(m) > 0 {
			flip(0)
			flip(len(m) - 1)
			flip(len(m) / 2)
			flip(rng.Intn(len(m)))
			e = append(e, m[:len(m)-1], m[1:])
		}
		e = append(e, append(append([]byte{}, m...), 0), append([]byte{0}, m...), append(append([]byte{}, m...), m...))
		if len(m) > 128 {
			e = append(e, m[:128], m[:64], m[64:])
		}
		var o [][]byte
		for _, x := range e {
			if !bytes.Equal(x, m) {
				o = append(o, x)
			}
		}
		return o
	}
	sizes := []int{0, 1, 2, 22, 31, 32, 63, 64, 65, 105, 106, 111, 112, 127, 128, 129, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<20 + 1}
	if thorough {
		for i := 0; i < 600; i++ {
			sizes = append(sizes, rng.Intn(300))
		}
	}
	for _, n := range sizes {
		m := bytesOf(rng, n)
		k := ks[rng.Intn(len(ks))]
		s, err := k.SignMessage(m, fmt.Sprintf("comment %d", rng.Int()))
		if err != nil {
			r.bad("signing %d bytes: %v", n, err)
			return
		}
		if !ed25519.Verify(k.PublicKey().Pk, refSigned(m), s.Sig) {
			r.bad("signature of %d bytes is not one of the domain-separated digest", n)
			return
		}
		if ed25519.Verify(k.PublicKey().Pk, m, s.Sig) {
			r.bad("signature of %d bytes is one of the bare message", n)
			return
		}
		if s2, err := k.SignMessage(m, "another"); err != nil || !bytes.Equal(s.Sig, s2.Sig) {
			r.bad("the signature of %d bytes depends on the comment", n)
			return
		}
		for j, x := range ks {
			if x.PublicKey().VerifyMessage(m, s) != (x == k) {
				r.bad("message of %d bytes, key %d: verification is wrong", n, j)
				return
			}
		}
		for _, x := range edits(m) {
			if k.PublicKey().VerifyMessage(x, s) {
				r.bad("signature of message %s verifies for %s", short(m), short(x))
				return
			}
			r.ok("message of %d bytes, verified with another of %d", n, len(x))
		}
		// other signatures: the verdict is that of Ed25519
		for j := 0; j < 12; j++ {
			g := append([]byte{}, s.Sig...)
			switch j {
			case 0:
				g = nil
			case 1:
				g = g[:63]
			case 2:
				g = append(g, 0)
			case 3:
				g = append(append([]byte{}, g[32:]...), g[:32]...)
			case 4:
				g = make([]byte, 64)
			case 5: // s + L
				l := []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}
				c := 0
				for i := range l {
					c += int(g[32+i]) + int(l[i])
					g[32+i] = byte(c)
					c >>= 8
				}
			default:
				g[rng.Intn(64)] ^= 1 << rng.Intn(8)
			}
			y := &sign.Signature{Sig: g}
			err, p := guard(func() error {
				if k.PublicKey().VerifyMessage(m, y) {
					return fmt.Errorf("verifies")
				}
				return nil
			})
			if p || err != nil {
				r.bad("message %s with signature %x by %x: %v", short(m), g, k.PublicKey().Pk, err)
				return
			}
			r.ok("message of %d bytes with altered signature %d", n, j)
		}
	}
	// files
	file := func(name string, c []byte) string {
		fn := filepath.Join(dir, name)
		if err := os.WriteFile(fn, c, 0600); err != nil {
			t.Fatal(err)
		}
		return fn
	}
	for _, n := range sizes {
		c := bytesOf(rng, n)
		k := ks[rng.Intn(len(ks))]
		f := file("a", c)
		s, err := k.SignFile(f)
		if err != nil {
			r.bad("signing a file of %d bytes: %v", n, err)
			return
		}
		if !ed25519.Verify(k.PublicKey().Pk, refSigned(refFileDigest(c)), s.Sig) {
			r.bad("signature of a file of %d bytes is not one of content and length", n)
			return
		}
		if ok, err := k.PublicKey().VerifyFile(file("b", c), s); !ok || err != nil {
			r.bad("a file of %d bytes under another name: %v %v", n, ok, err)
			return
		}
		for j, x := range ks {
			if ok, err := x.PublicKey().VerifyFile(f, s); ok != (x == k) || err != nil {
				r.bad("file of %d bytes, key %d: %v %v", n, j, ok, err)
				return
			}
		}
		for _, x := range edits(c) {
			if ok, _ := k.PublicKey().VerifyFile(file("b", x), s); ok {
				r.bad("signature of file %s verifies for %s", short(c), short(x))
				return
			}
			r.ok("file of %d bytes, verified with another of %d", n, len(x))
		}
		// pipes
		pipe := func(i int, c []byte, f func(fn string)) {
			fn := filepath.Join(dir, fmt.Sprintf("pipe-%d-%d", n, i))
			if err := syscall.Mkfifo(fn, 0600); err != nil {
				t.Fatal(err)
			}
			go func() {
				w, err := os.OpenFile(fn, os.O_WRONLY, 0)
				if err == nil {
					io.Copy(w, &pieceReader{b: append([]byte{}, c...), split: func(l int) int { return 1 + l/3 }, end: io.EOF})
					w.Close()
				}
			}()
			f(fn)
			os.Remove(fn)
		}
		pipe(0, c, func(fn string) {
			if ok, err := k.PublicKey().VerifyFile(fn, s); !ok || err != nil {
				r.bad("%d bytes through a pipe: %v %v", n, ok, err)
			}
		})
		pipe(1, append(append([]byte{}, c...), 1), func(fn string) {
			if ok, _ := k.PublicKey().VerifyFile(fn, s); ok {
				r.bad("%d bytes through a pipe verify for one more", n)
			}
		})
		pipe(2, c, func(fn string) {
			s2, err := k.SignFile(fn)
			if err != nil || !bytes.Equal(s2.Sig, s.Sig) {
				r.bad("signing %d bytes through a pipe: %v", n, err)
			}
		})
	}
	// what cannot be read
	k := ks[0]
	empty, err := k.SignFile(file("a", nil))
	if err != nil {
		r.bad("signing an empty file: %v", err)
		return
	}
	for _, fn := range []string{filepath.Join(dir, "missing"), dir, filepath.Join(dir, "a", "b"), "", "/proc/self/mem", filepath.Join(dir, "loop")} {
		if filepath.Base(fn) == "loop" {
			os.Symlink(fn, fn)
		}
		ok, err := k.PublicKey().VerifyFile(fn, empty)
		if ok || err == nil {
			r.bad("verifying unreadable %q: %v %v", fn, ok, err)
		}
		s, err := k.SignFile(fn)
		if err == nil || s != nil {
			r.bad("signing unreadable %q: %v", fn, err)
		}
		r.ok("unreadable %q", fn)
	}
	// files larger than what is mapped at a time, differing at one place
	big := int64(1<<30) + 77
	if !thorough {
		big = 1<<28 + 77
	}
	fn := filepath.Join(dir, "big")
	fd, err := os.Create(fn)
	if err != nil {
		t.Fatal(err)
	}
	defer fd.Close()
	if err = fd.Truncate(big); err != nil {
		t.Fatal(err)
	}
	h := sha512.New()
	io.CopyN(h, zeros{}, big)
	var bb [8]byte
	binary.BigEndian.PutUint64(bb[:], uint64(big))
	h.Write(bb[:])
	sum := h.Sum(nil)
	s, err := k.SignFile(fn)
	if err != nil || !ed25519.Verify(k.PublicKey().Pk, refSigned(sum), s.Sig) {
		r.bad("signature of a file of %d zero bytes: %v", big, err)
		return
	}
	r.ok("file of %d bytes", big)
	fd.WriteAt([]byte{1}, big-1)
	if ok, err := k.PublicKey().VerifyFile(fn, s); ok || err != nil {
		r.bad("a file of %d bytes with its last byte changed: %v %v", big, ok, err)
	}
	r.ok("file of %d bytes, last one changed", big)
}

type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}
