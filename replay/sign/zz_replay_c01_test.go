package sign_test

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC01(t *testing.T) {
	r := newRun(t, "a case is (chunk size, plaintext length, sender, recipients, position, reader behaviour)")
	defer r.done()
	snd := genKey(t)
	ks := keys(t, 6)

	try := func(bs uint64, n int, auth bool, rx []*sign.PrivateKey, pos int, kind int, seed int64) {
		rng := newRng(seed)
		pt := bytesOf(rng, n)
		if kind == 3 {
			pt = make([]byte, n)
		}
		var s *sign.PrivateKey
		if auth {
			s = snd
		}
		what := fmt.Sprintf("chunk size %d, %d bytes of plaintext, sender %v, key %d of %d recipients, reader kind %d", bs, n, auth, pos, len(rx), kind)
		var out nopW
		err, _ := guard(func() error {
			e, err := sign.NewEncryptor(s, bs)
			if err != nil {
				return err
			}
			for _, p := range rx {
				if err = e.AddRecipient(p.PublicKey()); err != nil {
					return err
				}
			}
			var rd io.Reader = bytes.NewReader(pt)
			switch kind {
			case 1:
				rd = &pieceReader{b: append([]byte{}, pt...), split: func(l int) int { return 1 + rng.Intn(1+l) }, end: io.EOF}
			case 2:
				rd = &pieceReader{b: append([]byte{}, pt...), split: func(l int) int { return 1 + rng.Intn(1+l) }, end: io.EOF, with: true}
			}
			return e.Encrypt(rd, &out)
		})
		if err != nil {
			r.bad("%s: encryption failed: %v", what, err)
			return
		}
		got, err := dec(out.Bytes(), rx[pos], pubOf(s))
		if err != nil {
			r.bad("%s: decryption failed: %v", what, err)
			return
		}
		if !bytes.Equal(got, pt) {
			r.bad("%s: decrypted %d bytes %s, want %s", what, len(got), short(got), short(pt))
			return
		}
		r.ok("%s", what)
	}
	type job func()
	var jobs []job
	var seed int64
	add := func(bs uint64, n int, auth bool, rx []*sign.PrivateKey, pos int, kind int) {
		seed++
		sd := seed
		jobs = append(jobs, func() { try(bs, n, auth, rx, pos, kind, sd) })
	}
	for _, bs := range []int{1, 2, 3, 7, 16, 64, 255, 256, 257, 1000, 4096, 65536} {
		for _, n := range sizesAround(bs) {
			if n < 0 {
				continue
			}
			for kind := 0; kind < 4; kind++ {
				add(uint64(bs), n, false, ks[:1], 0, kind)
				add(uint64(bs), n, true, ks[:2], 1, kind)
			}
		}
	}
	for nr := 1; nr <= 6; nr++ {
		for pos := 0; pos < nr; pos++ {
			for _, auth := range []bool{false, true} {
				add(64, 200, auth, ks[:nr], pos, 0)
				add(64, 128, auth, ks[:nr], pos, 0)
			}
		}
	}
	// many chunks: the block number crosses 8 and 16 bits
	for _, n := range []int{255, 256, 257, 300, 65535, 65536, 65537, 70000} {
		add(1, n, false, ks[:1], 0, 0)
		add(1, n, true, ks[:1], 0, 0)
	}
	// default and limiting chunk sizes
	for _, bs := range []uint64{0, 4194304, 4194305} {
		for _, n := range []int{0, 1, 4194303, 4194304, 4194305, 8388608, 8388609} {
			add(bs, n, n%2 == 1, ks[:1], 0, 0)
		}
	}
	r.par(len(jobs), func(i int) { jobs[i]() })
	for _, bs := range []uint64{1<<30 - 1, 1 << 30, 1<<30 + 1, 1 << 32, 1<<32 + 5, 1<<64 - 1} {
		try(bs, 1000, bs&1 == 0, ks[:1], 0, 0, int64(bs))
	}
	// many recipients, any position
	many := keys(t, 400)
	for _, nr := range []int{100, 127, 128, 129, 255, 256, 257, 400} {
		for _, pos := range []int{0, 1, nr / 2, nr - 2, nr - 1} {
			try(100, 250, nr%2 == 0, many[:nr], pos, 0, int64(nr))
		}
	}
	// many different keys: as recipient and as sender
	n := 3000
	if thorough {
		n = 30000
	}
	r.par(n, func(i int) {
		k, s := genKey(t), genKey(t)
		pt := []byte(fmt.Sprintf("message %d", i))
		var sp *sign.PrivateKey
		if i%2 == 0 {
			sp = s
		}
		ct, err := enc(sp, 8, []*sign.PublicKey{k.PublicKey()}, pt)
		if err != nil {
			r.bad("recipient private key %x: encryption failed: %v", k.Sk, err)
			return
		}
		got, err := dec(ct, k, pubOf(sp))
		if err != nil || !bytes.Equal(got, pt) {
			r.bad("recipient private key %x sender %v: decrypted %q, %v; want %q", k.Sk, sp != nil, got, err, pt)
			return
		}
		r.ok("random keys %v", i%2 == 0)
	})
}
