package sign_test

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

func TestVerifC06(t *testing.T) {
	r := newRun(t, "a case is a history of calls on one encryptor: plaintexts, failing writers, readers and recipients")
	defer r.done()
	snd := genKey(t)
	ks := keys(t, 4)

	// seals collects, from everything offered to any writer, the chunks under each data key
	check := func(hist string, ws []*spyW) {
		type rec struct {
			key string
			i   uint32
		}
		seen := map[rec]string{}
		var hdrs []*refFile
		for _, w := range ws {
			for _, b := range w.all {
				if len(b) >= 44 && string(b[:7]) == "SigTool" {
					if f, err := refParseHdr(b); err == nil {
						for _, k := range ks {
							for i := range f.keys {
								if key := f.unwrap(i, k.Sk); key != nil {
									f.derive(key)
									hdrs = append(hdrs, f)
									goto next
								}
							}
						}
					next:
					}
				}
			}
		}
		wraps := map[string]string{}
		for _, f := range hdrs {
			for _, k := range f.keys {
				if o, ok := wraps[string(k.nonce)]; ok && o != string(k.dkey) {
					r.bad("%s: two wrapped keys with nonce %x", hist, k.nonce)
				}
				wraps[string(k.nonce)] = string(k.dkey)
			}
		}
		seals := 0
		for _, w := range ws {
			for _, b := range w.all {
				if len(b) < 20 {
					continue
				}
				for _, f := range hdrs {
					for i := uint32(0); i < 24; i++ {
						if _, err := gcm(f.dkey).Open(nil, f.chunkNonce(i), b[4:], b[:4]); err == nil {
							k := rec{string(f.dkey), i}
							if o, ok := seen[k]; ok && o != string(b) {
								r.bad("%s: two different chunks were sealed with the same key and nonce %x (chunk number %d)", hist, f.chunkNonce(i), i)
								return
							}
							if seen[k] == "" {
								seals++
							}
							seen[k] = string(b)
						}
					}
				}
			}
		}
		r.ok("%s: %d seals", hist, seals)
	}
	n := 1500
	if thorough {
		n = 20000
	}
	r.par(n, func(seed int) {
		rng := newRng(int64(seed))
		var s *sign.PrivateKey
		if rng.Intn(2) == 0 {
			s = snd
		}
		bs := 1 + rng.Intn(20)
		hist := fmt.Sprintf("sender %v, chunk size %d", s != nil, bs)
		var ws []*spyW
		newW := func() *spyW {
			w := &spyW{failAt: -1, rng: rng}
			if rng.Intn(2) == 0 {
				w.failAt = rng.Intn(5)
				hist += fmt.Sprintf(" [write %d fails]", w.failAt)
			}
			if rng.Intn(5) == 0 {
				w.cerr = errSpy
			}
			ws = append(ws, w)
			return w
		}
		err, p := guard(func() error {
			e, err := sign.NewEncryptor(s, uint64(bs))
			if err != nil {
				return err
			}
			e.AddRecipient(ks[0].PublicKey())
			var sws []io.WriteCloser
			for st := 0; st < 3+rng.Intn(8); st++ {
				switch rng.Intn(6) {
				case 0:
					hist += " recipient"
					e.AddRecipient(ks[rng.Intn(4)].PublicKey())
				case 1:
					pt := bytesOf(rng, rng.Intn(5*bs))
					hist += fmt.Sprintf(" encrypt(%d)", len(pt))
					var rd io.Reader = bytes.NewReader(pt)
					if rng.Intn(3) == 0 {
						hist += "[reader fails]"
						rd = &errReader{pt, errSpy}
					}
					e.Encrypt(rd, newW())
				case 2:
					hist += " stream"
					w, err := e.NewStreamWriter(newW())
					if err == nil {
						sws = append(sws, w)
					}
				case 3, 4:
					if len(sws) > 0 {
						pt := bytesOf(rng, rng.Intn(4*bs))
						hist += fmt.Sprintf(" write(%d)", len(pt))
						sws[rng.Intn(len(sws))].Write(pt)
					}
				case 5:
					if len(sws) > 0 {
						hist += " close"
						sws[rng.Intn(len(sws))].Close()
					}
				}
			}
			return nil
		})
		if err != nil || p {
			r.bad("%s: %v", hist, err)
			return
		}
		check(hist, ws)
	})
	// the fixed histories
	var hist string
	var ws []*spyW
	run := func(name string, f func(e *sign.Encryptor)) {
		hist, ws = name, nil
		for _, s := range []*sign.PrivateKey{nil, snd} {
			e, err := sign.NewEncryptor(s, 8)
			if err != nil {
				r.bad("%s: %v", name, err)
				return
			}
			e.AddRecipient(ks[0].PublicKey())
			ws = nil
			f(e)
			check(hist, ws)
		}
	}
	w := func(fail int) *spyW {
		x := &spyW{failAt: fail, rng: newRng(3)}
		ws = append(ws, x)
		return x
	}
	for f := -1; f < 6; f++ {
		for g := 0; g < 6; g++ {
			f, g := f, g
			run(fmt.Sprintf("encrypt (write %d fails) then again", f), func(e *sign.Encryptor) {
				e.Encrypt(bytes.NewReader([]byte("first message text")), w(f))
				e.Encrypt(bytes.NewReader([]byte("other message text")), w(-1))
			})
			run(fmt.Sprintf("stream (write %d fails, %d bytes), write again, close, close, then encrypt", f, g*7), func(e *sign.Encryptor) {
				s, err := e.NewStreamWriter(w(f))
				if err != nil {
					e.Encrypt(bytes.NewReader([]byte("first message text")), w(-1))
					return
				}
				s.Write(make([]byte, g*7))
				s.Write([]byte("more and more text"))
				s.Write([]byte("and the last lines"))
				s.Close()
				s.Write([]byte("too late, isn't it"))
				s.Close()
				e.Encrypt(bytes.NewReader([]byte("other message text")), w(-1))
				if s, err := e.NewStreamWriter(w(-1)); err == nil {
					s.Write([]byte("another one follows"))
					s.Close()
				}
			})
		}
	}
	// block numbers do not repeat over many chunks, in both modes
	for mode := 0; mode < 2; mode++ {
		n := 70000
		if thorough {
			n = 1 << 21
		}
		pt := make([]byte, n)
		var out []byte
		var err error
		if mode == 0 {
			out, err = enc(nil, 1, pubs(ks[:1]), pt)
		} else {
			out, err = encStream(nil, 1, pubs(ks[:1]), pt, func(l int) int { return l })
		}
		if err != nil {
			r.bad("%d chunks: %v", n, err)
			continue
		}
		f, err := refParseHdr(out)
		if err != nil {
			r.bad("%v", err)
			continue
		}
		b := out[len(f.hdr)+32:]
		seen := map[string]int{}
		for i := 0; len(b) > 64+20; i++ {
			c := string(b[:21]) // equal plaintext: equal ciphertext means equal nonce
			if j, ok := seen[c]; ok {
				r.bad("mode %d: chunks %d and %d of an all zero file are the same bytes %x: the nonce repeats", mode, j, i, c)
				break
			}
			seen[c] = i
			b = b[21:]
		}
		r.ok("%d chunks, mode %d", n, mode)
	}
}
