package sign_test

// An independent reference implementation of the version 3 format and helpers for the replay
// drivers. Uses only the public interface of the package under test.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/opencoff/sigtool/sign"
)

var seedN = func() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}()
var thorough = os.Getenv("VERIF_TIER") == "thorough"

func newRng(k int64) *mrand.Rand { return mrand.New(mrand.NewSource(seedN*1000003 + k)) }

type run struct {
	mu       sync.Mutex
	t        *testing.T
	cases    int
	distinct map[string]bool
	fails    int
	samples  int
}

func newRun(t *testing.T, rule string) *run {
	fmt.Printf("RULE: %s\n", rule)
	return &run{t: t, distinct: map[string]bool{}}
}
func (r *run) done() { fmt.Printf("CASES: %d DISTINCT: %d\n", r.cases, len(r.distinct)) }
func (r *run) ok(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.cases++
	s := fmt.Sprintf(format, a...)
	if !r.distinct[s] {
		r.distinct[s] = true
		if r.samples < 4 {
			r.samples++
			fmt.Printf("SAMPLE: %s\n", s)
		}
	}
}
func (r *run) bad(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.fails++
	if r.fails <= 5 {
		s := fmt.Sprintf(format, a...)
		fmt.Printf("\nFAILING-INPUT: %s\n", strings.ReplaceAll(s, "\n", " "))
	}
	r.t.Fail()
}

// par runs f for 0..n-1 on all processors; no new cases start once some failed
func (r *run) par(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if r.failed() > 3 {
					continue
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							r.bad("case %d: panic: %v %s", i, e, stack())
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (r *run) failed() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.fails
}

func stack() string {
	b := make([]byte, 4096)
	b = b[:runtime.Stack(b, false)]
	s := string(b)
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

// guard runs f and reports a panic as an error
func guard(f func() error) (err error, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v %s", e, stack())
			panicked = true
		}
	}()
	return f(), false
}

type nopW struct {
	bytes.Buffer
	closed int
}

func (w *nopW) Close() error { w.closed++; return nil }

func genKey(t testing.TB) *sign.PrivateKey {
	sk, err := sign.NewPrivateKey()
	if err != nil {
		t.Fatal(err)
	}
	return sk
}

func bytesOf(rng *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// encrypt with the code under test
func enc(snd *sign.PrivateKey, bs uint64, rx []*sign.PublicKey, pt []byte) (out []byte, err error) {
	err, _ = guard(func() error {
		e, err := sign.NewEncryptor(snd, bs)
		if err != nil {
			return err
		}
		for _, p := range rx {
			if err = e.AddRecipient(p); err != nil {
				return err
			}
		}
		var w nopW
		if err = e.Encrypt(bytes.NewReader(pt), &w); err != nil {
			return err
		}
		out = w.Bytes()
		return nil
	})
	return
}

// split gives the sizes of successive Write or Read calls
func encStream(snd *sign.PrivateKey, bs uint64, rx []*sign.PublicKey, pt []byte, split func(left int) int) (out []byte, err error) {
	err, _ = guard(func() error {
		e, err := sign.NewEncryptor(snd, bs)
		if err != nil {
			return err
		}
		for _, p := range rx {
			if err = e.AddRecipient(p); err != nil {
				return err
			}
		}
		var w nopW
		s, err := e.NewStreamWriter(&w)
		if err != nil {
			return err
		}
		for b := pt; len(b) > 0; {
			k := split(len(b))
			if k > len(b) {
				k = len(b)
			}
			c := append([]byte{}, b[:k]...)
			n, err := s.Write(c)
			if err != nil {
				return err
			}
			if n != k {
				return fmt.Errorf("Write of %d bytes returned %d", k, n)
			}
			for i := range c {
				c[i] = 0xee // the writer must not keep the caller's buffer
			}
			b = b[k:]
		}
		if err := s.Close(); err != nil {
			return err
		}
		out = w.Bytes()
		return nil
	})
	return
}

func dec(ct []byte, rx *sign.PrivateKey, spk *sign.PublicKey) (pt []byte, err error) {
	var w bytes.Buffer
	err, _ = guard(func() error {
		d, err := sign.NewDecryptor(bytes.NewReader(ct))
		if err != nil {
			return err
		}
		if err = d.SetPrivateKey(rx, spk); err != nil {
			return err
		}
		return d.Decrypt(&w)
	})
	return w.Bytes(), err
}

func decStream(ct []byte, rx *sign.PrivateKey, spk *sign.PublicKey, split func() int) (pt []byte, err error) {
	err, _ = guard(func() error {
		d, err := sign.NewDecryptor(bytes.NewReader(ct))
		if err != nil {
			return err
		}
		if err = d.SetPrivateKey(rx, spk); err != nil {
			return err
		}
		r, err := d.NewStreamReader()
		if err != nil {
			return err
		}
		for i := 0; ; i++ {
			b := make([]byte, split())
			n, err := r.Read(b)
			if n < 0 || n > len(b) {
				return fmt.Errorf("Read returned %d for a buffer of %d", n, len(b))
			}
			pt = append(pt, b[:n]...)
			if err == io.EOF {
				n, err = r.Read(make([]byte, 5))
				if n != 0 || err != io.EOF {
					return fmt.Errorf("Read after EOF: %d, %v", n, err)
				}
				return nil
			}
			if err != nil {
				return err
			}
			if i > 10000000 {
				return errors.New("no progress")
			}
		}
	})
	return
}

// ---------- reference implementation

func rhkdf(secret, salt []byte, info string, n int) []byte {
	if salt == nil {
		salt = make([]byte, 64)
	}
	m := hmac.New(sha512.New, salt)
	m.Write(secret)
	prk := m.Sum(nil)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := hmac.New(sha512.New, prk)
		m.Write(t)
		m.Write([]byte(info))
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

func sum256(p ...[]byte) []byte {
	h := sha256.New()
	for _, b := range p {
		h.Write(b)
	}
	return h.Sum(nil)
}

func be4(n uint32) []byte { return binary.BigEndian.AppendUint32(nil, n) }

// the Curve25519 secret of an Ed25519 seed
func refCurveSK(seed []byte) []byte {
	h := sha512.Sum512(seed)
	k := h[:32]
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

func refX(sk, pk []byte) []byte {
	s, err := ecdh.X25519().NewPrivateKey(sk)
	if err != nil {
		panic(err)
	}
	p, err := ecdh.X25519().NewPublicKey(pk)
	if err != nil {
		panic(err)
	}
	r, err := s.ECDH(p)
	if err != nil {
		return nil
	}
	return r
}

func refXPub(sk []byte) []byte {
	s, _ := ecdh.X25519().NewPrivateKey(sk)
	return s.PublicKey().Bytes()
}

var fieldP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)

// Edwards y -> Montgomery u
func refCurvePK(ed []byte) []byte {
	y := new(big.Int)
	for i := 31; i >= 0; i-- {
		b := ed[i]
		if i == 31 {
			b &= 0x7f
		}
		y.Lsh(y, 8).Or(y, big.NewInt(int64(b)))
	}
	num := new(big.Int).Add(big.NewInt(1), y)
	den := new(big.Int).Sub(big.NewInt(1), y)
	den.Mod(den, fieldP)
	u := new(big.Int).Mul(num, new(big.Int).Exp(den, new(big.Int).Sub(fieldP, big.NewInt(2)), fieldP))
	u.Mod(u, fieldP)
	out := make([]byte, 32)
	b := u.Bytes()
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

type refKey struct{ dkey, nonce []byte }
type refChunk struct {
	raw []byte // header and ciphertext
	pt  []byte
	eof bool
}
type refFile struct {
	raw       []byte
	hdr       []byte // fixed and variable part
	sum       []byte
	chunkSize uint32
	salt, pk  []byte
	sender    []byte
	keys      []refKey
	key       []byte
	sig       []byte // opened sender field
	nonce     []byte
	dkey      []byte
	hkey      []byte
	chunks    []refChunk
	trailer   []byte
	mac       []byte
	pt        []byte
}

func pbFields(b []byte) (fs []struct {
	n int
	v uint64
	b []byte
}, err error) {
	for len(b) > 0 {
		tag, k := binary.Uvarint(b)
		if k <= 0 {
			return nil, errors.New("bad tag")
		}
		b = b[k:]
		f := struct {
			n int
			v uint64
			b []byte
		}{n: int(tag >> 3)}
		v, k := binary.Uvarint(b)
		if k <= 0 {
			return nil, errors.New("bad varint")
		}
		b = b[k:]
		switch tag & 7 {
		case 0:
			f.v = v
		case 2:
			if v > uint64(len(b)) {
				return nil, errors.New("field too long")
			}
			f.b = b[:v]
			b = b[v:]
		default:
			return nil, fmt.Errorf("wire type %d", tag&7)
		}
		fs = append(fs, f)
	}
	return
}

// canonical encoding of the header
func (f *refFile) encodeHdr() []byte {
	var b []byte
	fld := func(o []byte, tag byte, v []byte) []byte {
		if len(v) == 0 {
			return o
		}
		o = append(o, tag)
		o = binary.AppendUvarint(o, uint64(len(v)))
		return append(o, v...)
	}
	if f.chunkSize != 0 {
		b = append(b, 0x08)
		b = binary.AppendUvarint(b, uint64(f.chunkSize))
	}
	b = fld(b, 0x12, f.salt)
	b = fld(b, 0x1a, f.pk)
	b = fld(b, 0x22, f.sender)
	for _, k := range f.keys {
		var w []byte
		w = fld(w, 0x0a, k.dkey)
		w = fld(w, 0x12, k.nonce)
		b = append(b, 0x2a)
		b = binary.AppendUvarint(b, uint64(len(w)))
		b = append(b, w...)
	}
	return b
}

// refParseHdr checks everything of the header that does not need a key
func refParseHdr(raw []byte) (*refFile, error) {
	f := &refFile{raw: raw}
	if len(raw) < 12 || string(raw[:7]) != "SigTool" || raw[7] != 3 {
		return nil, errors.New("bad magic or version")
	}
	n := int(binary.BigEndian.Uint32(raw[8:12]))
	if len(raw) < 12+n+32 {
		return nil, errors.New("short header")
	}
	f.hdr = raw[:12+n]
	f.sum = raw[12+n : 12+n+32]
	if !bytes.Equal(f.sum, sum256(f.hdr)) {
		return nil, errors.New("header checksum is not the SHA-256 of all header bytes")
	}
	fs, err := pbFields(raw[12 : 12+n])
	if err != nil {
		return nil, err
	}
	last := 0
	for _, x := range fs {
		if x.n < last || x.n == last && x.n != 5 {
			return nil, fmt.Errorf("field %d repeated or out of order", x.n)
		}
		last = x.n
		switch x.n {
		case 1:
			f.chunkSize = uint32(x.v)
		case 2:
			f.salt = x.b
		case 3:
			f.pk = x.b
		case 4:
			f.sender = x.b
		case 5:
			ks, err := pbFields(x.b)
			if err != nil {
				return nil, err
			}
			var k refKey
			for _, y := range ks {
				switch y.n {
				case 1:
					k.dkey = y.b
				case 2:
					k.nonce = y.b
				default:
					return nil, fmt.Errorf("unknown field %d in a key", y.n)
				}
			}
			f.keys = append(f.keys, k)
		default:
			return nil, fmt.Errorf("unknown header field %d", x.n)
		}
	}
	if !bytes.Equal(f.encodeHdr(), raw[12:12+n]) {
		return nil, errors.New("header is not in canonical encoding")
	}
	if len(f.salt) != 32 || len(f.pk) != 32 || len(f.sender) != 80 {
		return nil, fmt.Errorf("field sizes %d %d %d", len(f.salt), len(f.pk), len(f.sender))
	}
	for _, k := range f.keys {
		if len(k.dkey) != 48 || len(k.nonce) != 12 {
			return nil, fmt.Errorf("wrapped key sizes %d %d", len(k.dkey), len(k.nonce))
		}
	}
	return f, nil
}

// unwrap tries entry i with the Ed25519 private key (64 bytes)
func (f *refFile) unwrap(i int, sk []byte) []byte {
	sec := refX(refCurveSK(sk[:32]), f.pk)
	kn := rhkdf(sec, sum256(f.salt, f.keys[i].nonce), "Receiver Key", 44)
	k, err := gcm(kn[:32]).Open(nil, kn[32:], f.keys[i].dkey, sk[32:])
	if err != nil {
		return nil
	}
	return k
}

func (f *refFile) derive(key []byte) {
	f.key = key
	b := rhkdf(key, f.sum, "Data Key Expansion", 76)
	f.nonce, f.dkey, f.hkey = b[:12], b[12:44], b[44:]
}

func (f *refFile) chunkNonce(i uint32) []byte {
	return append(be4(i), f.nonce[4:]...)
}

func (f *refFile) senderMsg() []byte {
	return sum256([]byte("SigTool"), []byte{3}, f.pk, f.salt, f.key)
}

func refSignMsg(ck []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(ck)
	return h.Sum(nil)
}

// refParse decodes a complete file for the recipient, strictly
func refParse(raw []byte, rx *sign.PrivateKey) (*refFile, error) {
	f, err := refParseHdr(raw)
	if err != nil {
		return nil, err
	}
	var key []byte
	for i := range f.keys {
		if k := f.unwrap(i, rx.Sk); k != nil {
			key = k
			break
		}
	}
	if key == nil {
		return nil, errors.New("no wrapped key opens for the recipient")
	}
	if len(key) != 32 {
		return nil, fmt.Errorf("root key of %d bytes", len(key))
	}
	f.derive(key)
	sk := rhkdf(key, f.salt, "Sender Sig", 44)
	if f.sig, err = gcm(sk[:32]).Open(nil, sk[32:], f.sender, nil); err != nil {
		return nil, errors.New("sender field does not open")
	}
	b := raw[len(f.hdr)+32:]
	mac := hmac.New(sha256.New, f.hkey)
	for i := uint32(0); ; i++ {
		if len(b) < 4 {
			return nil, errors.New("short chunk header")
		}
		v := binary.BigEndian.Uint32(b)
		n := int(v & 0x7fffffff)
		c := refChunk{eof: v>>31 == 1}
		if len(b) < 4+n+16 {
			return nil, fmt.Errorf("chunk %d: short", i)
		}
		c.raw = b[:4+n+16]
		if c.pt, err = gcm(f.dkey).Open(nil, f.chunkNonce(i), c.raw[4:], c.raw[:4]); err != nil {
			return nil, fmt.Errorf("chunk %d does not open", i)
		}
		if uint32(n) > f.chunkSize {
			return nil, fmt.Errorf("chunk %d of %d bytes, chunk size %d", i, n, f.chunkSize)
		}
		if !c.eof && uint32(n) != f.chunkSize {
			return nil, fmt.Errorf("chunk %d is not the last and holds %d bytes, chunk size %d", i, n, f.chunkSize)
		}
		mac.Write(c.raw[:4])
		mac.Write(c.pt)
		f.pt = append(f.pt, c.pt...)
		f.chunks = append(f.chunks, c)
		b = b[len(c.raw):]
		if c.eof {
			break
		}
	}
	f.mac = mac.Sum(nil)
	if len(b) != 64 {
		return nil, fmt.Errorf("trailer of %d bytes", len(b))
	}
	f.trailer = b
	return f, nil
}

// checkSender checks the sender field and trailer against the sender (nil: anonymous)
func (f *refFile) checkSender(spk *sign.PublicKey) error {
	if spk == nil {
		if !bytes.Equal(f.sig, make([]byte, 64)) {
			return errors.New("anonymous file with a sender signature")
		}
		return nil
	}
	if !ed25519.Verify(spk.Pk, refSignMsg(f.senderMsg()), f.sig) {
		return errors.New("sender signature in the header does not verify")
	}
	if !ed25519.Verify(spk.Pk, refSignMsg(f.mac), f.trailer) {
		return errors.New("trailer signature does not verify")
	}
	return nil
}

// refBuild makes a file from scratch. Chunks are given as plaintexts; the last one gets the mark.
type refOpts struct {
	chunkSize uint32
	rx        []*sign.PublicKey
	snd       *sign.PrivateKey
	rng       *mrand.Rand
	hdrEdit   func(f *refFile)
}

func refNew(o refOpts) *refFile {
	f := &refFile{chunkSize: o.chunkSize}
	f.salt = bytesOf(o.rng, 32)
	key := bytesOf(o.rng, 32)
	esk := bytesOf(o.rng, 32)
	esk[0] &= 248
	esk[31] &= 127
	esk[31] |= 64
	f.pk = refXPub(esk)
	f.key = key
	sig := make([]byte, 64)
	if o.snd != nil {
		sig = ed25519.Sign(ed25519.PrivateKey(o.snd.Sk), refSignMsg(f.senderMsg()))
	}
	sk := rhkdf(key, f.salt, "Sender Sig", 44)
	f.sender = gcm(sk[:32]).Seal(nil, sk[32:], sig, nil)
	for _, p := range o.rx {
		sec := refX(esk, refCurvePK(p.Pk))
		n := bytesOf(o.rng, 12)
		kn := rhkdf(sec, sum256(f.salt, n), "Receiver Key", 44)
		f.keys = append(f.keys, refKey{gcm(kn[:32]).Seal(nil, kn[32:], key, p.Pk), n})
	}
	if o.hdrEdit != nil {
		o.hdrEdit(f)
	}
	f.finishHdr()
	return f
}

func (f *refFile) finishHdr() {
	v := f.encodeHdr()
	f.hdr = append([]byte("SigTool\x03"), be4(uint32(len(v)))...)
	f.hdr = append(f.hdr, v...)
	f.sum = sum256(f.hdr)
	f.derive(f.key)
}

func (f *refFile) head() []byte { return append(append([]byte{}, f.hdr...), f.sum...) }

func (f *refFile) chunk(i uint32, pt []byte, eof bool) []byte {
	v := uint32(len(pt))
	if eof {
		v |= 1 << 31
	}
	return append(be4(v), gcm(f.dkey).Seal(nil, f.chunkNonce(i), pt, be4(v))...)
}

func (f *refFile) trailerFor(pts [][]byte, snd *sign.PrivateKey) []byte {
	if snd == nil {
		b := make([]byte, 64)
		rand.Read(b)
		return b
	}
	mac := hmac.New(sha256.New, f.hkey)
	for i, p := range pts {
		v := uint32(len(p))
		if i == len(pts)-1 {
			v |= 1 << 31
		}
		mac.Write(be4(v))
		mac.Write(p)
	}
	return ed25519.Sign(ed25519.PrivateKey(snd.Sk), refSignMsg(mac.Sum(nil)))
}

// body encodes the chunks and trailer
func (f *refFile) body(pts [][]byte, snd *sign.PrivateKey) []byte {
	var b []byte
	for i, p := range pts {
		b = append(b, f.chunk(uint32(i), p, i == len(pts)-1)...)
	}
	return append(b, f.trailerFor(pts, snd)...)
}

func refSplit(pt []byte, n int) [][]byte {
	var r [][]byte
	for len(pt) >= n {
		r = append(r, pt[:n])
		pt = pt[n:]
	}
	return append(r, pt)
}

func sizesAround(bs int) []int {
	return []int{0, 1, bs - 1, bs, bs + 1, 2*bs - 1, 2 * bs, 2*bs + 1, 3*bs + 7}
}

// a chunking plaintext reader: serves the bytes in pieces given by split
type pieceReader struct {
	b     []byte
	split func(left int) int
	end   error
	with  bool // report the end together with the last piece
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, p.end
	}
	n := p.split(len(p.b))
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	if p.with && len(p.b) == 0 {
		return n, p.end
	}
	return n, nil
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func pubs(ks []*sign.PrivateKey) (r []*sign.PublicKey) {
	for _, k := range ks {
		r = append(r, k.PublicKey())
	}
	return
}

func keys(t testing.TB, n int) (r []*sign.PrivateKey) {
	for i := 0; i < n; i++ {
		r = append(r, genKey(t))
	}
	return
}

func pubOf(k *sign.PrivateKey) *sign.PublicKey {
	if k == nil {
		return nil
	}
	return k.PublicKey()
}

// openAll gives what decryption hands out and the error it ends with
func openAll(raw []byte, rx *sign.PrivateKey, spk *sign.PublicKey, stream int) (out []byte, err error, after error) {
	var w bytes.Buffer
	e2, _ := guard(func() error {
		d, e := sign.NewDecryptor(bytes.NewReader(raw))
		if e != nil {
			err = e
			return nil
		}
		if e = d.SetPrivateKey(rx, spk); e != nil {
			err = e
			return nil
		}
		if stream == 0 {
			err = d.Decrypt(&w)
			after = d.Decrypt(&w)
			return nil
		}
		r, e := d.NewStreamReader()
		if e != nil {
			err = e
			return nil
		}
		b := make([]byte, stream)
		for {
			n, e := r.Read(b)
			w.Write(b[:n])
			if e == io.EOF {
				break
			}
			if e != nil {
				err = e
				break
			}
		}
		n, e := r.Read(b)
		w.Write(b[:n])
		after = e
		return nil
	})
	if e2 != nil {
		return w.Bytes(), nil, e2
	}
	return w.Bytes(), err, after
}

func sshStr(p ...[]byte) []byte {
	var b []byte
	for _, x := range p {
		b = append(append(b, be4(uint32(len(x)))...), x...)
	}
	return b
}

func sshPub(pk []byte) []byte { return sshStr([]byte("ssh-ed25519"), pk) }

// unencrypted OpenSSH private key file
func sshPriv(sk []byte, comment string) []byte {
	var in []byte
	in = append(in, 1, 2, 3, 4, 1, 2, 3, 4)
	in = append(in, sshStr([]byte("ssh-ed25519"), sk[32:], sk, []byte(comment))...)
	for i := 1; len(in)%8 != 0; i++ {
		in = append(in, byte(i))
	}
	b := append([]byte("openssh-key-v1\x00"), sshStr([]byte("none"), []byte("none"), nil)...)
	b = append(b, 0, 0, 0, 1)
	b = append(b, sshStr(sshPub(sk[32:]), in)...)
	return pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: b})
}

func nopw() ([]byte, error) { return nil, nil }

// skOf makes the key object of a 64 byte Ed25519 key
func skOf(sk []byte) (*sign.PrivateKey, error) { return sign.MakePrivateKey(sshPriv(sk, "x"), nopw) }

func pkOf(pk []byte) (*sign.PublicKey, error) {
	return sign.MakePublicKey([]byte("pk: " + base64.StdEncoding.EncodeToString(pk) + "\n"))
}

// spyW records every Write it is offered and fails or truncates on request
type spyW struct {
	all    [][]byte // every buffer offered, also those refused
	got    []byte   // what was taken
	failAt int      // index of the call that fails, -1: never
	partOK bool     // take only part of a buffer now and then
	rng    interface{ Intn(int) int }
	n      int
	closed int
	cerr   error
}

var errSpy = errors.New("spy: no space left")

func (w *spyW) Write(b []byte) (int, error) {
	w.all = append(w.all, append([]byte{}, b...))
	w.n++
	if w.failAt >= 0 && w.n-1 == w.failAt {
		k := 0
		if w.rng != nil && len(b) > 0 {
			k = w.rng.Intn(len(b))
		}
		w.got = append(w.got, b[:k]...)
		return k, errSpy
	}
	if w.partOK && len(b) > 1 && w.rng != nil {
		k := 1 + w.rng.Intn(len(b))
		w.got = append(w.got, b[:k]...)
		return k, nil
	}
	w.got = append(w.got, b...)
	return len(b), nil
}
func (w *spyW) Close() error { w.closed++; return w.cerr }

// errReader serves b and then fails
type errReader struct {
	b   []byte
	err error
}

func (r *errReader) Read(b []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := copy(b, r.b)
	r.b = r.b[n:]
	return n, nil
}

// recRand records what the system's random source gave
type recRand struct {
	mu  sync.Mutex
	src io.Reader
	log []byte
	cnt []int
}

func (r *recRand) Read(b []byte) (int, error) {
	n, err := r.src.Read(b)
	r.mu.Lock()
	r.log = append(r.log, b[:n]...)
	r.cnt = append(r.cnt, n)
	r.mu.Unlock()
	return n, err
}

// withRand runs f with the random source recorded
func withRand(f func(rec *recRand)) {
	old := rand.Reader
	rec := &recRand{src: old}
	rand.Reader = rec
	defer func() { rand.Reader = old }()
	f(rec)
}

// oddW takes only part of a buffer at a time, in the given pattern, and fails after limit bytes
type oddW struct {
	got    []byte
	step   func(n int) int
	limit  int // -1: no limit
	err    error
	with   bool // the failing call takes what still fits
	cerr   error
	closed int
	failed int
	after  int // writes after a failure
}

func (w *oddW) Write(b []byte) (int, error) {
	if w.failed > 0 {
		w.after++
		w.failed++
		return 0, w.err
	}
	n := w.step(len(b))
	if n > len(b) {
		n = len(b)
	}
	if w.limit >= 0 && len(w.got)+n > w.limit {
		w.failed++
		n = 0
		if w.with {
			n = w.limit - len(w.got)
		}
		w.got = append(w.got, b[:n]...)
		return n, w.err
	}
	w.got = append(w.got, b[:n]...)
	return n, nil
}
func (w *oddW) Close() error { w.closed++; return w.cerr }
