package pb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// an encoder and a decoder written from the protobuf wire format
func refField(b []byte, tag byte, f []byte) []byte {
	b = append(b, tag)
	b = binary.AppendUvarint(b, uint64(len(f)))
	return append(b, f...)
}

func refOpt(b []byte, tag byte, f []byte) []byte {
	if len(f) == 0 {
		return b
	}
	return refField(b, tag, f)
}

func refKey(k *WrappedKey) []byte {
	return refOpt(refOpt(nil, 0x0a, k.DKey), 0x12, k.Nonce)
}

func refHdr(h *Header) []byte {
	var b []byte
	if h.ChunkSize != 0 {
		b = append(b, 0x08)
		b = binary.AppendUvarint(b, uint64(h.ChunkSize))
	}
	b = refOpt(b, 0x12, h.Salt)
	b = refOpt(b, 0x1a, h.Pk)
	b = refOpt(b, 0x22, h.Sender)
	for _, k := range h.Keys {
		b = refField(b, 0x2a, refKey(k))
	}
	return b
}

func show(h *Header) string {
	var kl []string
	for i, k := range h.Keys {
		if i == 4 {
			kl = append(kl, "...")
			break
		}
		kl = append(kl, fmt.Sprintf("%d/%d", len(k.DKey), len(k.Nonce)))
	}
	return fmt.Sprintf("chunk size %d, lengths salt %d, pk %d, sender %d, %d keys (%s)", h.ChunkSize, len(h.Salt), len(h.Pk), len(h.Sender), len(h.Keys), strings.Join(kl, " "))
}

func TestVerifC10(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := mrand.New(mrand.NewSource(seed*7919 + 10))
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	fmt.Println("RULE: a case is a header with given lengths and number of keys, encoded and decoded; or a byte string, decoded")
	cases, distinct, fails, samples := 0, map[string]bool{}, 0, 0
	var cur atomic.Value
	cur.Store("")
	var started atomic.Int64
	bad := func(f string, a ...interface{}) {
		if fails++; fails <= 5 {
			fmt.Printf("\nFAILING-INPUT: %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
		}
		t.Fail()
	}
	ok := func(s string) {
		cases++
		if !distinct[s] {
			distinct[s] = true
			if samples < 4 {
				samples++
				fmt.Println("SAMPLE:", s)
			}
		}
	}
	// a decoder that does not come to an end
	go func() {
		for {
			time.Sleep(time.Second)
			if s := started.Load(); s != 0 && time.Now().UnixNano()-s > int64(20*time.Second) {
				fmt.Printf("\nFAILING-INPUT: %s: does not end\n", cur.Load())
				os.Exit(1)
			}
		}
	}()
	begin := func(s string) {
		cur.Store(s)
		started.Store(time.Now().UnixNano())
	}
	rb := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	check := func(h *Header) {
		d := show(h)
		begin(d)
		defer func() {
			if e := recover(); e != nil {
				bad("%s: panic: %v", d, e)
			}
		}()
		want := refHdr(h)
		if n := h.Size(); n != len(want) {
			bad("%s: the size is %d, the encoding %d bytes", d, n, len(want))
			return
		}
		buf := bytes.Repeat([]byte{0xa5}, len(want)+5)
		n, err := h.MarshalTo(buf)
		switch {
		case err != nil:
			bad("%s: encoding fails: %v", d, err)
			return
		case n != len(want):
			bad("%s: %d bytes encoded, not %d", d, n, len(want))
			return
		case !bytes.Equal(buf[:n], want):
			bad("%s: the encoding is %.60x.., not %.60x..", d, buf[:n], want)
			return
		case !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, 5)):
			bad("%s: bytes written after the encoding", d)
			return
		}
		if b, err := h.MarshalVT(); err != nil || !bytes.Equal(b, want) {
			bad("%s: MarshalVT: %v %.60x.., not %.60x..", d, err, b, want)
			return
		}
		var r Header
		if err := r.Unmarshal(want); err != nil {
			bad("%s: decoding fails: %v", d, err)
			return
		}
		same := r.ChunkSize == h.ChunkSize && bytes.Equal(r.Salt, h.Salt) && bytes.Equal(r.Pk, h.Pk) && bytes.Equal(r.Sender, h.Sender) && len(r.Keys) == len(h.Keys) && len(r.unknownFields) == 0
		for i := 0; same && i < len(h.Keys); i++ {
			same = bytes.Equal(r.Keys[i].DKey, h.Keys[i].DKey) && bytes.Equal(r.Keys[i].Nonce, h.Keys[i].Nonce)
		}
		if !same {
			bad("%s: decoded as %s, other values", d, show(&r))
			return
		}
		// the encoding holds no part of the buffer it was decoded from
		c := append([]byte{}, want...)
		var r2 Header
		if err := r2.Unmarshal(c); err == nil {
			for i := range c {
				c[i] ^= 0xff
			}
			if b, err := r2.MarshalVT(); err != nil || !bytes.Equal(b, want) {
				bad("%s: the decoded fields change with the buffer they were decoded from", d)
				return
			}
		}
		ok(d)
	}
	edge := []int{0, 1, 2, 12, 16, 31, 32, 33, 64, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385}
	big := []int{1<<21 - 1, 1 << 21}
	pick := func() []byte {
		switch rng.Intn(3) {
		case 0:
			return rb(32)
		case 1:
			return rb(edge[rng.Intn(len(edge))])
		}
		return rb(rng.Intn(300))
	}
	key := func() *WrappedKey { return &WrappedKey{DKey: pick(), Nonce: pick()} }
	sizes := []uint32{0, 1, 127, 128, 16383, 16384, 131072, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for _, c := range sizes {
		check(&Header{ChunkSize: c})
		check(&Header{ChunkSize: c, Salt: rb(32), Pk: rb(32), Sender: rb(80), Keys: []*WrappedKey{{DKey: rb(48), Nonce: rb(12)}}})
	}
	for _, n := range append(edge, big...) {
		check(&Header{Salt: rb(n)})
		check(&Header{ChunkSize: 9, Pk: rb(n)})
		check(&Header{Sender: rb(n), Salt: rb(1)})
		check(&Header{Keys: []*WrappedKey{{DKey: rb(n)}, {Nonce: rb(n)}, {DKey: rb(3), Nonce: rb(n)}}})
		// the length of the record crosses a boundary
		for d := 0; d < 8 && d < n; d++ {
			check(&Header{Keys: []*WrappedKey{{DKey: rb(n - d)}}})
		}
	}
	for _, n := range []int{2, 3, 10, 127, 128, 1000} {
		h := &Header{ChunkSize: 131072, Salt: rb(32), Pk: rb(32)}
		for i := 0; i < n; i++ {
			h.Keys = append(h.Keys, &WrappedKey{DKey: rb(48), Nonce: rb(12)})
		}
		check(h)
	}
	check(&Header{Keys: []*WrappedKey{{}, {}, {}}})
	rounds := 1500
	if thorough {
		rounds = 20000
	}
	for i := 0; i < rounds; i++ {
		h := &Header{}
		if rng.Intn(3) > 0 {
			h.ChunkSize = rng.Uint32() >> uint(rng.Intn(32))
		}
		if rng.Intn(4) > 0 {
			h.Salt = pick()
		}
		if rng.Intn(4) > 0 {
			h.Pk = pick()
		}
		if rng.Intn(4) > 0 {
			h.Sender = pick()
		}
		for k := rng.Intn(6); k > 0; k-- {
			h.Keys = append(h.Keys, key())
		}
		check(h)
	}

	// any bytes: no panic, an end, and fields that occur in the input
	try := func(b []byte) {
		d := fmt.Sprintf("decoding %d bytes %.80x", len(b), b)
		begin(d)
		defer func() {
			if e := recover(); e != nil {
				bad("%s: panic: %v", d, e)
			}
		}()
		in := append(make([]byte, 0, len(b)), b...)
		var h Header
		err := h.Unmarshal(in)
		if !bytes.Equal(in, b) {
			bad("%s: the input is changed", d)
			return
		}
		fs := [][]byte{h.Salt, h.Pk, h.Sender}
		for _, k := range h.Keys {
			fs = append(fs, k.DKey, k.Nonce)
		}
		for i, f := range fs {
			if !bytes.Contains(b, f) {
				bad("%s: field %d (%x) is not in the input", d, i, f)
				return
			}
		}
		ok(d)
		_ = err
	}
	start := time.Now()
	n := 60000
	if thorough {
		n = 1500000
	}
	full := refHdr(&Header{ChunkSize: 131072, Salt: rb(32), Pk: rb(32), Sender: rb(80), Keys: []*WrappedKey{{DKey: rb(48), Nonce: rb(12)}, {DKey: rb(48), Nonce: rb(12)}}})
	for i := range full {
		try(full[:i])
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, full[i] ^ 1, full[i] + 1, full[i] - 1} {
			c := append([]byte{}, full...)
			c[i] = v
			try(c)
		}
	}
	for a := 0; a < 256; a++ {
		try([]byte{byte(a)})
		for _, s := range []string{"\x00", "\x01", "\x7f", "\xff\xff\xff\xff\x07", "\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01"} {
			try(append([]byte{byte(a)}, s...))
			try(append([]byte{0x2a, byte(len(s) + 1), byte(a)}, s...))
			try(append([]byte{byte(a), 1}, s...))
		}
	}
	for i := 0; i < n && time.Since(start) < 60*time.Second; i++ {
		var b []byte
		switch rng.Intn(3) {
		case 0:
			b = rb(rng.Intn(40))
		case 1: // records of every kind
			for k := rng.Intn(6); k > 0; k-- {
				tag := uint64(rng.Intn(64))
				if rng.Intn(8) == 0 {
					tag = rng.Uint64() >> uint(rng.Intn(64))
				}
				b = binary.AppendUvarint(b, tag)
				switch tag & 7 {
				case 0:
					b = binary.AppendUvarint(b, rng.Uint64()>>uint(rng.Intn(64)))
				case 2:
					f := rb(rng.Intn(10))
					l := uint64(len(f))
					if rng.Intn(6) == 0 {
						l = rng.Uint64() >> uint(rng.Intn(64))
					}
					b = append(binary.AppendUvarint(b, l), f...)
				default:
					b = append(b, rb(rng.Intn(9))...)
				}
			}
		case 2:
			b = append([]byte{}, full...)
			for k := 1 + rng.Intn(4); k > 0; k-- {
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			}
			b = b[:rng.Intn(len(b)+1)]
		}
		try(b)
	}
	started.Store(0)
	fmt.Printf("CASES: %d DISTINCT: %d\n", cases, len(distinct))
}
