package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---------- wire-format helpers of vtprotobuf (dependency, exact contracts)

func (c *ectx) varintLen(v *Term) int64 {
	for k := int64(1); k < 10; k++ {
		cond := Lt(v, BigI(pow2(uint(7*k))))
		d, e := c.x.decide(c.st, cond)
		if d == 1 {
			return k
		}
		if d == -1 {
			panic(SplitReq{e})
		}
	}
	return 10
}

func varintBytes(v *Term, k int64) *Term {
	var r []*Term
	for i := int64(0); i < k; i++ {
		b := ModK(DivK(v, pow2(uint(7*i))), B(128))
		if i < k-1 {
			b = AddK(b, 128)
		} else {
			b = DivK(v, pow2(uint(7*i)))
		}
		r = append(r, QByte(b))
	}
	return Cat(r...)
}

// varint: the varint encoding of v, of length varsz(v)
func varint(v *Term) *Term {
	if k, ok := v.Const(); ok && k.Sign() >= 0 {
		n := int64(k.BitLen()+6) / 7
		if n == 0 {
			n = 1
		}
		return varintBytes(v, n)
	}
	return QApp("varint", IApp("varsz", b1, B(10), v), v)
}

// openVarint: a byte of an opaque varint, by the varint's length
func (x *Exec) openVarint(st *State, t *Term) *Term {
	if t.op != OAt || !isQApp(t.args[0], "varint") {
		return t
	}
	j, ok := t.args[1].ConstI()
	if !ok {
		return t
	}
	v := t.args[0].args[1]
	k := int64(1)
	for ; k < 10; k++ {
		d, e := x.decide(st, Lt(v, BigI(pow2(uint(7*k)))))
		if d == -1 {
			panic(SplitReq{e})
		}
		if d == 1 {
			break
		}
	}
	if f := Eq(t.args[0].ln, Int(k)); !st.pc.has(f) {
		st.assumeRaw(f)
	}
	if j >= k {
		return t
	}
	return At(varintBytes(v, k), Int(j))
}

func init() {
	E := externs
	const ph = "github.com/planetscale/vtprotobuf/protohelpers."
	contractNames[ph+"SizeOfVarint"] = true
	contractNames[ph+"EncodeVarint"] = true
	E[ph+"SizeOfVarint"] = func(c *ectx) []Outcome {
		if c.x.varints {
			return c.ret(varint(c.term(0)).ln)
		}
		return c.ret(Int(c.varintLen(c.term(0))))
	}
	E[ph+"EncodeVarint"] = func(c *ectx) []Outcome {
		x := c.x
		b := c.args[0].(Slice)
		off, v := c.term(1), c.term(2)
		if x.varints {
			d := varint(v)
			base := Sub(off, d.ln)
			c.must("varint does not fit", And(Le(Int(0), base), Le(off, b.ln)))
			x.writeBytes(c.st, b, base, d)
			return c.ret(base)
		}
		k := c.varintLen(v)
		base := AddK(off, -k)
		c.must("varint does not fit", And(Le(Int(0), base), Le(off, b.ln)))
		d := varintBytes(v, k)
		if c.st.objs[b.obj] == nil {
			unsup("EncodeVarint into nil")
		}
		x.writeBytes(c.st, b, base, d)
		return c.ret(base)
	}
	// Skip returns the length of the first record, or an error; checked by C10
	contractNames[ph+"Skip"] = true
	E[ph+"Skip"] = func(c *ectx) []Outcome {
		if !c.x.varints && !c.x.summary {
			return c.inline()
		}
		b := c.st.norm(c.bytes(0))
		return c.fork(BApp("pb.skips", b), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(Int(0), c.err("skip"))
			}
			return c.ret(IApp("pb.skip", b1, new(big.Int).Sub(pow2(63), b1), b), nilErr)
		})
	}
	E["math/bits.Len64"] = func(c *ectx) []Outcome {
		v := c.term(0)
		if k, ok := v.Const(); ok {
			return c.ret(Int(int64(k.BitLen())))
		}
		for k := int64(0); k < 64; k++ {
			d, e := c.x.decide(c.st, Lt(v, BigI(pow2(uint(k)))))
			if d == -1 {
				panic(SplitReq{e})
			}
			if d == 1 {
				return c.ret(Int(k))
			}
		}
		return c.ret(Int(64))
	}

	// ---- one wrapped key
	const W = "(*" + modPath + "internal/pb.WrappedKey)."
	wfield := func(c *ectx, p Ptr, f string) Value {
		u := c.x.namedType(modPath+"internal/pb", "WrappedKey").Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				return c.x.get(c.st, p.obj, append(append([]Sel{}, p.path...), Sel{f: i}))
			}
		}
		unsup("WrappedKey.%s", f)
		return nil
	}
	// the bytes of a wrapped key are a function of its two fields
	wterm := func(c *ectx) (*Term, bool) {
		p, ok := c.args[0].(Ptr)
		if !ok || p.obj == 0 {
			return nil, false
		}
		var ts []*Term
		for _, f := range []string{"DKey", "Nonce", "unknownFields"} {
			s, ok := wfield(c, p, f).(Slice)
			if !ok {
				return nil, false
			}
			ts = append(ts, c.st.norm(c.x.content(c.st, s)))
		}
		if !c.x.isZero(c.st, ts[2].ln) {
			return nil, false
		}
		return QApp("pb.wkey", IApp("pb.wkeysz", b0, maxLen, ts[0], ts[1]), ts[0], ts[1]), true
	}
	wk := func(name string, f externFn) {
		contractNames[W+name] = true
		E[W+name] = func(c *ectx) []Outcome {
			if !c.x.varints && !c.x.summary {
				return c.inline()
			}
			return f(c)
		}
	}
	wk("SizeVT", func(c *ectx) []Outcome {
		t, ok := wterm(c)
		if !ok {
			return c.inline()
		}
		return c.ret(t.ln)
	})
	wk("MarshalToSizedBufferVT", func(c *ectx) []Outcome {
		t, ok := wterm(c)
		if !ok {
			return c.inline()
		}
		b := c.args[1].(Slice)
		c.must("buffer too small for the key", Le(t.ln, b.ln))
		c.x.writeBytes(c.st, b, Sub(b.ln, t.ln), t)
		return c.ret(t.ln, nilErr)
	})
	wk("UnmarshalVT", func(c *ectx) []Outcome {
		x := c.x
		p := c.args[0].(Ptr)
		b := c.st.norm(c.bytes(1))
		u := x.namedType(modPath+"internal/pb", "WrappedKey").Underlying().(*types.Struct)
		set := func(c *ectx, f string, t *Term) {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					x.put(c.st, p.obj, append(append([]Sel{}, p.path...), Sel{f: i}), c.mkBytes(t))
				}
			}
		}
		if isQApp(b, "pb.wkey") {
			for _, f := range []string{"DKey", "Nonce", "unknownFields"} {
				s, ok := wfield(c, p, f).(Slice)
				if !ok || !x.isZero(c.st, s.ln) {
					return c.inline()
				}
			}
			set(c, "DKey", b.args[1])
			set(c, "Nonce", b.args[2])
			return c.ret(nilErr)
		}
		return c.fork(BApp("pb.keyok", b), func(c *ectx, ok bool) []Outcome {
			any := func(f string) *Term { return QSym(x.fresh(f), ISym(x.fresh("len:"+f), b0, maxLen)) }
			set(c, "DKey", any("dkey"))
			set(c, "Nonce", any("nonce"))
			set(c, "unknownFields", any("unknown"))
			if !ok {
				return c.ret(c.err("wrapped key"))
			}
			return c.ret(nilErr)
		})
	})

	// ---- pb.Header contracts; proved under C10 against the functions' code
	const H = "(*" + modPath + "internal/pb.Header)."
	pb := func(name string, f externFn) {
		contractNames[H+name] = true
		E[H+name] = f
	}
	pb("SizeVT", func(c *ectx) []Outcome {
		p, ok := c.args[0].(Ptr)
		if !ok || p.obj == 0 {
			return c.ret(Int(0))
		}
		return c.ret(c.pbTerm(p).ln)
	})
	pb("MarshalToSizedBufferVT", func(c *ectx) []Outcome {
		p, ok := c.args[0].(Ptr)
		if !ok || p.obj == 0 {
			return c.ret(Int(0), nilErr)
		}
		t := c.pbTerm(p)
		b := c.args[1].(Slice)
		c.must("buffer too small for the header", Le(t.ln, b.ln))
		c.x.writeBytes(c.st, b, Sub(b.ln, t.ln), t)
		return c.ret(t.ln, nilErr)
	})
	pb("UnmarshalVT", func(c *ectx) []Outcome {
		x := c.x
		p := c.args[0].(Ptr)
		ht := x.hdrType()
		b := c.st.norm(c.bytes(1))
		// the contract covers decoding into a zero header
		if !x.zeroHeader(c.st, p, ht) {
			x.noteContract("UnmarshalVT into a non-zero header: inlined")
			return c.inline()
		}
		s2 := c.st.clone()
		var cs, salt, pk, sender, keys *Term
		failing := true
		if isQApp(b, "pbhdr") {
			cs, salt, pk, sender, keys = b.args[1], b.args[2], b.args[3], b.args[4], b.args[5]
			failing = false
		} else {
			cs = IApp("pb.chunksize", b0, BigI(pow2(32)).k, b)
			cs = ModK(cs, pow2(32))
			mk := func(n string) *Term { return QApp("pb."+n, IApp("pb.len."+n, b0, maxLen, b), b) }
			salt, pk, sender, keys = mk("salt"), mk("pk"), mk("sender"), mk("keys")
			for _, t := range []*Term{salt, pk, sender, keys} {
				c.st.assume(x, Le(t.ln, b.ln))
			}
		}
		set := func(name string, v Value) {
			x.put(c.st, p.obj, append(append([]Sel{}, p.path...), Sel{f: fieldIdx(ht, name)}), v)
		}
		sl := func(t *Term) Value {
			s := bytesObj(x, c.st, "pbfield", t)
			s.isnil = BApp("pb.nil", t, b)
			c.st.assume(x, Implies(s.isnil, Eq(t.ln, Int(0))))
			return s
		}
		set("ChunkSize", cs)
		set("Salt", sl(salt))
		set("Pk", sl(pk))
		set("Sender", sl(sender))
		kt := ht.Underlying().(*types.Struct).Field(fieldIdx(ht, "Keys")).Type().Underlying().(*types.Slice).Elem()
		id := x.newObj(c.st, "pbkeys", types.NewSlice(kt), &ListV{typ: kt, seq: keys})
		set("Keys", Slice{obj: id, off: Int(0), ln: keys.ln, cap_: keys.ln, isnil: Eq(keys.ln, Int(0))})
		out := c.ret(nilErr)
		if failing {
			c2 := *c
			c2.st = s2
			ok := BApp("pbok", b)
			c.st.assume(x, ok)
			s2.assume(x, Not(ok))
			// a failing decode may have stored anything
			for _, n := range []string{"ChunkSize", "Salt", "Pk", "Sender"} {
				i := fieldIdx(ht, n)
				ft := ht.Underlying().(*types.Struct).Field(i).Type()
				x.put(s2, p.obj, append(append([]Sel{}, p.path...), Sel{f: i}), x.sym(s2, x.fresh("pbfail."+n), ft))
			}
			out = append(out, c2.ret(c2.err("decode"))...)
		}
		return out
	})
}

var contractNames = map[string]bool{}

func (x *Exec) noteContract(s string) { x.assumed[s]++ }

func (x *Exec) hdrType() types.Type { return x.namedType(modPath+"internal/pb", "Header") }

func fieldIdx(t types.Type, name string) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %s", name, t)
	return 0
}

func (x *Exec) zeroHeader(st *State, p Ptr, ht types.Type) bool {
	for _, n := range []string{"ChunkSize", "Salt", "Pk", "Sender", "Keys"} {
		v := x.get(st, p.obj, append(append([]Sel{}, p.path...), Sel{f: fieldIdx(ht, n)}))
		switch y := v.(type) {
		case *Term:
			if !y.isK(0) {
				return false
			}
		case Slice:
			if y.obj != 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// the encoded header as a term over the field contents
func (c *ectx) pbTerm(p Ptr) *Term {
	x := c.x
	ht := x.hdrType()
	fld := func(name string) Value {
		return x.get(c.st, p.obj, append(append([]Sel{}, p.path...), Sel{f: fieldIdx(ht, name)}))
	}
	by := func(name string) *Term {
		s, ok := fld(name).(Slice)
		if !ok {
			unsup("header field %s", name)
		}
		return x.content(c.st, s)
	}
	cs, ok := fld("ChunkSize").(*Term)
	if !ok {
		unsup("header chunk size")
	}
	keys := Empty
	ks, ok := fld("Keys").(Slice)
	if !ok {
		unsup("header keys: %T", fld("Keys"))
	}
	if ks.obj != 0 && !ks.ln.isK(0) {
		keys = x.listContent(c.st, ks).seq
	}
	keys = c.st.norm(keys)
	salt, pk, snd := by("Salt"), by("Pk"), by("Sender")
	ln := IApp("pbsize", b0, B(1<<62), cs, salt, pk, snd, keys)
	// every non-empty field takes its length plus at least two bytes, every key at least two
	low := Add(salt.ln, pk.ln, snd.ln, MulK(keys.ln, B(2)))
	c.st.assume(x, Le(low, ln))
	if k := keysUpper(keys); k != nil {
		c.st.assume(x, Le(ln, Add(salt.ln, pk.ln, snd.ln, k, Int(4*11))))
	}
	return QApp("pbhdr", ln, cs, salt, pk, snd, keys)
}

func (x *Exec) contractOff(name string) bool {
	return x.noContract[name] || x.noContract["*"] && contractNames[name]
}

var _ = fmt.Sprint

// upper bound of the encoded size of a key list
func keysUpper(keys *Term) *Term {
	r := Int(0)
	for _, g := range segs(keys) {
		switch {
		case g.op == OQApp && strings.HasPrefix(g.name, "rec:"):
			r = Add(r, recUpper(g))
		case g.op == OBig:
			u := Int(0)
			for _, b := range segs(g.args[0]) {
				if b.op != OQApp || !strings.HasPrefix(b.name, "rec:") {
					return nil
				}
				w := recUpper(b)
				if _, ok := w.Const(); !ok {
					return nil
				}
				u = Add(u, w)
			}
			r = Add(r, Mul(u, Sub(g.args[3], g.args[2])))
		default:
			return nil
		}
	}
	return r
}

func recUpper(g *Term) *Term {
	r := Int(33)
	for _, a := range g.args[1:] {
		if a.sort == SSeq {
			r = Add(r, a.ln)
		}
	}
	return r
}

func init() {
	// the Curve25519 form of a public key; proved under C13 against the function's code
	const T = "(*" + modPath + "sign.PublicKey).ToCurve25519PK"
	contractNames[T] = true
	externs[T] = func(c *ectx) []Outcome {
		x := c.x
		p, ok := c.args[0].(Ptr)
		if !ok || p.obj == 0 {
			c.must("nil public key", False)
			return []Outcome{}
		}
		t := x.namedType(modPath+"sign", "PublicKey")
		fld := func(n string) []Sel { return append(append([]Sel{}, p.path...), Sel{f: fieldIdx(t, n)}) }
		ck, ok := x.get(c.st, p.obj, fld("ck")).(Slice)
		if !ok {
			unsup("PublicKey.ck")
		}
		return c.fork(ck.isnil, func(c *ectx, isnil bool) []Outcome {
			if !isnil {
				return c.ret(ck)
			}
			pk, ok := x.get(c.st, p.obj, fld("Pk")).(Slice)
			if !ok {
				unsup("PublicKey.Pk")
			}
			b := x.content(c.st, pk)
			c.must("public key length", Eq(b.ln, Int(32)))
			r := c.mkBytes(curvePK(b))
			x.put(c.st, p.obj, fld("ck"), r)
			return c.ret(r)
		})
	}
}

func init() {
	// proved as vcC17_fullwrite. It is used only for writers that may take parts of a buffer:
	// for all others the body is executed.
	const F = modPath + "sign.fullwrite"
	contractNames[F] = true
	externs[F] = func(c *ectx) []Outcome {
		x := c.x
		r, kind := x.ghostKind(c.st, c.args[1])
		if kind != "writer" || c.st.abs(r).f["mode"].(*Term).name != "liberal" {
			return c.inline()
		}
		d := c.bytes(0)
		s2 := c.st.clone()
		logged := func(c *ectx, d *Term) {
			x.absSet(c.st, r, "log", Cat(c.st.abs(r).f["log"].(*Term), d))
		}
		logged(c, d)
		out := c.hooked("write", []Value{d, nilErr}, func(c *ectx) []Outcome { return c.ret(nilErr) })
		c2 := *c
		c2.st = s2
		n := ISym(x.fresh("nwritten"), b0, maxLen)
		s2.assume(x, Le(n, d.ln))
		x.absSet(s2, r, "failed", True)
		e := errIface(ISym(x.fresh("werr"), errLo, nil))
		p := x.slice(s2, d, Int(0), n, false)
		logged(&c2, p)
		return append(out, c2.hooked("write", []Value{p, e}, func(c *ectx) []Outcome { return c.ret(e) })...)
	}
}
