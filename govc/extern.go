package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Contract struct{ fn *ssa.Function }

// ectx is the context of one call of a modelled external function
type ectx struct {
	x     *Exec
	st    *State
	fn    *ssa.Function
	args  []Value
	pos   token.Pos
	depth int
	name  string
}

type externFn func(c *ectx) []Outcome

var externs = map[string]externFn{}

const errBase = 1 << 20

var errLo = B(errBase)

func (c *ectx) ret(vs ...Value) []Outcome {
	return []Outcome{{st: c.st, ret: retOf(Tuple(vs))}}
}

func retS(st *State, vs ...Value) Outcome { return Outcome{st: st, ret: retOf(Tuple(vs))} }

func (c *ectx) bytes(i int) *Term {
	switch v := c.args[i].(type) {
	case Slice:
		return c.x.content(c.st, v)
	case *Term:
		return c.st.norm(v)
	case Poison:
		unsup("poisoned value")
	}
	unsup("%s: argument %d is %T", c.name, i, c.args[i])
	return nil
}

func (c *ectx) term(i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		unsup("%s: argument %d is %T", c.name, i, c.args[i])
	}
	return t
}

func (c *ectx) mkBytes(t *Term) Slice { return bytesObj(c.x, c.st, c.name, t) }

// error with a fresh identity (by call position)
func (c *ectx) err(what string) Iface {
	return errIface(IApp("err", errLo, nil, Lit(c.name+"/"+what)))
}

func extErr(name string) Iface { return errIface(IApp("err", errLo, nil, Lit(name))) }

var nilErr = Iface{}

// must: panics (in the Go sense) unless cond holds
func (c *ectx) must(what string, cond *Term) {
	if cond == True {
		return
	}
	if c.x.panicsOn {
		if !c.x.check(c.st, "no-panic", c.name, c.x.posStr(c.pos), what, cond) {
			panic(deadPath{})
		}
		c.st.assume(c.x, cond)
		return
	}
	c.st.assume(c.x, cond)
	if !c.x.feasible(c.st) {
		panic(deadPath{})
	}
}

// fork on cond
func (c *ectx) fork(cond *Term, f func(c *ectx, v bool) []Outcome) []Outcome {
	var r []Outcome
	c.x.fork(c.st, cond, func(st *State, v bool) {
		c2 := *c
		c2.st = st
		r = append(r, f(&c2, v)...)
	})
	return r
}

// variadic ...any arguments
func (c *ectx) variadic(i int) []Value {
	s, ok := c.args[i].(Slice)
	if !ok || s.obj == 0 {
		return nil
	}
	n, ok := s.ln.ConstI()
	o, ok2 := s.off.ConstI()
	a, ok3 := c.x.get(c.st, s.obj, s.path).(*ArrV)
	if !ok || !ok2 || !ok3 {
		return nil
	}
	return a.elems[o : o+n]
}

func ghostOf(v Value) (AbsRef, bool) {
	switch y := v.(type) {
	case Iface:
		return ghostOf(y.v)
	case AbsRef:
		return y, true
	case Ptr:
		if y.obj != 0 && len(y.path) == 0 {
			return AbsRef{y.obj}, true
		}
	}
	return AbsRef{}, false
}

func (x *Exec) ghostKind(st *State, v Value) (AbsRef, string) {
	r, ok := ghostOf(v)
	if !ok {
		return r, ""
	}
	a, ok := st.objs[r.obj].val.(*Abs)
	if !ok {
		return r, ""
	}
	return r, a.kind
}

func hashOf(v Value) string {
	f, ok := v.(FuncV)
	if !ok {
		unsup("hash constructor %T", v)
	}
	switch f.fn.String() {
	case "crypto/sha256.New":
		return "sha256"
	case "crypto/sha512.New":
		return "sha512"
	case "crypto/md5.New":
		return "md5"
	case "crypto/sha1.New":
		return "sha1"
	}
	return f.fn.String()
}

// run a ghost hook of the harness
func (x *Exec) hook(st *State, name string, pos token.Pos, args ...Value) []*State {
	h, ok := st.hooks[name]
	if !ok {
		return []*State{st}
	}
	var r []*State
	hk := st.hooks
	st.hooks = nil // hooks do not nest
	for _, o := range x.callValue(st, h, args, pos, 20) {
		if o.kind != kRet {
			unsup("hook exits")
		}
		o.st.hooks = hk
		r = append(r, o.st)
	}
	return r
}

// hooked continues f on every state after the hook
func (c *ectx) hooked(name string, args []Value, f func(c *ectx) []Outcome) []Outcome {
	var r []Outcome
	for _, s := range c.x.hook(c.st, name, c.pos, args...) {
		c2 := *c
		c2.st = s
		r = append(r, f(&c2)...)
	}
	return r
}

func (x *Exec) callExtern(st *State, fn *ssa.Function, args []Value, pos token.Pos, depth int) ([]Outcome, bool) {
	name := fn.String()
	if fn.Pkg != nil && isIntrinsic(fn) {
		c := &ectx{x, st, fn, args, pos, depth, fn.Name()}
		return intrinsic(c), true
	}
	if g := x.goContracts[name]; g != nil {
		x.usedContracts[name]++
		return x.callFn(st, g, args, nil, pos, depth+1), true
	}
	f, ok := externs[name]
	if ok && contractNames[name] {
		if x.contractOff(name) {
			return nil, false
		}
		x.usedContracts[name]++
	}
	if !ok {
		if fn.Pkg != nil && fn.Name() == "init" && fn.Pkg.Pkg.Path() != modPath+"sign" {
			return one(st, nil), true
		}
		return nil, false
	}
	if fn.Pkg != nil && x.opaquePk[fn.Pkg.Pkg.Path()] {
		return nil, false
	}
	c := &ectx{x, st, fn, args, pos, depth, name}
	if !contractNames[name] {
		x.trusted[name]++
	}
	r := f(c)
	if r == nil && len(c.args) > 0 {
		return nil, true
	}
	return r, true
}

// inline a function of another package
func (c *ectx) inline() []Outcome {
	x := c.x
	if c.fn.Blocks == nil {
		unsup("no body: %s", c.fn)
	}
	fr := &Frame{fn: c.fn, env: map[ssa.Value]Value{}, depth: c.depth}
	for i, p := range c.fn.Params {
		fr.env[p] = c.args[i]
	}
	out, _, _ := x.runRegion([]item{{st: c.st, fr: fr, blk: c.fn.Blocks[0]}}, nil)
	return out
}

func (x *Exec) namedType(pkg, name string) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	unsup("type %s.%s", pkg, name)
	return nil
}

func (c *ectx) sentinel(n string) Iface { return errIface(c.x.sentinelID(n)) }

func (x *Exec) fresh(name string) string { return fmt.Sprintf("%s!%d", name, freshID()) }

// ---------- reading from ghost readers

// readAtLeast(r, buf, min): outcomes with (n, err)
func (c *ectx) readAtLeast(rd Value, buf Slice, min *Term) []Outcome {
	x := c.x
	r, kind := x.ghostKind(c.st, rd)
	c.must("nil reader", Bool(rd != nil && !isNilIface(rd)))
	switch kind {
	case "rand":
		return c.randFill(buf, func(c *ectx) []Outcome { return c.ret(buf.ln, nilErr) })
	case "hkdf":
		a := c.st.abs(r)
		pos := a.f["pos"].(*Term)
		d := QSub(a.f["stream"].(*Term), pos, buf.ln)
		return c.fork(Le(Add(pos, buf.ln), Int(hkdfMax)), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(Int(0), c.err("entropy limit"))
			}
			x.writeBytes(c.st, buf, Int(0), d)
			x.absSet(c.st, r, "pos", Add(pos, buf.ln))
			return c.ret(buf.ln, nilErr)
		})
	case "reader", "file":
		return c.fork(Le(min, buf.ln), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(Int(0), c.sentinel("io.ErrShortBuffer"))
			}
			return c.fork(Eq(min, Int(0)), func(c *ectx, z bool) []Outcome {
				if z {
					return c.ret(Int(0), nilErr)
				}
				a := c.st.abs(r)
				src, pos := a.f["src"].(*Term), a.f["pos"].(*Term)
				end := a.f["end"].(*Term)
				avail := Sub(src.ln, pos)
				take := func(c *ectx, n *Term) {
					d := x.slice(c.st, c.st.norm(src), pos, n, true)
					x.writeBytes(c.st, buf, Int(0), d)
					x.absSet(c.st, r, "pos", Add(pos, n))
				}
				return c.fork(Le(min, avail), func(c *ectx, enough bool) []Outcome {
					if enough {
						n := min
						if min != buf.ln && !x.prove(c.st, Eq(min, buf.ln)) {
							n = ISym(x.fresh("nread"), b0, maxLen)
							c.st.assume(x, And(Le(min, n), Le(n, buf.ln), Le(n, avail)))
						}
						take(c, n)
						return c.hooked("read", []Value{n, nilErr}, func(c *ectx) []Outcome { return c.ret(n, nilErr) })
					}
					// the source ends first
					eof := x.sentinelID("io.EOF")
					return c.fork(Eq(avail, Int(0)), func(c *ectx, none bool) []Outcome {
						n := avail
						if none {
							n = Int(0)
						}
						take(c, n)
						return c.fork(Eq(end, eof), func(c *ectx, iseof bool) []Outcome {
							e := errIface(end)
							if iseof {
								if none {
									e = errIface(eof)
								} else {
									e = c.sentinel("io.ErrUnexpectedEOF")
								}
							}
							return c.hooked("read", []Value{n, e}, func(c *ectx) []Outcome { return c.ret(n, e) })
						})
					})
				})
			})
		})
	case "":
		return nil
	}
	unsup("read from %s", kind)
	return nil
}

func isNilIface(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.typ == nil && i.v == nil && i.err == nil
}

// fresh random bytes
func (c *ectx) randFill(buf Slice, k func(c *ectx) []Outcome) []Outcome {
	if c.x.isZero(c.st, buf.ln) {
		return k(c)
	}
	t := QSym(c.x.fresh("rand:"), buf.ln)
	c.x.writeBytes(c.st, buf, Int(0), t)
	return c.hooked("rand", []Value{t}, k)
}

// ---------- writing to ghost writers

func (c *ectx) write(r AbsRef, d *Term) []Outcome {
	x := c.x
	a := c.st.abs(r)
	mode := a.f["mode"].(*Term).name
	logged := func(c *ectx, d *Term) {
		a := c.st.abs(r)
		x.absSet(c.st, r, "log", Cat(a.f["log"].(*Term), d))
	}
	fin := func(c *ectx, d, n *Term, e Iface) []Outcome {
		logged(c, d)
		return c.hooked("write", []Value{d, e}, func(c *ectx) []Outcome { return c.ret(n, e) })
	}
	switch mode {
	case "ok":
		return fin(c, d, d.ln, nilErr)
	case "fail": // may fail at any call after taking any part
		s2 := c.st.clone()
		out := fin(c, d, d.ln, nilErr)
		c2 := *c
		c2.st = s2
		n := ISym(x.fresh("nwritten"), b0, maxLen)
		s2.assume(x, Le(n, d.ln))
		x.absSet(s2, r, "failed", True)
		e := errIface(ISym(x.fresh("werr"), errLo, nil))
		return append(out, fin(&c2, x.slice(s2, d, Int(0), n, false), n, e)...)
	case "liberal": // takes any part of the buffer without an error; or fails
		s2 := c.st.clone()
		n := ISym(x.fresh("nwritten"), b0, maxLen)
		c.st.assume(x, Le(n, d.ln))
		out := fin(c, x.slice(c.st, d, Int(0), n, false), n, nilErr)
		c2 := *c
		c2.st = s2
		n2 := ISym(x.fresh("nwritten"), b0, maxLen)
		s2.assume(x, Le(n2, d.ln))
		x.absSet(s2, r, "failed", True)
		e := errIface(ISym(x.fresh("werr"), errLo, nil))
		return append(out, fin(&c2, x.slice(s2, d, Int(0), n2, false), n2, e)...)
	}
	unsup("writer mode %s", mode)
	return nil
}

func (x *Exec) newWriter(st *State, mode string) AbsRef {
	return x.newAbs(st, "writer", map[string]Value{"log": Empty, "mode": Lit(mode), "failed": False, "closed": Int(0)})
}

// ---------- methods of ghost objects

func (x *Exec) absMethod(st *State, recv Value, name string, args []Value, sig *types.Signature, pos token.Pos, depth int) []Outcome {
	r, kind := x.ghostKind(st, recv)
	c := &ectx{x, st, nil, args, pos, depth, kind + "." + name}
	x.trusted["("+kind+")."+name]++
	switch kind {
	case "hash":
		a := st.abs(r)
		alg := a.f["alg"].(*Term).name
		log := a.f["log"].(*Term)
		switch name {
		case "Write":
			d := c.bytes(0)
			x.absSet(st, r, "log", Cat(log, d))
			return c.ret(d.ln, nilErr)
		case "WriteString":
			d := c.bytes(0)
			x.absSet(st, r, "log", Cat(log, d))
			return c.ret(d.ln, nilErr)
		case "Sum":
			h := x.hashResult(st, alg, a, log)
			return c.ret(x.appendBytes(st, args[0].(Slice), h))
		case "Reset":
			x.absSet(st, r, "log", Empty)
			return c.ret()
		case "Size":
			return c.ret(hashTerm(alg, Empty).ln)
		case "BlockSize":
			if alg == "sha512" {
				return c.ret(Int(128))
			}
			return c.ret(Int(64))
		}
	case "buffer":
		data := st.abs(r).f["data"].(*Term)
		switch name {
		case "Reset":
			x.absSet(st, r, "data", Empty)
			return c.ret()
		case "Bytes":
			return c.ret(c.mkBytes(st.norm(data)))
		case "String":
			return c.ret(st.norm(data))
		case "Len":
			return c.ret(data.ln)
		case "Write", "WriteString":
			d := c.bytes(0)
			x.absSet(st, r, "data", Cat(data, d))
			return c.ret(d.ln, nilErr)
		case "WriteByte":
			x.absSet(st, r, "data", Cat(data, QByte(c.term(0))))
			return c.ret(nilErr)
		case "Grow":
			return c.ret()
		}
	case "gcm":
		key := st.abs(r).f["key"].(*Term)
		switch name {
		case "Overhead":
			return c.ret(Int(16))
		case "NonceSize":
			return c.ret(Int(12))
		case "Seal":
			return c.gcmSeal(key)
		case "Open":
			return c.gcmOpen(key)
		}
	case "aes":
		if name == "BlockSize" {
			return c.ret(Int(16))
		}
	case "reader":
		switch name {
		case "Read":
			return c.readSome(r)
		case "Close":
			return c.ret(nilErr)
		}
	case "rand":
		if name == "Read" {
			b := args[0].(Slice)
			return c.randFill(b, func(c *ectx) []Outcome { return c.ret(b.ln, nilErr) })
		}
	case "hkdf":
		if name == "Read" {
			return c.readAtLeast(recv, args[0].(Slice), args[0].(Slice).ln)
		}
	case "writer":
		switch name {
		case "Write", "WriteString":
			return c.write(r, c.bytes(0))
		case "Close":
			a := st.abs(r)
			x.absSet(st, r, "closed", AddK(a.f["closed"].(*Term), 1))
			if a.f["mode"].(*Term).name == "ok" {
				return c.hooked("wclose", []Value{nilErr}, func(c *ectx) []Outcome { return c.ret(nilErr) })
			}
			s2 := st.clone()
			x.absSet(s2, r, "failed", True)
			c2 := *c
			c2.st = s2
			e := errIface(ISym(x.fresh("cerr"), errLo, nil))
			out := c.hooked("wclose", []Value{nilErr}, func(c *ectx) []Outcome { return c.ret(nilErr) })
			return append(out, c2.hooked("wclose", []Value{e}, func(c *ectx) []Outcome { return c.ret(e) })...)
		}
	case "ctr":
		if name == "XORKeyStream" {
			a := st.abs(r)
			d, s := args[0].(Slice), args[1].(Slice)
			c.must("output smaller than input", Le(s.ln, d.ln))
			if !x.isZero(st, a.f["pos"].(*Term)) {
				unsup("second use of a CTR stream")
			}
			x.writeBytes(st, d, Int(0), ctrXor(a.f["key"].(*Term), a.f["iv"].(*Term), x.content(st, s)))
			x.absSet(st, r, "pos", s.ln)
			return c.ret()
		}
	case "cbc":
		if name == "BlockSize" {
			return c.ret(Int(16))
		}
		if name == "CryptBlocks" {
			a := st.abs(r)
			d, s := args[0].(Slice), args[1].(Slice)
			c.must("input not full blocks", Eq(ModK(s.ln, B(16)), Int(0)))
			c.must("output smaller than input", Le(s.ln, d.ln))
			x.writeBytes(st, d, Int(0), cbcDec(a.f["key"].(*Term), a.f["iv"].(*Term), x.content(st, s)))
			return c.ret()
		}
	}
	if f, ok := absMethods[kind+"."+name]; ok {
		return f(c, r)
	}
	if sig == nil {
		unsup("method %s of ghost %s", name, kind)
	}
	if kind == "" {
		unsup("method %s of %T", name, recv)
	}
	x.assumed["arbitrary behaviour of method "+name+" of "+kind]++
	for _, a := range args {
		x.havocArg(st, a)
	}
	return x.havocResults(st, kind+"."+name, sig, args)
}

var absMethods = map[string]func(c *ectx, r AbsRef) []Outcome{}

func (x *Exec) hashResult(st *State, alg string, a *Abs, log *Term) *Term {
	log = st.norm(log)
	if k, ok := a.f["key"].(*Term); ok {
		return hmacTerm(alg, k, log)
	}
	return hashTerm(alg, log)
}

func (c *ectx) readSome(r AbsRef) []Outcome {
	x := c.x
	b := c.args[0].(Slice)
	a := c.st.abs(r)
	src, pos := a.f["src"].(*Term), a.f["pos"].(*Term)
	return c.fork(Lt(pos, src.ln), func(c *ectx, more bool) []Outcome {
		if !more {
			return c.ret(Int(0), errIface(a.f["end"].(*Term)))
		}
		n := ISym(x.fresh("nread"), b0, maxLen)
		c.st.assume(x, And(Le(n, b.ln), Le(Add(pos, n), src.ln)))
		x.writeBytes(c.st, b, Int(0), x.slice(c.st, c.st.norm(src), pos, n, false))
		x.absSet(c.st, r, "pos", Add(pos, n))
		return c.ret(n, nilErr)
	})
}

func overlapOK(c *ectx, dst, src Slice) {
	if dst.obj == 0 || src.obj == 0 || dst.obj != src.obj {
		return
	}
	same := len(dst.path) == len(src.path)
	for i := range dst.path {
		if same && dst.path[i] != src.path[i] {
			return
		}
	}
	if c.x.isZero(c.st, src.ln) {
		return
	}
	// exact overlap, or the output lies beyond the input
	o := Add(dst.off, dst.ln)
	c.must("inexact buffer overlap", Or(Eq(o, src.off), Le(Add(src.off, src.ln), o), Le(dst.off, Int(-1))))
}

func (c *ectx) gcmSeal(key *Term) []Outcome {
	x := c.x
	dst := c.args[0].(Slice)
	nonce, pt, ad := c.bytes(1), c.bytes(2), c.bytes(3)
	c.must("incorrect nonce length", Eq(nonce.ln, Int(12)))
	if s, ok := c.args[2].(Slice); ok {
		overlapOK(c, dst, s)
	}
	ct := gcmSeal(key, nonce, pt, ad)
	return c.hooked("seal", []Value{key, nonce, pt, ad}, func(c *ectx) []Outcome {
		return c.ret(x.appendBytes(c.st, dst, ct))
	})
}

func (c *ectx) gcmOpen(key *Term) []Outcome {
	x := c.x
	dst := c.args[0].(Slice)
	nonce, ct, ad := c.bytes(1), c.bytes(2), c.bytes(3)
	c.must("incorrect nonce length", Eq(nonce.ln, Int(12)))
	if s, ok := c.args[2].(Slice); ok {
		overlapOK(c, dst, s)
	}
	fail := func(c *ectx) []Outcome {
		return c.hooked("open", []Value{key, nonce, ct, ad, False}, func(c *ectx) []Outcome {
			return c.ret(nilSlice(), c.err("message authentication failed"))
		})
	}
	return c.fork(Le(Int(16), ct.ln), func(c *ectx, long bool) []Outcome {
		if !long {
			return fail(c)
		}
		return c.fork(openOK(key, nonce, ct, ad), func(c *ectx, ok bool) []Outcome {
			if !ok {
				// the output buffer is cleared
				n := AddK(ct.ln, -16)
				if dst.obj != 0 && x.le(c.st, Add(dst.ln, n), dst.cap_) {
					x.writeBytes(c.st, dst, dst.ln, Zeros(n))
				}
				return fail(c)
			}
			k, n, cc, a := c.st.norm(key), c.st.norm(nonce), c.st.norm(ct), c.st.norm(ad)
			var pt *Term
			if k2, n2, p2, a2, ok := sealArgs(cc); ok {
				_, _, _ = k2, n2, a2
				pt = p2
			} else {
				pt = gcmOpen(k, n, cc, a)
			}
			return c.hooked("open", []Value{key, nonce, ct, ad, True}, func(c *ectx) []Outcome {
				r := x.appendBytes(c.st, dst, pt)
				return c.ret(r, nilErr)
			})
		})
	})
}

func init() {
	E := externs
	newHash := func(alg string) externFn {
		return func(c *ectx) []Outcome {
			return c.ret(Iface{v: c.x.newAbs(c.st, "hash", map[string]Value{"alg": Lit(alg), "log": Empty})})
		}
	}
	E["crypto/sha256.New"] = newHash("sha256")
	E["crypto/sha512.New"] = newHash("sha512")
	E["crypto/md5.New"] = newHash("md5")
	E["crypto/sha256.Sum256"] = func(c *ectx) []Outcome { return c.ret(hashTerm("sha256", c.bytes(0))) }
	E["crypto/sha512.Sum512"] = func(c *ectx) []Outcome { return c.ret(hashTerm("sha512", c.bytes(0))) }
	E["crypto/hmac.New"] = func(c *ectx) []Outcome {
		return c.ret(Iface{v: c.x.newAbs(c.st, "hash", map[string]Value{"alg": Lit(hashOf(c.args[0])), "key": c.bytes(1), "log": Empty})})
	}
	E["crypto/hmac.Equal"] = func(c *ectx) []Outcome {
		return c.ret(c.x.simpBool(c.st, SeqEq(c.bytes(0), c.bytes(1))))
	}
	E["crypto/subtle.ConstantTimeCompare"] = func(c *ectx) []Outcome {
		e := c.x.simpBool(c.st, SeqEq(c.bytes(0), c.bytes(1)))
		return c.ret(IIte(e, Int(1), Int(0)))
	}
	E["golang.org/x/crypto/hkdf.New"] = func(c *ectx) []Outcome {
		s := hkdfTerm(hashOf(c.args[0]), c.bytes(1), c.bytes(2), c.bytes(3))
		return c.ret(Iface{v: c.x.newAbs(c.st, "hkdf", map[string]Value{"stream": s, "pos": Int(0)})})
	}
	E["crypto/aes.NewCipher"] = func(c *ectx) []Outcome {
		k := c.bytes(0)
		return c.fork(Or(Eq(k.ln, Int(32)), Eq(k.ln, Int(16)), Eq(k.ln, Int(24))), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(nilIface(), c.err("key size"))
			}
			return c.ret(Iface{v: c.x.newAbs(c.st, "aes", map[string]Value{"key": k})}, nilErr)
		})
	}
	E["crypto/cipher.NewGCM"] = func(c *ectx) []Outcome {
		r, kind := c.x.ghostKind(c.st, c.args[0])
		if kind != "aes" {
			unsup("GCM over %s", kind)
		}
		return c.ret(Iface{v: c.x.newAbs(c.st, "gcm", map[string]Value{"key": c.st.abs(r).f["key"]})}, nilErr)
	}
	stream := func(k string) externFn {
		return func(c *ectx) []Outcome {
			r, kind := c.x.ghostKind(c.st, c.args[0])
			if kind != "aes" {
				unsup("%s over %s", k, kind)
			}
			iv := c.bytes(1)
			c.must("IV length must equal block size", Eq(iv.ln, Int(16)))
			return c.ret(Iface{v: c.x.newAbs(c.st, k, map[string]Value{"key": c.st.abs(r).f["key"], "iv": iv, "pos": Int(0)})})
		}
	}
	E["crypto/cipher.NewCTR"] = stream("ctr")
	E["crypto/cipher.NewCBCDecrypter"] = stream("cbc")
	E["golang.org/x/crypto/curve25519.X25519"] = func(c *ectx) []Outcome {
		s, p := c.bytes(0), c.bytes(1)
		return c.fork(And(Eq(s.ln, Int(32)), Eq(p.ln, Int(32))), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(nilSlice(), c.err("bad length"))
			}
			s, p := c.st.norm(s), c.st.norm(p)
			return c.fork(x25519OK(s, p), func(c *ectx, ok bool) []Outcome {
				if !ok {
					return c.ret(nilSlice(), c.err("low order point"))
				}
				return c.ret(c.mkBytes(x25519(s, p)), nilErr)
			})
		})
	}
	E["crypto/ed25519.NewKeyFromSeed"] = func(c *ectx) []Outcome {
		s := c.bytes(0)
		c.must("bad seed length", Eq(s.ln, Int(32)))
		return c.ret(c.mkBytes(Cat(s, edPub(s))))
	}
	E["golang.org/x/crypto/ed25519.NewKeyFromSeed"] = E["crypto/ed25519.NewKeyFromSeed"]
	E["crypto/ed25519.GenerateKey"] = func(c *ectx) []Outcome {
		if _, k := c.x.ghostKind(c.st, c.args[0]); k != "rand" && !isNilIface(c.args[0]) {
			unsup("GenerateKey from another source")
		}
		buf := c.x.makeSlice(c.st, "seed", types.Typ[types.Uint8], Int(32), Int(32))
		return c.randFill(buf, func(c *ectx) []Outcome {
			s := c.x.content(c.st, buf)
			return c.ret(c.mkBytes(edPub(s)), c.mkBytes(Cat(s, edPub(s))), nilErr)
		})
	}
	E["golang.org/x/crypto/ed25519.GenerateKey"] = E["crypto/ed25519.GenerateKey"]
	E["(crypto/ed25519.PrivateKey).Public"] = func(c *ectx) []Outcome {
		k := c.bytes(0)
		c.must("slice bounds", Le(Int(64), k.ln))
		return c.ret(Iface{typ: c.x.namedType("crypto/ed25519", "PublicKey"), v: c.mkBytes(QSub(k, Int(32), Int(32)))})
	}
	E["(crypto/ed25519.PrivateKey).Seed"] = func(c *ectx) []Outcome {
		k := c.bytes(0)
		c.must("slice bounds", Le(Int(32), k.ln))
		return c.ret(c.mkBytes(QSub(k, Int(0), Int(32))))
	}
	sign := func(c *ectx, k, m *Term) Slice {
		c.must("bad private key length", Eq(k.ln, Int(64)))
		return c.mkBytes(edSign(QSub(k, Int(0), Int(32)), QSub(k, Int(32), Int(32)), m))
	}
	E["crypto/ed25519.Sign"] = func(c *ectx) []Outcome {
		return c.ret(sign(c, c.bytes(0), c.bytes(1)))
	}
	E["golang.org/x/crypto/ed25519.Sign"] = E["crypto/ed25519.Sign"]
	E["(crypto/ed25519.PrivateKey).Sign"] = func(c *ectx) []Outcome {
		// opts: crypto.Hash(0) selects plain Ed25519
		o, ok := c.args[3].(Iface)
		if !ok {
			unsup("ed25519 options")
		}
		if t, ok := o.v.(*Term); !ok || !t.isK(0) {
			unsup("ed25519 Sign with options")
		}
		return c.ret(sign(c, c.bytes(0), c.bytes(2)), nilErr)
	}
	E["crypto/ed25519.Verify"] = func(c *ectx) []Outcome {
		p, m, s := c.bytes(0), c.bytes(1), c.bytes(2)
		c.must("bad public key length", Eq(p.ln, Int(32)))
		return c.fork(Eq(s.ln, Int(64)), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(False)
			}
			return c.ret(c.x.simpBool(c.st, edVerify(c.st.norm(p), c.st.norm(m), c.st.norm(s))))
		})
	}
	E["golang.org/x/crypto/ed25519.Verify"] = E["crypto/ed25519.Verify"]
	E["(crypto/ed25519.PublicKey).Equal"] = func(c *ectx) []Outcome {
		unsup("PublicKey.Equal")
		return nil
	}
	E["crypto/rand.Read"] = func(c *ectx) []Outcome {
		b := c.args[0].(Slice)
		return c.randFill(b, func(c *ectx) []Outcome { return c.ret(b.ln, nilErr) })
	}
	E["golang.org/x/crypto/scrypt.Key"] = func(c *ectx) []Outcome {
		pw, salt := c.bytes(0), c.bytes(1)
		N, r, p, l := c.term(2), c.term(3), c.term(4), c.term(5)
		c.must("negative key length", Le(Int(0), l))
		c.must("scrypt: division by zero", And(Not(Eq(r, Int(0))), Not(Eq(p, Int(0)))))
		good := True
		for _, t := range []*Term{N, r, p} {
			if _, ok := t.Const(); !ok {
				good = BApp("scryptok", N, r, p)
			}
		}
		return c.fork(good, func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(nilSlice(), c.err("parameters"))
			}
			return c.ret(c.mkBytes(scryptTerm(pw, salt, N, r, p, l)), nilErr)
		})
	}
	E["github.com/dchest/bcrypt_pbkdf.Key"] = func(c *ectx) []Outcome {
		pw, salt, rounds, l := c.bytes(0), c.bytes(1), c.term(2), c.term(3)
		bad := Or(Lt(rounds, Int(1)), Eq(pw.ln, Int(0)), Eq(salt.ln, Int(0)), Lt(Int(1<<20), salt.ln), Lt(Int(1024), l))
		return c.fork(bad, func(c *ectx, bad bool) []Outcome {
			if bad {
				return c.ret(nilSlice(), c.err("parameters"))
			}
			return c.ret(c.mkBytes(QApp("bcryptpbkdf", l, pw, salt, rounds)), nilErr)
		})
	}

	// ---- io
	rfull := func(c *ectx) []Outcome {
		b := c.args[1].(Slice)
		min := b.ln
		if len(c.args) > 2 {
			min = c.term(2)
		}
		if _, k := c.x.ghostKind(c.st, c.args[0]); k == "" {
			if isNilIface(c.args[0]) {
				c.must("nil reader", False)
				return nil
			}
			return c.inline()
		}
		return c.readAtLeast(c.args[0], b, min)
	}
	E["io.ReadFull"] = rfull
	E["io.ReadAtLeast"] = rfull
	E["io.Copy"] = func(c *ectx) []Outcome {
		x := c.x
		r, k := x.ghostKind(c.st, c.args[1])
		w, wk := x.ghostKind(c.st, c.args[0])
		if (k != "reader" && k != "file") || wk == "" {
			unsup("io.Copy from %s to %s", k, wk)
		}
		a := c.st.abs(r)
		src, pos := a.f["src"].(*Term), a.f["pos"].(*Term)
		n := Sub(src.ln, pos)
		if k == "file" {
			// a file is read to its end, or fails anywhere before
			return c.choose("copied", func(c *ectx, all bool) []Outcome {
				if all {
					return c.copyAll(r, w, n, true)
				}
				m := ISym(x.fresh("copied"), b0, maxLen)
				c.st.assume(x, Le(m, n))
				return c.hooked("file.fail", []Value{Lit("read")}, func(c *ectx) []Outcome { return c.copyAll(r, w, m, false) })
			})
		}
		return c.copyAll(r, w, n, false)
	}
	// bytes.Buffer made by NewBuffer: its content; slices handed out by Bytes are copies (nothing
	// verified here keeps one across a later write)
	E["bytes.NewBuffer"] = func(c *ectx) []Outcome {
		return c.ret(Ptr{obj: c.x.newAbs(c.st, "buffer", map[string]Value{"data": c.bytes(0)}).obj})
	}
	for _, m := range []string{"Reset", "Bytes", "Len", "String", "Write", "WriteString", "WriteByte", "Grow"} {
		m := m
		f := func(c *ectx) []Outcome {
			if _, k := c.x.ghostKind(c.st, c.args[0]); k != "buffer" {
				return c.inline()
			}
			return c.x.absMethod(c.st, c.args[0], m, c.args[1:], nil, c.pos, c.depth)
		}
		E["(*bytes.Buffer)."+m] = f
		E["(*strings.Builder)."+m] = f
	}
	// read everything: a copy into a buffer
	E["io.ReadAll"] = func(c *ectx) []Outcome {
		b := c.x.newAbs(c.st, "buffer", map[string]Value{"data": Empty})
		c2 := *c
		c2.args = []Value{Ptr{obj: b.obj}, c.args[0]}
		var r []Outcome
		for _, o := range E["io.Copy"](&c2) {
			t, ok := o.ret.(Tuple)
			if o.kind != kRet || !ok {
				r = append(r, o)
				continue
			}
			r = append(r, retS(o.st, bytesObj(c.x, o.st, c.name, o.st.norm(o.st.abs(b).f["data"].(*Term))), t[1]))
		}
		return r
	}
	E["io/ioutil.ReadAll"] = E["io.ReadAll"]
	E["io.WriteString"] = func(c *ectx) []Outcome {
		if _, k := c.x.ghostKind(c.st, c.args[0]); k == "" {
			return nil
		}
		return c.x.absMethod(c.st, c.args[0], "Write", []Value{c.mkBytes(c.bytes(1))}, nil, c.pos, c.depth)
	}
	join := func(c *ectx) []Outcome {
		vs := c.variadic(0)
		if vs == nil {
			return nil
		}
		var ts []*Term
		for i, v := range vs {
			if i > 0 {
				ts = append(ts, c.bytes(1))
			}
			switch y := v.(type) {
			case *Term:
				ts = append(ts, y)
			case Slice:
				ts = append(ts, c.x.content(c.st, y))
			default:
				return nil
			}
		}
		if c.name == "strings.Join" {
			return c.ret(c.st.norm(Cat(ts...)))
		}
		return c.ret(c.mkBytes(c.st.norm(Cat(ts...))))
	}
	E["strings.Join"] = join
	E["bytes.Join"] = join
	rep := func(c *ectx) []Outcome {
		b, n := c.bytes(0), c.term(1)
		var t *Term
		if k, ok := n.ConstI(); ok && k >= 0 && k < 64 {
			var ts []*Term
			for ; k > 0; k-- {
				ts = append(ts, b)
			}
			t = Cat(ts...)
		} else if b.ln.isK(1) {
			c.must("negative repeat count", Le(Int(0), n))
			t = QRep(At(b, Int(0)), n)
		} else {
			return nil
		}
		if c.name == "strings.Repeat" {
			return c.ret(t)
		}
		return c.ret(c.mkBytes(t))
	}
	E["strings.Repeat"] = rep
	E["bytes.Repeat"] = rep
	E["io.CopyN"] = func(c *ectx) []Outcome {
		x := c.x
		w, wk := x.ghostKind(c.st, c.args[0])
		r, k := x.ghostKind(c.st, c.args[1])
		if (k != "reader" && k != "file") || wk != "buffer" {
			unsup("io.CopyN from %s to %s", k, wk)
		}
		want := c.term(2)
		return c.fork(Le(want, Int(0)), func(c *ectx, z bool) []Outcome {
			if z {
				return c.ret(Int(0), nilErr)
			}
			a := c.st.abs(r)
			src, pos := a.f["src"].(*Term), a.f["pos"].(*Term)
			end := a.f["end"].(*Term)
			avail := Sub(src.ln, pos)
			take := func(c *ectx, n *Term) {
				d := x.slice(c.st, c.st.norm(src), pos, n, true)
				x.absSet(c.st, w, "data", Cat(c.st.abs(w).f["data"].(*Term), d))
				x.absSet(c.st, r, "pos", Add(pos, n))
			}
			return c.fork(Le(want, avail), func(c *ectx, enough bool) []Outcome {
				if enough {
					take(c, want)
					return c.hooked("read", []Value{want, nilErr}, func(c *ectx) []Outcome { return c.ret(want, nilErr) })
				}
				return c.fork(Eq(avail, Int(0)), func(c *ectx, none bool) []Outcome {
					n := avail
					if none {
						n = Int(0)
					}
					take(c, n)
					e := errIface(end)
					return c.hooked("read", []Value{n, e}, func(c *ectx) []Outcome { return c.ret(n, e) })
				})
			})
		})
	}
	E["bytes.NewReader"] = func(c *ectx) []Outcome {
		// modelled as a ghost reader
		return c.ret(Ptr{obj: c.x.newAbs(c.st, "reader", map[string]Value{"src": c.bytes(0), "pos": Int(0), "end": c.x.sentinelID("io.EOF")}).obj})
	}

	// ---- errors, formatting
	E["errors.New"] = func(c *ectx) []Outcome {
		return c.ret(errIface(IApp("err", errLo, nil, Lit("errors.New@"+c.x.posStr(c.pos)))))
	}
	E["fmt.Errorf"] = func(c *ectx) []Outcome {
		f := c.bytes(0)
		if f.op == OLit {
			n := 0
			for i := 0; i+1 < len(f.name); i++ {
				if f.name[i] != '%' {
					continue
				}
				i++
				for i < len(f.name) && strings.IndexByte("+-# 0123456789.", f.name[i]) >= 0 {
					i++
				}
				if i >= len(f.name) || f.name[i] == '%' {
					continue
				}
				if f.name[i] == 'w' {
					vs := c.variadic(1)
					if n < len(vs) {
						if v, ok := vs[n].(Iface); ok && v.err != nil {
							return c.ret(errIface(IApp("errwrap", errLo, nil, v.err)))
						}
					}
				}
				n++
			}
		}
		return c.ret(errIface(IApp("err", errLo, nil, Lit("fmt.Errorf@"+c.x.posStr(c.pos)))))
	}
	E["errors.Is"] = func(c *ectx) []Outcome {
		a, ok1 := errID(c.args[0].(Iface))
		b, ok2 := errID(c.args[1].(Iface))
		if !ok1 || !ok2 {
			return c.ret(BSym(c.x.fresh("erris")))
		}
		return c.ret(errIs(a, b))
	}
	E["fmt.Sprintf"] = func(c *ectx) []Outcome {
		f := c.bytes(0)
		if f.op == OLit {
			if t := c.sprintf(f.name, c.variadic(1)); t != nil {
				return c.ret(t)
			}
		}
		return c.ret(QSym(c.x.fresh("sprintf"), ISym(c.x.fresh("len:sprintf"), b0, maxLen)))
	}
	E["fmt.Sprint"] = func(c *ectx) []Outcome {
		return c.ret(QSym(c.x.fresh("sprint"), ISym(c.x.fresh("len:sprint"), b0, maxLen)))
	}
	nop := func(c *ectx) []Outcome { return c.ret(ISym(c.x.fresh("n"), b0, maxLen), nilErr) }
	E["fmt.Printf"] = nop
	E["fmt.Println"] = nop
	E["fmt.Print"] = nop

	// ---- bytes and strings
	eq := func(c *ectx) []Outcome { return c.ret(c.x.simpBool(c.st, SeqEq(c.bytes(0), c.bytes(1)))) }
	E["bytes.Equal"] = eq
	E["slices.Equal"] = nil
	delete(E, "slices.Equal")
	E["bytes.Compare"] = func(c *ectx) []Outcome {
		a, b := c.bytes(0), c.bytes(1)
		e := c.x.simpBool(c.st, SeqEq(a, b))
		l := BApp("seqless", a, b)
		return c.ret(IIte(e, Int(0), IIte(l, Int(-1), Int(1))))
	}
	E["bytes.HasPrefix"] = func(c *ectx) []Outcome {
		x := c.x
		s, p := c.bytes(0), c.bytes(1)
		return c.fork(Le(p.ln, s.ln), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(False)
			}
			return c.ret(x.simpBool(c.st, SeqEq(x.slice(c.st, s, Int(0), p.ln, false), p)))
		})
	}
	E["strings.HasPrefix"] = E["bytes.HasPrefix"]
	E["bytes.HasSuffix"] = func(c *ectx) []Outcome {
		x := c.x
		s, p := c.bytes(0), c.bytes(1)
		return c.fork(Le(p.ln, s.ln), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return c.ret(False)
			}
			return c.ret(x.simpBool(c.st, SeqEq(x.slice(c.st, s, Sub(s.ln, p.ln), p.ln, false), p)))
		})
	}
	E["strings.HasSuffix"] = E["bytes.HasSuffix"]
	index := func(min *big.Int) externFn {
		return func(c *ectx) []Outcome {
			x := c.x
			s := c.bytes(0)
			var sub *Term
			if t, ok := c.args[1].(*Term); ok && t.sort == SInt {
				sub = t
			} else {
				sub = c.bytes(1)
			}
			if chars, ok := c.indexChars(sub); ok {
				if r, ok := x.indexOf(c.st, s, chars); ok {
					return c.ret(r)
				}
			}
			r := IApp("index:"+c.fn.Name(), big.NewInt(-1), maxLen, s, sub)
			need := Int(1)
			if sub.sort == SSeq && !strings.Contains(c.fn.Name(), "Any") {
				need = sub.ln
			}
			return c.fork(Le(Int(0), r), func(c *ectx, found bool) []Outcome {
				if !found {
					c.st.assume(x, Eq(r, Int(-1)))
					return c.ret(Int(-1))
				}
				c.st.assume(x, Le(Add(r, need), s.ln))
				if sub.sort == SSeq && !strings.Contains(c.fn.Name(), "Any") {
					c.st.assume(x, SeqEq(QSub(s, r, sub.ln), sub))
				} else if sub.sort == SInt {
					c.st.assume(x, Eq(At(s, r), sub))
				} else if sub.op == OLit {
					var cs []*Term
					for i := 0; i < len(sub.name); i++ {
						cs = append(cs, Eq(At(s, r), Int(int64(sub.name[i]))))
					}
					c.st.assume(x, Or(cs...))
				}
				return c.ret(r)
			})
		}
	}
	for _, n := range []string{"Index", "IndexAny", "IndexByte", "LastIndex", "LastIndexByte"} {
		E["bytes."+n] = index(nil)
		E["strings."+n] = index(nil)
		E["internal/stringslite."+n] = index(nil)
	}
	contains := func(c *ectx) []Outcome {
		x := c.x
		s, sub := c.bytes(0), c.bytes(1)
		s = c.st.norm(s)
		if sub.op != OLit {
			return c.ret(BApp("contains", s, sub))
		}
		if len(sub.name) == 1 {
			if r, ok := x.indexOf(c.st, s, sub.name); ok {
				return c.ret(Le(Int(0), r))
			}
		}
		if s.op == OSub && isQApp(s.args[0], "yaml") && sub.name == "\n" && len(s.args[0].args) > 3 {
			// two or more lines
			if y := s.args[0]; s.args[1] == Int(0) && s.ln == AddK(y.ln, -1) {
				return c.ret(True)
			}
		}
		for _, g := range segs(s) {
			if g.op == OLit && strings.Contains(g.name, sub.name) {
				return c.ret(True)
			}
		}
		return c.fork(BApp("contains", s, sub), func(c *ectx, yes bool) []Outcome {
			if !yes {
				if sub.name == "\n" {
					c.st.assume(x, BApp("nonewline", s))
				}
				return c.ret(False)
			}
			c.st.assume(x, Le(sub.ln, s.ln))
			return c.ret(True)
		})
	}
	E["strings.Contains"] = contains
	E["bytes.Contains"] = contains
	trim := func(c *ectx) []Outcome {
		x := c.x
		s, isStr := c.args[0].(*Term)
		if isStr {
			s = c.st.norm(s)
		} else {
			s = c.bytes(0)
		}
		l := IApp("trimL", b0, maxLen, s)
		n := IApp("trimN", b0, maxLen, s)
		if isQApp(s, "yaml") && len(s.args) > 1 {
			// from the first key to the end of the last value
			l, n = Int(0), AddK(s.ln, -1)
		}
		if l2, n2, ok := x.trimOf(c.st, s); ok {
			l, n = l2, n2
			if isStr {
				return c.ret(x.slice(c.st, s, l, n, true))
			}
		}
		c.st.assume(x, Le(Add(l, n), s.ln))
		if isStr {
			return c.ret(QSub(s, l, n))
		}
		sl := c.args[0].(Slice)
		return c.fork(Eq(n, Int(0)), func(c *ectx, z bool) []Outcome {
			if z {
				return c.ret(nilSlice())
			}
			return c.ret(Slice{obj: sl.obj, path: sl.path, off: Add(sl.off, l), ln: n, cap_: Sub(sl.cap_, l), isnil: False})
		})
	}
	E["bytes.TrimSpace"] = trim
	E["strings.TrimSpace"] = trim
	E["strings.ToLower"] = func(c *ectx) []Outcome {
		s := c.bytes(0)
		return c.ret(QApp("tolower", IApp("tolowerlen", b0, maxLen, s), s))
	}
	clone := func(c *ectx) []Outcome {
		s := c.args[0].(Slice)
		return c.fork(s.isnil, func(c *ectx, n bool) []Outcome {
			if n {
				return c.ret(nilSlice())
			}
			return c.ret(c.mkBytes(c.x.content(c.st, s)))
		})
	}
	E["bytes.Clone"] = clone

	// ---- base64
	E["(*encoding/base64.Encoding).EncodeToString"] = func(c *ectx) []Outcome {
		return c.ret(b64Enc(c.b64(0), c.bytes(1)))
	}
	E["(*encoding/base64.Encoding).DecodeString"] = func(c *ectx) []Outcome {
		enc := c.b64(0)
		s := c.bytes(1)
		return c.fork(b64OK(enc, s), func(c *ectx, ok bool) []Outcome {
			if !ok {
				n := ISym(c.x.fresh("b64part"), b0, maxLen)
				return c.ret(c.mkBytes(QSym(c.x.fresh("b64part"), n)), c.err("corrupt"))
			}
			d := b64Dec(enc, c.st.norm(s))
			c.st.assume(c.x, Le(d.ln, s.ln))
			return c.ret(c.mkBytes(d), nilErr)
		})
	}

	// ---- regexp, sync
	E["regexp.MustCompile"] = func(c *ectx) []Outcome {
		return c.ret(Ptr{obj: c.x.newAbs(c.st, "regexp", map[string]Value{"re": c.bytes(0)}).obj})
	}
	E["math/big.NewInt"] = func(c *ectx) []Outcome {
		return c.ret(Ptr{obj: c.x.newAbs(c.st, "bigint", map[string]Value{"v": c.term(0)}).obj})
	}
	for _, op := range []string{"Add", "Sub", "Mul"} {
		op := op
		E["(*math/big.Int)."+op] = func(c *ectx) []Outcome {
			r, _ := ghostOf(c.args[0])
			a, b := c.big(1), c.big(2)
			var v *Term
			switch op {
			case "Add":
				v = Add(a, b)
			case "Sub":
				v = Sub(a, b)
			case "Mul":
				v = Mul(a, b)
			}
			c.setBig(r, v)
			return c.ret(c.args[0])
		}
	}
	E["(*math/big.Int).Mod"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		m, ok := c.big(2).Const()
		if !ok {
			unsup("big.Int modulus")
		}
		c.setBig(r, bigMod(c.big(1), m))
		return c.ret(c.args[0])
	}
	E["(*math/big.Int).ModInverse"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		m, ok := c.big(2).Const()
		if !ok {
			unsup("big.Int modulus")
		}
		c.setBig(r, modInv(c.big(1), m))
		return c.ret(c.args[0])
	}
	E["(*math/big.Int).SetBytes"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		c.setBig(r, unBytes(c.bytes(1)))
		return c.ret(c.args[0])
	}
}

// n bytes of a reader into a writer; eof: and then the end, otherwise the reader's error
func (c *ectx) copyAll(r, w AbsRef, n *Term, eof bool) []Outcome {
	x := c.x
	a := c.st.abs(r)
	src, pos, end := a.f["src"].(*Term), a.f["pos"].(*Term), a.f["end"].(*Term)
	d := x.slice(c.st, c.st.norm(src), pos, n, true)
	x.absSet(c.st, r, "pos", Add(pos, n))
	s := c.mkBytes(d)
	var out []Outcome
	for _, o := range x.absMethod(c.st, w, "Write", []Value{s}, nil, c.pos, c.depth) {
		t := o.ret.(Tuple)
		c2 := *c
		c2.st = o.st
		we := t[1].(Iface)
		if we.err != nil {
			out = append(out, c2.ret(t[0], we)...)
			continue
		}
		if eof {
			out = append(out, c2.ret(n, nilErr)...)
			continue
		}
		out = append(out, c2.fork(Eq(end, x.sentinelID("io.EOF")), func(c *ectx, eof bool) []Outcome {
			if eof {
				return c.ret(n, nilErr)
			}
			return c.ret(n, errIface(end))
		})...)
	}
	return out
}

// a search for a character out of a known set
func (c *ectx) indexChars(sub *Term) (string, bool) {
	n := c.fn.Name()
	if strings.HasPrefix(n, "Last") {
		return "", false
	}
	if k, ok := sub.ConstI(); ok && sub.sort == SInt {
		return string([]byte{byte(k)}), true
	}
	if sub.op == OLit && (strings.Contains(n, "Any") || len(sub.name) == 1) {
		return sub.name, true
	}
	return "", false
}

func (c *ectx) big(i int) *Term {
	r, k := c.x.ghostKind(c.st, c.args[i])
	if k == "opaque:math/big.Int" {
		return Int(0)
	}
	if k != "bigint" {
		unsup("big.Int value is %s", k)
	}
	return c.st.abs(r).f["v"].(*Term)
}

func (c *ectx) setBig(r AbsRef, v *Term) {
	o := c.st.objs[r.obj]
	c.st.objs[r.obj] = &Obj{id: o.id, name: o.name, typ: o.typ, val: &Abs{kind: "bigint", f: map[string]Value{"v": v}}}
	c.x.wrote(c.st, r.obj, []Sel{{f: -1}}, "v")
}

func (c *ectx) b64(i int) *Term {
	r, k := c.x.ghostKind(c.st, c.args[i])
	if k != "base64" {
		unsup("base64 encoding %s", k)
	}
	return c.st.abs(r).f["enc"].(*Term)
}

func errIs(a, b *Term) *Term {
	if a.op == OIApp && a.name == "errwrap" {
		return Or(Eq(a, b), errIs(a.args[0], b))
	}
	if a.op == OIte {
		return Or(And(a.args[0], errIs(a.args[1], b)), And(Not(a.args[0]), errIs(a.args[2], b)))
	}
	if _, ok := a.Const(); ok {
		return Eq(a, b)
	}
	if a.op == OIApp && a.name == "err" {
		return Eq(a, b)
	}
	return Or(Eq(a, b), BApp("erris", a, b))
}

// exact result for formats with only literal text, %s of strings/bytes and %d of constants
func (c *ectx) sprintf(f string, vs []Value) *Term {
	var r []*Term
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = append(r, Lit(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			r = append(r, Lit("%"))
		case 's', 'v':
			if n >= len(vs) {
				return nil
			}
			v, ok := vs[n].(Iface)
			if !ok {
				return nil
			}
			t, ok := v.v.(*Term)
			if !ok || t.sort != SSeq {
				return nil
			}
			r = append(r, c.st.norm(t))
			n++
		default:
			return nil
		}
	}
	return Cat(r...)
}
