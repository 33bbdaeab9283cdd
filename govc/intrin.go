package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics of the specification language: functions whose name is v followed by an upper
// case letter, declared in a file zz_verif_*.go.

func isIntrinsic(fn *ssa.Function) bool {
	n := fn.Name()
	return len(n) > 1 && n[0] == 'v' && n[1] >= 'A' && n[1] <= 'Z' && fn.Signature.Recv() == nil && intrinsics[n] != nil &&
		fn.Parent() == nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func intrinsic(c *ectx) []Outcome { return intrinsics[c.fn.Name()](c) }

var intrinsics = map[string]externFn{}

func (c *ectx) lit(i int) string {
	t := c.term(i)
	if t.op != OLit {
		unsup("%s: literal argument expected, have %s", c.name, t)
	}
	return t.name
}

func (c *ectx) k(i int) int64 {
	n, ok := c.term(i).ConstI()
	if !ok {
		unsup("%s: constant argument expected", c.name)
	}
	return n
}

func isRand(t *Term) bool {
	return t.op == OQSym && strings.HasPrefix(t.name, "rand:") || t.op == OQApp && strings.HasPrefix(t.name, "sk:rand:")
}

func init() {
	I := intrinsics
	I["vAssume"] = func(c *ectx) []Outcome {
		c.st.assume(c.x, c.term(0))
		if !c.x.feasible(c.st) {
			return []Outcome{}
		}
		return c.ret()
	}
	I["vAssert"] = func(c *ectx) []Outcome {
		if !c.x.check(c.st, "assert", c.x.root, c.x.posStr(c.pos), c.lit(0), c.term(1)) {
			return []Outcome{}
		}
		return c.ret()
	}
	I["vCover"] = func(c *ectx) []Outcome {
		if c.x.scout == 0 {
			c.x.covers[c.lit(0)] = true
		}
		return c.ret()
	}
	// loops ended by the data are never unrolled
	I["vSummarise"] = func(c *ectx) []Outcome { c.x.summary = true; return c.ret() }
	// varints stand for themselves; they are opened where their bytes are read
	I["vVarints"] = func(c *ectx) []Outcome { c.x.varints = true; return c.ret() }
	I["vVarint"] = func(c *ectx) []Outcome { return c.ret(varint(c.term(0))) }
	I["vStop"] = func(c *ectx) []Outcome { return []Outcome{} }
	I["vStr"] = func(c *ectx) []Outcome {
		n := c.lit(0)
		return c.ret(QSym(n, ISym("len:"+n, b0, maxLen)))
	}
	I["vAnd"] = func(c *ectx) []Outcome { return c.ret(And(c.term(0), c.term(1))) }
	I["vOr"] = func(c *ectx) []Outcome { return c.ret(Or(c.term(0), c.term(1))) }
	I["vNot"] = func(c *ectx) []Outcome { return c.ret(Not(c.term(0))) }
	I["vEq"] = func(c *ectx) []Outcome { return c.ret(SeqEq(c.bytes(0), c.bytes(1))) }
	I["vStrs"] = func(c *ectx) []Outcome {
		return c.ret(c.x.sym(c.st, c.lit(0), types.NewSlice(types.Typ[types.String])))
	}
	// a list of any length: the result type says of what
	I["vPublicKeys"] = func(c *ectx) []Outcome {
		return c.ret(c.x.sym(c.st, c.lit(0), c.fn.Signature.Results().At(0).Type()))
	}
	// is what p points to an element of the list of that name
	I["vIsElem"] = func(c *ectx) []Outcome {
		p, ok := c.args[1].(Ptr)
		if !ok || len(p.path) > 0 {
			return c.ret(False)
		}
		e := c.x.elemOf[p.obj]
		if e == nil {
			return c.ret(False)
		}
		for e.op == OSub {
			e = e.args[0]
		}
		return c.ret(Bool(e.op == OQSym && e.name == "list:"+c.lit(0)))
	}
	I["vFun"] = func(c *ectx) []Outcome {
		a := c.st.norm(c.bytes(1))
		return c.ret(QApp("fun:"+c.lit(0), IApp("len:fun:"+c.lit(0), b0, maxLen, a), a))
	}
	I["vStrN"] = func(c *ectx) []Outcome { return c.ret(QSym(c.lit(0), c.term(1))) }
	I["vFreshStr"] = func(c *ectx) []Outcome {
		n := c.x.fresh(c.lit(0))
		return c.ret(QSym(n, ISym("len:"+n, b0, maxLen)))
	}
	I["vFreshInt"] = func(c *ectx) []Outcome { return c.ret(ISym(c.x.fresh(c.lit(0)), b0, maxLen)) }
	I["vFreshBool"] = func(c *ectx) []Outcome { return c.ret(BSym(c.x.fresh(c.lit(0)))) }
	I["vBytes"] = func(c *ectx) []Outcome {
		n := c.lit(0)
		return c.ret(c.mkBytes(QSym(n, ISym("len:"+n, b0, maxLen))))
	}
	I["vBytesOf"] = func(c *ectx) []Outcome { return c.ret(c.mkBytes(c.bytes(0))) }
	I["vInt"] = func(c *ectx) []Outcome { // 0 <= v < 2^48
		return c.ret(ISym(c.lit(0), b0, maxLen))
	}
	I["vU64"] = func(c *ectx) []Outcome { return c.ret(symInt(c.lit(0), types.Typ[types.Uint64])) }
	I["vU32"] = func(c *ectx) []Outcome { return c.ret(symInt(c.lit(0), types.Typ[types.Uint32])) }
	I["vBool"] = func(c *ectx) []Outcome { return c.ret(BSym(c.lit(0))) }
	I["vErr"] = func(c *ectx) []Outcome { return c.ret(errIface(ISym("err:"+c.lit(0), b0, nil))) }
	I["vReader"] = func(c *ectx) []Outcome {
		e, ok := errID(c.args[1].(Iface))
		if !ok {
			unsup("vReader end")
		}
		return c.ret(Iface{v: c.x.newAbs(c.st, "reader", map[string]Value{"src": c.bytes(0), "pos": Int(0), "end": e})})
	}
	I["vReaderPos"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		return c.ret(c.st.abs(r).f["pos"])
	}
	I["vWriter"] = func(c *ectx) []Outcome { return c.ret(Iface{v: c.x.newWriter(c.st, c.lit(0))}) }
	I["vOut"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		return c.ret(c.st.norm(c.st.abs(r).f["log"].(*Term)))
	}
	I["vClosed"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		return c.ret(c.st.abs(r).f["closed"])
	}
	I["vFailed"] = func(c *ectx) []Outcome {
		r, _ := ghostOf(c.args[0])
		return c.ret(c.st.abs(r).f["failed"])
	}
	I["vHook"] = func(c *ectx) []Outcome {
		h := map[string]Value{}
		for k, v := range c.st.hooks {
			h[k] = v
		}
		v := c.args[1]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		h[c.lit(0)] = v
		c.st.hooks = h
		return c.ret()
	}
	I["vUnhook"] = func(c *ectx) []Outcome {
		h := map[string]Value{}
		for k, v := range c.st.hooks {
			if k != c.lit(0) {
				h[k] = v
			}
		}
		c.st.hooks = h
		return c.ret()
	}
	// pure functions
	I["vSha256"] = func(c *ectx) []Outcome { return c.ret(hashTerm("sha256", c.bytes(0))) }
	I["vSha512"] = func(c *ectx) []Outcome { return c.ret(hashTerm("sha512", c.bytes(0))) }
	I["vHmac256"] = func(c *ectx) []Outcome { return c.ret(hmacTerm("sha256", c.bytes(0), c.bytes(1))) }
	I["vHkdf512"] = func(c *ectx) []Outcome {
		return c.ret(QSub(hkdfTerm("sha512", c.bytes(0), c.bytes(1), c.bytes(2)), Int(0), c.term(3)))
	}
	I["vSeal"] = func(c *ectx) []Outcome { return c.ret(gcmSeal(c.bytes(0), c.bytes(1), c.bytes(2), c.bytes(3))) }
	I["vOpen"] = func(c *ectx) []Outcome { return c.ret(gcmOpen(c.bytes(0), c.bytes(1), c.bytes(2), c.bytes(3))) }
	I["vOpenOK"] = func(c *ectx) []Outcome { return c.ret(openOK(c.bytes(0), c.bytes(1), c.bytes(2), c.bytes(3))) }
	I["vX25519"] = func(c *ectx) []Outcome { return c.ret(x25519(c.bytes(0), c.bytes(1))) }
	I["vEdPub"] = func(c *ectx) []Outcome { return c.ret(edPub(c.bytes(0))) }
	I["vEdSign"] = func(c *ectx) []Outcome { return c.ret(edSign(c.bytes(0), c.bytes(1), c.bytes(2))) }
	I["vEdVerify"] = func(c *ectx) []Outcome { return c.ret(edVerify(c.bytes(0), c.bytes(1), c.bytes(2))) }
	I["vCurvePK"] = func(c *ectx) []Outcome { return c.ret(curvePK(c.bytes(0))) }
	I["vClamp"] = func(c *ectx) []Outcome { return c.ret(xclamp(c.bytes(0))) }
	I["vScrypt"] = func(c *ectx) []Outcome {
		return c.ret(scryptTerm(c.bytes(0), c.bytes(1), c.term(2), c.term(3), c.term(4), c.term(5)))
	}
	I["vB64"] = func(c *ectx) []Outcome { return c.ret(b64Enc(Lit("std"), c.bytes(0))) }
	I["vBe32"] = func(c *ectx) []Outcome { return c.ret(QInt(c.term(0), 4, true)) }
	I["vNum32"] = func(c *ectx) []Outcome {
		return c.ret(c.x.inRange(c.st, Un(c.x.slice(c.st, c.bytes(0), c.term(1), Int(4), true), true)))
	}
	I["vBe64"] = func(c *ectx) []Outcome { return c.ret(QInt(c.term(0), 8, true)) }
	I["vRep"] = func(c *ectx) []Outcome { return c.ret(QRep(c.term(0), c.term(1))) }
	I["vSub"] = func(c *ectx) []Outcome { return c.ret(c.x.slice(c.st, c.bytes(0), c.term(1), c.term(2), false)) }
	I["vRange"] = func(c *ectx) []Outcome {
		v := ISym(c.x.fresh("idx"), b0, maxLen)
		s2 := c.st.clone()
		s2.assume(c.x, And(Le(c.term(0), v), Lt(v, c.term(1))))
		if !c.x.feasible(s2) {
			return c.ret(Empty)
		}
		o := c.x.callValue(s2, c.args[2], []Value{v}, c.pos, c.depth)
		if len(o) != 1 {
			unsup("vRange: case distinction in the body")
		}
		return c.ret(Big(o[0].ret.(*Term), v, c.term(0), c.term(1)))
	}
	// is s exactly one whole fresh random draw?
	I["vIsRand"] = func(c *ectx) []Outcome {
		s := c.st.norm(c.bytes(0))
		return c.ret(Bool(isRand(s) && s.ln == c.term(1)))
	}
	I["vDistinctRand"] = func(c *ectx) []Outcome {
		a, b := c.st.norm(c.bytes(0)), c.st.norm(c.bytes(1))
		return c.ret(Bool(isRand(a) && isRand(b) && a != b))
	}
	// does s mention t?
	I["vMentions"] = func(c *ectx) []Outcome {
		return c.ret(Bool(occurs(c.st.norm(c.bytes(1)), c.st.norm(c.bytes(0)))))
	}
	// does s reveal t, other than encrypted or through a one-way function?
	I["vLeaks"] = func(c *ectx) []Outcome {
		return c.ret(Bool(leaks(c.st.norm(c.bytes(1)), c.st.norm(c.bytes(0)))))
	}
	// fields of the struct other than the named ones take arbitrary values (state added later)
	I["vHavocRest"] = func(c *ectx) []Outcome {
		v := c.args[0]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		p, ok := v.(Ptr)
		if !ok {
			unsup("vHavocRest: pointer to a struct expected")
		}
		sv, ok := c.x.get(c.st, p.obj, p.path).(*StructV)
		if !ok {
			unsup("vHavocRest: pointer to a struct expected")
		}
		u := sv.typ.Underlying().(*types.Struct)
		known := "," + c.lit(1) + ","
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if strings.Contains(known, ","+f.Name()+",") {
				continue
			}
			nm := "rest:" + f.Name()
			var nv Value
			switch t := f.Type().Underlying().(type) {
			case *types.Basic:
				switch {
				case t.Info()&types.IsInteger != 0:
					nv = symInt(nm, f.Type())
				case t.Info()&types.IsBoolean != 0:
					nv = BSym(nm)
				case t.Info()&types.IsString != 0:
					nv = QSym(nm, ISym("len:"+nm, b0, maxLen))
				}
			case *types.Slice:
				if isByte(t.Elem()) {
					nv = c.mkBytes(QSym(nm, ISym("len:"+nm, b0, maxLen)))
				}
			}
			if nv != nil {
				c.x.put(c.st, p.obj, append(append([]Sel{}, p.path...), Sel{f: i}), nv)
			}
		}
		return c.ret()
	}
	I["vErrIs"] = func(c *ectx) []Outcome {
		a, ok1 := errID(c.args[0].(Iface))
		b, ok2 := errID(c.args[1].(Iface))
		if !ok1 || !ok2 {
			unsup("vErrIs")
		}
		return c.ret(errIs(a, b))
	}
	I["vDump"] = func(c *ectx) []Outcome {
		if c.x.scout == 0 {
			println("DUMP", c.lit(0), c.bytes(1).String())
		}
		return c.ret()
	}
	I["vDumpInt"] = func(c *ectx) []Outcome {
		if c.x.scout == 0 {
			println("DUMP", c.lit(0), c.term(1).String())
		}
		return c.ret()
	}
	I["vDumpPC"] = func(c *ectx) []Outcome {
		if c.x.scout == 0 {
			println("PC", c.lit(0))
			for _, p := range c.st.pc.list() {
				println("    ", p.t.String())
			}
		}
		return c.ret()
	}
}

func leaks(t, s *Term) bool {
	if s == t {
		return true
	}
	if s.op == OQApp {
		switch {
		case s.name == "seal":
			return leaks(t, s.args[4])
		case strings.HasPrefix(s.name, "hkdf-"), strings.HasPrefix(s.name, "hmac-"), strings.HasPrefix(s.name, "sha"),
			s.name == "edsign", s.name == "edpub", s.name == "scrypt", s.name == "xpub", s.name == "dh":
			return false
		}
	}
	for _, a := range s.args {
		if leaks(t, a) {
			return true
		}
	}
	return false
}

// a remainder of a number known to be smaller than the divisor
func (x *Exec) inRange(st *State, t *Term) *Term {
	if t.op == OMod && t.k != nil {
		if u := t.args[0]; x.prove(st, And(Le(Int(0), u), Lt(u, BigI(t.k)))) {
			return u
		}
	}
	return t
}
