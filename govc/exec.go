package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec symbolically executes SSA and generates proof obligations.
type Exec struct {
	prog   *ssa.Program
	s      *Solver
	nobj   int
	wlogs  []*wlog
	elemOf map[int]*Term
	gobj   map[*ssa.Global]int
	tol    int // >0: in the search for a loop invariant, paths outside the subset are skipped
	scout  int // >0: exploring for loop invariants; obligations are not recorded

	obls          map[string]*Obl
	order         []string
	panicsOn      bool
	liberal       bool           // writers may take less than they were given without an error
	funcs         map[string]int // functions symbolically executed (inlined or verified)
	usedContracts map[string]int
	contracts     map[string]*Contract
	goContracts   map[string]*ssa.Function // contracts written as Go functions, by the name of the function they stand for
	noContract    map[string]bool
	coarse        bool
	summary       bool
	varints       bool // varints as opaque terms
	live          map[*ssa.BasicBlock]map[ssa.Value]bool
	trusted       map[string]int // external models used
	assumed       map[string]int // assumptions used
	loops         map[string]int
	depth         int
	deadline      time.Time
	harness       *ssa.Package
	sentinel      map[string]*Term
	sizes         types.Sizes
	fset          *token.FileSet
	paths         int
	covers        map[string]bool
	root          string // name of the function or harness being verified
	opaquePk      map[string]bool
	curCall       *ssa.CallCommon
	stopAt        int
	lastRet       []Outcome
	failFast      bool
	loopInfo      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
}

type Obl struct {
	Name   string
	Kind   string
	Pos    string
	Desc   string
	N      int // instances proved
	By     map[string]int
	Failed bool
	Fail   string
	Model  string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	depth  int
}

type deferred struct {
	call *ssa.CallCommon
	fnv  Value
	args []Value
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Value, len(f.env)+8), depth: f.depth}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return n
}

const (
	kRet = iota
	kExit
)

type Outcome struct {
	st   *State
	ret  Value
	kind int
}

type item struct {
	st    *State
	fr    *Frame
	blk   *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	start bool // phis already evaluated; execution starts here
}

type deadPath struct{} // raised when the current path cannot continue

func (x *Exec) checkTime() {
	if time.Now().After(x.deadline) {
		panic(Unsup{"time budget exhausted"})
	}
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/opencoff/sigtool/", "")
	return s
}

// ---------- obligations

// check records the obligation that cond holds on st, then assumes it. Returns false when
// the path is dead afterwards.
func (x *Exec) check(st *State, kind, where, pos, desc string, cond *Term) bool {
	if x.scout > 0 {
		if cond == True {
			return true
		}
		st.assume(x, cond)
		return x.feasible(st)
	}
	key := where + "/" + kind
	if desc != "" {
		key += ": " + desc
	}
	o := x.obls[key]
	if o == nil {
		o = &Obl{Name: key, Kind: kind, Pos: pos, Desc: desc, By: map[string]int{}}
		x.obls[key] = o
		x.order = append(x.order, key)
	}
	if cond == True {
		o.N++
		o.By["simplifier"]++
		return true
	}
	c := x.simpBool(st, cond)
	if c == True {
		o.N++
		o.By["simplifier"]++
		return true
	}
	if r := pathGoal(st, cond); r != cond && x.prove(st, r) {
		o.N++
		o.By["z3-5"]++
		return true
	}
	if x.prove(st, c) {
		o.N++
		o.By["z3-5"]++
		return true
	}
	if !x.feasible(st) {
		o.N++
		o.By["z3-5"]++
		return false
	}
	if c2 := x.unmodGoal(st, c, 0); c2 != c && x.prove(st, c2) {
		o.N++
		o.By["z3-5"]++
		return true
	}
	if ins := st.instances(c); len(ins) > 0 {
		s2 := st.clone()
		for _, t := range ins {
			s2.assumeRaw(t)
		}
		if x.prove(s2, c) {
			o.N++
			o.By["z3-5"]++
			return true
		}
	}
	if o.Failed {
		// already failed once: don't spend more time on it
		st.assume(x, c)
		return x.feasible(st)
	}
	if ok, by := x.s.hard(st.pc, Not(c)); ok {
		o.N++
		o.By[by]++
		st.assume(x, c)
		return true
	}
	o.Failed = true
	var sb strings.Builder
	fmt.Fprintf(&sb, "obligation %s at %s not discharged\n  goal: %s\n", key, pos, c)
	l := st.pc.list()
	for i, p := range l {
		if len(l) > 60 && i < len(l)-60 {
			continue
		}
		fmt.Fprintf(&sb, "  path: %s\n", trunc(p.t.String(), 400))
	}
	o.Fail = sb.String()
	o.Model = Model(st.pc, Not(c))
	st.assume(x, c)
	return x.feasible(st)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// mustNot: a run-time panic unless cond holds
func (x *Exec) noPanic(st *State, fr *Frame, pos token.Pos, what string, cond *Term) {
	if cond == True {
		return
	}
	if x.panicsOn {
		if !x.check(st, "no-panic", fnName(fr.fn), x.posStr(pos), what, cond) {
			panic(deadPath{})
		}
		st.assume(x, cond)
		return
	}
	st.assume(x, cond)
	if !x.feasible(st) {
		panic(deadPath{})
	}
}

// ---------- calling

func (x *Exec) inlineable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if fn.Pkg == nil {
		// wrappers, instances, bound methods
		if fn.Origin() != nil && fn.Origin().Pkg != nil {
			return inlineFn[fn.Origin().Pkg.Pkg.Path()+"."+fn.Origin().Name()] || x.inlinePkg(fn.Origin().Pkg.Pkg.Path())
		}
		return true
	}
	return fn.Signature.Recv() == nil && inlineFn[fn.Pkg.Pkg.Path()+"."+fn.Name()] || x.inlinePkg(fn.Pkg.Pkg.Path())
}

// standard library functions whose own code is verified in place
var inlineFn = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`bytes.Cut bytes.CutPrefix bytes.CutSuffix bytes.TrimPrefix bytes.TrimSuffix
		strings.Cut strings.CutPrefix strings.CutSuffix strings.TrimPrefix strings.TrimSuffix
		internal/stringslite.Cut internal/stringslite.CutPrefix internal/stringslite.CutSuffix
		internal/stringslite.TrimPrefix internal/stringslite.TrimSuffix
		internal/stringslite.HasPrefix internal/stringslite.HasSuffix
		slices.Reverse slices.Contains slices.ContainsFunc slices.Index slices.IndexFunc slices.Clone slices.Concat slices.Grow
		io.LimitReader`) {
		inlineFn[n] = true
	}
}

func (x *Exec) inlinePkg(p string) bool {
	if x.opaquePk[p] {
		return false
	}
	switch p {
	case "github.com/opencoff/sigtool/sign", "github.com/opencoff/sigtool/src", "github.com/opencoff/sigtool/internal/pb",
		"github.com/planetscale/vtprotobuf/protohelpers", "encoding/binary", "internal/byteorder", "math/bits", "command-line-arguments",
		"golang.org/x/crypto/ed25519", "github.com/opencoff/go-mmap":
		return true
	}
	return false
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, pos token.Pos, depth int) []Outcome {
	x.checkTime()
	if depth > 60 {
		unsup("call depth")
	}
	if o, ok := x.callExtern(st, fn, args, pos, depth); ok {
		return o
	}
	if !x.inlineable(fn) {
		return x.unknownCall(st, fn.String(), fn.Signature, args, pos)
	}
	if !specFn(fn) {
		x.funcs[fnName(fn)]++
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, depth: depth}
	if len(args) != len(fn.Params) {
		unsup("arity of %s: %d args, %d params", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	out, exits, _ := x.runRegion([]item{{st: st, fr: fr, blk: fn.Blocks[0]}}, nil)
	if len(exits) > 0 {
		unsup("region exits at top level")
	}
	return out
}

// callValue calls a function value
func (x *Exec) callValue(st *State, f Value, args []Value, pos token.Pos, depth int) []Outcome {
	switch c := f.(type) {
	case FuncV:
		return x.callFn(st, c.fn, args, nil, pos, depth+1)
	case *Closure:
		return x.callFn(st, c.fn, args, c.binds, pos, depth+1)
	case BoundM:
		return x.absMethod(st, c.recv, c.name, args, nil, pos, depth+1)
	case AbsRef:
		return x.callAbsFunc(st, c, args, pos)
	case NilFunc:
		if x.panicsOn {
			x.check(st, "no-panic", "call", x.posStr(pos), "call of nil function", False)
		}
		return nil
	}
	unsup("call of %T", f)
	return nil
}

// symbolic callback: arbitrary results
func (x *Exec) callAbsFunc(st *State, r AbsRef, args []Value, pos token.Pos) []Outcome {
	a := st.abs(r)
	if tv, ok := a.f["sig"].(TypeV); ok {
		sig := tv.t.Underlying().(*types.Signature)
		return x.havocResults(st, "callback", sig, args)
	}
	unsup("call of abstract value %s", a.kind)
	return nil
}

func (x *Exec) havocResults(st *State, name string, sig *types.Signature, args []Value) []Outcome {
	var r Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r = append(r, x.sym(st, fmt.Sprintf("%s.r%d!%d", name, i, freshID()), t))
	}
	return []Outcome{{st: st, ret: retOf(r)}}
}

func retOf(r Tuple) Value {
	switch len(r) {
	case 0:
		return nil
	case 1:
		return r[0]
	}
	return r
}

// unknown external function: arbitrary results, mutable arguments havocked
func (x *Exec) unknownCall(st *State, name string, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	x.assumed["unmodelled external function: "+name]++
	for _, a := range args {
		x.havocArg(st, a)
	}
	return x.havocResults(st, name, sig, args)
}

func (x *Exec) havocArg(st *State, a Value) {
	switch v := a.(type) {
	case Slice:
		if v.obj != 0 {
			if t, ok := x.get(st, v.obj, v.path).(*Term); ok && t.sort == SSeq {
				x.writeBytes(st, v, Int(0), QSym(fmt.Sprintf("havoc!%d", freshID()), v.ln))
			}
		}
	case Ptr:
		if v.obj != 0 && len(v.path) == 0 {
			o := st.objs[v.obj]
			if _, isabs := o.val.(*Abs); isabs || o.ro || o.typ == nil {
				return
			}
			x.put(st, v.obj, nil, x.symCell(fmt.Sprintf("havoc!%d", freshID()), o.typ))
		}
	case Iface:
		if v.v != nil {
			x.havocArg(st, v.v)
		}
	}
}

// ---------- regions

func (x *Exec) runRegion(items []item, L *Loop) (outs []Outcome, exits, backs []item) {
	work := append([]item(nil), items...)
	var held []item // at loops inside the region
	for len(work) > 0 || len(held) > 0 {
		if len(work) == 0 {
			// the first loop
			h := held[0].blk
			for _, it := range held {
				if it.blk.Index < h.Index {
					h = it.blk
				}
			}
			var now, later []item
			for _, it := range held {
				if it.blk == h {
					now = append(now, it)
				} else {
					later = append(later, it)
				}
			}
			held = later
			M := x.loopsOf(now[0].fr.fn)[h]
			for _, it := range x.mergeAll(now) {
				o, ex := x.enterLoop(M, it)
				outs = append(outs, o...)
				work = append(work, ex...)
			}
			continue
		}
		it := work[len(work)-1]
		work = work[:len(work)-1]
		x.checkTime()
		if !it.start && it.idx == 0 {
			if L != nil && it.blk == L.head && it.prev != nil && L.blocks[it.prev] {
				backs = append(backs, it)
				continue
			}
			if L != nil && !L.blocks[it.blk] {
				exits = append(exits, it)
				continue
			}
			if M := x.loopsOf(it.fr.fn)[it.blk]; M != nil && M != L {
				if x.coarse {
					x.evalPhis(&it)
					held = append(held, it)
					continue
				}
				o, ex := x.runLoop(M, it)
				outs = append(outs, o...)
				work = append(work, x.joinExits(L, ex)...)
				continue
			}
			x.evalPhis(&it)
		}
		it.start = false
		o, succ := x.runBlock(it)
		outs = append(outs, o...)
		for i := len(succ) - 1; i >= 0; i-- {
			work = append(work, succ[i])
		}
	}
	return
}

func (x *Exec) evalPhis(it *item) {
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for i, pr := range it.blk.Preds {
			if pr == it.prev {
				k = i
				break
			}
		}
		if k < 0 {
			unsup("phi without predecessor")
		}
		phis = append(phis, p)
		vals = append(vals, x.val(it.st, it.fr, p.Edges[k]))
	}
	for i, p := range phis {
		it.fr.env[p] = vals[i]
	}
}

// runBlock executes the rest of a block, returning finished outcomes and successor items
func (x *Exec) runBlock(it item) (outs []Outcome, succ []item) {
	st, fr := it.st, it.fr
	for i := it.idx; i < len(it.blk.Instrs); i++ {
		in := it.blk.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var more []item
		var res []Outcome
		done, split := x.tryInstr(st, fr, in, it.blk, &res, &more)
		if split != nil {
			// case distinction: retry the instruction on both sides
			s2 := split.st.clone()
			st1 := split.st
			var r []item
			if split.st.pc.has(split.cond) || split.st.pc.has(Not(split.cond)) {
				unsup("case distinction on %s makes no progress @ %s", trunc(split.cond.String(), 200), x.posStr(in.Pos()))
			}
			st1.assumeRaw(split.cond)
			if x.feasible(st1) {
				r = append(r, item{st: st1, fr: fr.clone(), blk: it.blk, prev: it.prev, idx: i, start: true})
			}
			s2.assumeRaw(Not(split.cond))
			if x.feasible(s2) {
				r = append(r, item{st: s2, fr: fr.clone(), blk: it.blk, prev: it.prev, idx: i, start: true})
			}
			return outs, append(succ, r...)
		}
		if done {
			outs = append(outs, res...)
			succ = append(succ, more...)
			return
		}
	}
	return
}

type splitAt struct {
	st   *State
	cond *Term
}

func (x *Exec) tryInstr(st *State, fr *Frame, in ssa.Instruction, blk *ssa.BasicBlock, res *[]Outcome, more *[]item) (done bool, sp *splitAt) {
	var snap *State
	switch in.(type) {
	case *ssa.Call, *ssa.Store, *ssa.UnOp, *ssa.IndexAddr, *ssa.Slice, *ssa.Index, *ssa.RunDefers, *ssa.Convert, *ssa.Lookup, *ssa.MapUpdate, *ssa.BinOp, *ssa.If, *ssa.Next:
		snap = st.clone()
	}
	depth0, scout0, wl0 := x.depth, x.scout, len(x.wlogs)
	defer func() {
		if e := recover(); e != nil {
			switch y := e.(type) {
			case SplitReq:
				x.depth, x.scout, x.wlogs = depth0, scout0, x.wlogs[:wl0]
				if snap == nil {
					panic(Unsup{"case split at unsplittable instruction " + in.String()})
				}
				sp = &splitAt{snap, y.cond}
			case deadPath:
				x.depth, x.scout, x.wlogs = depth0, scout0, x.wlogs[:wl0]
				done = true
			case Unsup:
				if x.tol > 0 && !strings.Contains(y.msg, "time budget") {
					// looking for an invariant: this path contributes nothing
					x.depth, x.scout, x.wlogs = depth0, scout0, x.wlogs[:wl0]
					done = true
					return
				}
				if !strings.Contains(y.msg, " @") {
					y.msg += fmt.Sprintf(" @ %s (%s in %s)", x.posStr(in.Pos()), in, fnName(fr.fn))
				}
				panic(y)
			default:
				panic(e)
			}
		}
	}()
	done = x.instr(st, fr, in, blk, res, more)
	return
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Ptr{obj: x.globalObj(st, c)}
	case *ssa.Function:
		return FuncV{c}
	case *ssa.Builtin:
		return BuiltinV{c.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("unbound value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Lit(constant.StringVal(c.Value))
	case constant.Int:
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return BigI(b)
	case constant.Float:
		if isInt(c.Type()) {
			b, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if ok {
				return BigI(b)
			}
		}
		return ISym("float:"+c.Value.ExactString(), nil, nil)
	}
	unsup("constant %s", c)
	return nil
}

// ---------- integers

func typeRange(t types.Type) (*big.Int, *big.Int) {
	bits, sg := intBits(t)
	if sg {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), b1)
	}
	return b0, new(big.Int).Sub(pow2(bits), b1)
}

// wrap reduces a mathematical integer to the range of t
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	lo, hi := typeRange(t)
	vl, vh := Bounds(v)
	okl := vl != nil && vl.Cmp(lo) >= 0
	okh := vh != nil && vh.Cmp(hi) <= 0
	if !okl {
		okl = x.prove(st, Le(BigI(lo), v))
	}
	if !okh {
		okh = x.prove(st, Le(v, BigI(hi)))
	}
	if okl && okh {
		return v
	}
	bits, sg := intBits(t)
	m := pow2(bits)
	if !sg {
		return ModK(v, m)
	}
	h := pow2(bits - 1)
	return Sub(ModK(Add(v, BigI(h)), m), BigI(h))
}

func isPow2(k *big.Int) (uint, bool) {
	if k.Sign() <= 0 {
		return 0, false
	}
	n := k.BitLen() - 1
	if new(big.Int).Lsh(b1, uint(n)).Cmp(k) == 0 {
		return uint(n), true
	}
	return 0, false
}

func (x *Exec) unmodGoal(st *State, c *Term, d int) *Term {
	switch c.op {
	case OSeqEq:
		if r := x.alignEq(st, c.args[0], c.args[1]); r != c && d < 6 {
			return x.unmodGoal(st, r, d+1)
		}
	case OEq0:
		return Eq0(x.unmod(st, c.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(c.args))
		for i, a := range c.args {
			as[i] = x.unmodGoal(st, a, d)
		}
		return andor(c.op, as)
	case ONot:
		return Not(x.unmodGoal(st, c.args[0], d))
	}
	return c
}

// x mod k is x when the path condition bounds x
func (x *Exec) unmod(st *State, v *Term) *Term {
	_, as, cs := linview(v)
	for i, a := range as {
		if a.op == OMod && a.k.BitLen() > 16 {
			r := a.args[0]
			if x.prove(st, And(Le(Int(0), r), Lt(r, BigI(a.k)))) {
				return Add(v, MulK(Sub(r, a), cs[i]))
			}
		}
		if a.op == OMod && a.k.BitLen() <= 16 {
			if r := x.unmod(st, a.args[0]); r != a.args[0] {
				return x.unmod(st, Add(v, MulK(Sub(ModK(r, a.k), a), cs[i])))
			}
		}
		if a.op == ODiv {
			if r := x.unmod(st, a.args[0]); r != a.args[0] {
				return x.unmod(st, Add(v, MulK(Sub(DivK(r, a.k), a), cs[i])))
			}
		}
		if a.op == ODiv && a.k.BitLen() > 8 {
			r := a.args[0]
			if x.prove(st, And(Le(Int(0), r), Lt(r, BigI(a.k)))) {
				return x.unmod(st, Sub(v, MulK(a, cs[i])))
			}
		}
	}
	return v
}

func (x *Exec) intOp(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	r := x.intOp1(st, op, a, b, t)
	switch op {
	case token.ADD, token.OR, token.AND, token.SHR, token.QUO, token.REM:
		return x.unmod(st, r)
	}
	return r
}

func (x *Exec) intOp1(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	bits, sg := intBits(t)
	ac, aok := a.Const()
	bc, bok := b.Const()
	switch op {
	case token.ADD:
		return x.wrap(st, Add(a, b), t)
	case token.SUB:
		return x.wrap(st, Sub(a, b), t)
	case token.MUL:
		return x.wrap(st, Mul(a, b), t)
	case token.QUO, token.REM:
		if bok && bc.Sign() > 0 {
			if lo, _ := Bounds(a); (lo != nil && lo.Sign() >= 0) || x.prove(st, Le(Int(0), a)) {
				a = x.eliminate(st, a, bc)
				if op == token.QUO {
					return DivK(a, bc)
				}
				return ModK(a, bc)
			}
			// truncated division of a possibly negative number
			q := IIte(Le(Int(0), a), DivK(a, bc), Neg(DivK(Neg(a), bc)))
			if op == token.QUO {
				return q
			}
			return Sub(a, MulK(q, bc))
		}
		if aok && bok && bc.Sign() != 0 {
			if op == token.QUO {
				return BigI(new(big.Int).Quo(ac, bc))
			}
			return BigI(new(big.Int).Rem(ac, bc))
		}
		lo, hi := typeRange(t)
		if op == token.QUO {
			// a number already known to be the quotient
			if b.op == OISym || b.op == OIApp {
				for _, d := range []int64{0, 1, -1} {
					for _, n := range x.cofactors(st, b) {
						n = AddK(n, d)
						if r := Sub(a, Mul(n, b)); x.prove(st, And(Le(Int(0), r), Lt(r, b))) {
							return n
						}
					}
				}
			}
			q := ISymF("quo", lo, hi, a, b)
			// for positive operands: q*b <= a < q*b+b
			if x.prove(st, And(Le(Int(0), a), Le(Int(1), b))) {
				st.assume(x, And(Le(Int(0), q), Le(Mul(q, b), a), Lt(a, Add(Mul(q, b), b)), Le(q, a)))
			}
			return q
		}
		r := ISymF("rem", lo, hi, a, b)
		if x.prove(st, And(Le(Int(0), a), Le(Int(1), b))) {
			st.assume(x, And(Le(Int(0), r), Lt(r, b), Le(r, a)))
		}
		return r
	case token.SHL:
		if bok {
			if bc.Cmp(B(int64(bits))) >= 0 {
				return Int(0)
			}
			return x.wrap(st, MulK(a, pow2(uint(bc.Int64()))), t)
		}
		lo, hi := typeRange(t)
		return ISymF("shl"+fmt.Sprint(bits), lo, hi, a, b)
	case token.SHR:
		if bok {
			if bc.Cmp(B(int64(bits))) >= 0 {
				if sg {
					return IIte(Lt(a, Int(0)), Int(-1), Int(0))
				}
				return Int(0)
			}
			return DivK(a, pow2(uint(bc.Int64())))
		}
		lo, hi := typeRange(t)
		return ISymF("shr"+fmt.Sprint(bits), lo, hi, a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitOp(st, op, a, b, t)
	}
	unsup("integer operator %s", op)
	return nil
}

func ISymF(name string, lo, hi *big.Int, args ...*Term) *Term { return IApp(name, lo, hi, args...) }

func (x *Exec) bitOp(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	bits, sg := intBits(t)
	ac, aok := a.Const()
	bc, bok := b.Const()
	lo, hi := typeRange(t)
	norm := func(k *big.Int) *big.Int {
		if k.Sign() < 0 {
			return new(big.Int).Add(k, pow2(bits))
		}
		return k
	}
	back := func(v *Term) *Term {
		if sg {
			return x.wrap(st, v, t)
		}
		return v
	}
	if aok && bok {
		p, q := norm(ac), norm(bc)
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(p, q)
		case token.OR:
			r.Or(p, q)
		case token.XOR:
			r.Xor(p, q)
		case token.AND_NOT:
			r.AndNot(p, q)
		}
		return back(BigI(r))
	}
	if aok && op != token.AND_NOT {
		a, b, bc, bok = b, a, ac, true
	}
	if op == token.AND_NOT && bok {
		m := new(big.Int).Sub(pow2(bits), b1)
		m.AndNot(m, norm(bc))
		return x.bitOp(st, token.AND, a, back(BigI(m)), t)
	}
	// byte tables
	if !sg && bits == 8 && bok && !(x.varints && op == token.AND && bc.Int64() == 127) {
		return byteTable(a, func(v int64) int64 {
			k := bc.Int64()
			switch op {
			case token.AND:
				return v & k
			case token.OR:
				return v | k
			}
			return v ^ k
		})
	}
	nonneg := func(t *Term) bool {
		if !sg {
			return true
		}
		l, _ := Bounds(t)
		return (l != nil && l.Sign() >= 0) || x.prove(st, Le(Int(0), t))
	}
	if bok && bc.Sign() >= 0 && nonneg(a) {
		k := bc
		switch op {
		case token.AND:
			if k.Sign() == 0 {
				return Int(0)
			}
			// mask of the form 2^n-1
			if n, ok := isPow2(new(big.Int).Add(k, b1)); ok {
				return ModK(a, pow2(n))
			}
			// single bit / contiguous mask: 2^n * (2^m - 1)
			tz := k.TrailingZeroBits()
			if n, ok := isPow2(new(big.Int).Add(new(big.Int).Rsh(k, tz), b1)); ok {
				return MulK(ModK(x.unmod(st, DivK(a, pow2(tz))), pow2(n)), pow2(tz))
			}
		case token.OR:
			if k.Sign() == 0 {
				return a
			}
			tz := k.TrailingZeroBits()
			if n, ok := isPow2(new(big.Int).Add(new(big.Int).Rsh(k, tz), b1)); ok {
				// set bits tz..tz+n-1
				if x.prove(st, Lt(a, BigI(pow2(tz)))) {
					return Add(a, BigI(k))
				}
				cur := MulK(ModK(DivK(a, pow2(tz)), pow2(n)), pow2(tz))
				return Add(Sub(a, cur), BigI(k))
			}
		case token.XOR:
			tz := k.TrailingZeroBits()
			if new(big.Int).Rsh(k, tz).Cmp(b1) == 0 {
				bit := ModK(DivK(a, pow2(tz)), B(2))
				return Add(a, BigI(k), Neg(MulK(bit, new(big.Int).Lsh(k, 1))))
			}
		}
	}
	if (op == token.OR || op == token.XOR) && nonneg(a) && nonneg(b) {
		// disjoint bits: low part below 2^n, other a multiple of 2^n
		for _, pq := range [][2]*Term{{a, b}, {b, a}} {
			p, q := pq[0], pq[1]
			_, ph := Bounds(p)
			if ph != nil {
				n := uint(ph.BitLen())
				if ModK(q, pow2(n)).isK(0) {
					return Add(p, q)
				}
			}
			k, _, cs := linview(q)
			g := new(big.Int).Set(k)
			for _, c := range cs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if tz := g.TrailingZeroBits(); tz > 0 && x.prove(st, Lt(p, BigI(pow2(tz)))) {
				return Add(p, q)
			}
		}
	}
	l2, h2 := lo, hi
	if nonneg(a) && nonneg(b) {
		_, ah := Bounds(a)
		_, bh := Bounds(b)
		l2 = b0
		if op == token.AND {
			if ah != nil && ah.Cmp(h2) < 0 {
				h2 = ah
			}
			if bh != nil && bh.Cmp(h2) < 0 {
				h2 = bh
			}
		} else if ah != nil && bh != nil && op != token.AND_NOT {
			n := ah.BitLen()
			if bh.BitLen() > n {
				n = bh.BitLen()
			}
			h2 = new(big.Int).Sub(pow2(uint(n)), b1)
			if h2.Cmp(hi) > 0 {
				h2 = hi
			}
		}
	}
	if a.id > b.id && op != token.AND_NOT {
		a, b = b, a
	}
	r := IApp("bit"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op]+fmt.Sprint(bits), l2, h2, a, b)
	if op == token.OR && l2.Sign() == 0 {
		// x|y == 0 iff both zero; x|y >= x, y
		st.assume(x, And(Le(a, r), Le(b, r), Le(r, Add(a, b))))
	}
	return r
}

// f applied to a byte-valued term
func byteTable(a *Term, f func(v int64) int64) *Term {
	if c, ok := a.ConstI(); ok {
		return Int(f(c))
	}
	tab := make([]byte, 256)
	id := true
	cst := true
	for i := range tab {
		tab[i] = byte(f(int64(i)))
		if int(tab[i]) != i {
			id = false
		}
		if tab[i] != tab[0] {
			cst = false
		}
	}
	if id {
		return a
	}
	if cst {
		return Int(int64(tab[0]))
	}
	return canonByte(IApp("bytefn:"+fmt.Sprintf("%x", tab), b0, B(255), a))
}

// ---------- instructions

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction, blk *ssa.BasicBlock, res *[]Outcome, more *[]item) bool {
	switch c := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := c.Type().Underlying().(*types.Pointer).Elem()
		nm := c.Comment
		if nm == "" {
			nm = c.Name()
		}
		if n := typeName(t); n == "bytes.Buffer" || n == "strings.Builder" {
			fr.env[c] = Ptr{obj: x.newAbs(st, "buffer", map[string]Value{"data": Empty}).obj}
			break
		}
		fr.env[c] = Ptr{obj: x.newObj(st, nm, t, x.zeroCell(t))}
	case *ssa.BinOp:
		fr.env[c] = x.binop(st, fr, c)
	case *ssa.UnOp:
		fr.env[c] = x.unop(st, fr, c)
	case *ssa.ChangeType:
		fr.env[c] = x.val(st, fr, c.X)
	case *ssa.ChangeInterface:
		fr.env[c] = x.val(st, fr, c.X)
	case *ssa.MakeInterface:
		fr.env[c] = x.makeIface(st, x.val(st, fr, c.X), c.X.Type())
	case *ssa.Convert:
		fr.env[c] = x.convert(st, fr, x.val(st, fr, c.X), c.X.Type(), c.Type(), c.Pos())
	case *ssa.MultiConvert:
		fr.env[c] = x.convert(st, fr, x.val(st, fr, c.X), c.X.Type(), c.Type(), c.Pos())
	case *ssa.Extract:
		t, ok := x.val(st, fr, c.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", x.val(st, fr, c.Tuple))
		}
		fr.env[c] = t[c.Index]
	case *ssa.FieldAddr:
		p := x.ptr(st, fr, x.val(st, fr, c.X), c.Pos(), "nil pointer dereference")
		fr.env[c] = Ptr{p.obj, append(append([]Sel(nil), p.path...), Sel{f: c.Field})}
	case *ssa.Field:
		s, ok := x.val(st, fr, c.X).(*StructV)
		if !ok {
			unsup("field of %T", x.val(st, fr, c.X))
		}
		if s.f[c.Field] == nil {
			id := x.newObj(st, "tmp", s.typ, s)
			fr.env[c] = x.get(st, id, []Sel{{f: c.Field}})
		} else {
			fr.env[c] = s.f[c.Field]
		}
	case *ssa.IndexAddr:
		x.indexAddr(st, fr, c)
	case *ssa.Index:
		iv := x.val(st, fr, c.Index).(*Term)
		switch v := x.val(st, fr, c.X).(type) {
		case *Term:
			x.noPanic(st, fr, c.Pos(), "index out of range", And(Le(Int(0), iv), Lt(iv, v.ln)))
			fr.env[c] = x.at(st, st.norm(v), iv)
		case *ArrV:
			id := x.newObj(st, "tmp", c.X.Type(), v)
			x.noPanic(st, fr, c.Pos(), "index out of range", And(Le(Int(0), iv), Lt(iv, Int(int64(len(v.elems))))))
			fr.env[c] = x.get(st, id, []Sel{{i: iv}})
		default:
			unsup("index of %T", v)
		}
	case *ssa.Slice:
		fr.env[c] = x.sliceOp(st, fr, c)
	case *ssa.SliceToArrayPointer:
		s := x.val(st, fr, c.X).(Slice)
		n := c.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.noPanic(st, fr, c.Pos(), "slice to array conversion", Le(Int(n), s.ln))
		unsup("slice to array pointer")
	case *ssa.Store:
		p := x.ptr(st, fr, x.val(st, fr, c.Addr), c.Pos(), "nil pointer dereference")
		x.put(st, p.obj, p.path, x.val(st, fr, c.Val))
	case *ssa.MakeSlice:
		ln := x.val(st, fr, c.Len).(*Term)
		cp := x.val(st, fr, c.Cap).(*Term)
		el := c.Type().Underlying().(*types.Slice).Elem()
		x.noPanic(st, fr, c.Pos(), "makeslice: length out of range", And(Le(Int(0), ln), Le(ln, cp), Le(cp, BigI(maxLen))))
		fr.env[c] = x.makeSlice(st, "make", el, ln, cp)
	case *ssa.MakeMap:
		fr.env[c] = MapV{x.newObj(st, "map", c.Type(), &MapC{})}
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, fr, c.Map), x.val(st, fr, c.Key), x.val(st, fr, c.Value))
	case *ssa.Lookup:
		fr.env[c] = x.lookup(st, fr, c)
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range c.Bindings {
			bs = append(bs, x.val(st, fr, b))
		}
		fr.env[c] = &Closure{fn: c.Fn.(*ssa.Function), binds: bs}
	case *ssa.Range:
		fr.env[c] = x.rangeOver(st, x.val(st, fr, c.X), c.X.Type())
	case *ssa.Next:
		fr.env[c] = x.next(st, fr, c)
	case *ssa.TypeAssert:
		fr.env[c] = x.typeAssert(st, fr, c)
	case *ssa.Defer:
		d := deferred{call: &c.Call, pos: c.Pos()}
		d.fnv, d.args = x.callParts(st, fr, &c.Call, c.Pos())
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			return false
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		i := instrIndex(blk, in)
		for _, o := range x.invokeParts(st, fr, d.call, d.fnv, d.args, d.pos) {
			if o.kind == kExit {
				*res = append(*res, o)
				continue
			}
			// run the remaining defers: re-execute this instruction
			*more = append(*more, item{st: o.st, fr: fr.clone(), blk: blk, idx: i, start: true})
		}
		return true
	case *ssa.Call:
		fnv, args := x.callParts(st, fr, &c.Call, c.Pos())
		outs := x.invokeParts(st, fr, &c.Call, fnv, args, c.Pos())
		if len(outs) == 1 && outs[0].kind == kRet && outs[0].st == st {
			fr.env[c] = outs[0].ret
			return false
		}
		i := instrIndex(blk, in)
		for _, o := range outs {
			if o.kind == kExit {
				*res = append(*res, o)
				continue
			}
			f2 := fr.clone()
			f2.env[c] = o.ret
			*more = append(*more, item{st: o.st, fr: f2, blk: blk, idx: i + 1, start: true})
		}
		return true
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("concurrency construct")
	case *ssa.Panic:
		if x.panicsOn {
			x.check(st, "no-panic", fnName(fr.fn), x.posStr(c.Pos()), "explicit panic", False)
		}
		return true
	case *ssa.Return:
		var r Tuple
		for _, v := range c.Results {
			r = append(r, x.val(st, fr, v))
		}
		*res = append(*res, Outcome{st: st, ret: retOf(r)})
		x.paths++
		return true
	case *ssa.Jump:
		*more = append(*more, item{st: st, fr: fr, blk: blk.Succs[0], prev: blk})
		return true
	case *ssa.If:
		cond := x.val(st, fr, c.Cond).(*Term)
		x.fork(st, cond, func(s2 *State, v bool) {
			f2 := fr
			if s2 != st {
				f2 = fr.clone()
			}
			k := 0
			if !v {
				k = 1
			}
			*more = append(*more, item{st: s2, fr: f2, blk: blk.Succs[k], prev: blk})
		})
		return true
	default:
		unsup("instruction %T", in)
	}
	return false
}

func instrIndex(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, y := range b.Instrs {
		if y == in {
			return i
		}
	}
	return -1
}

// value stored in a freshly allocated variable
func (x *Exec) zeroCell(t types.Type) Value {
	if u, ok := t.Underlying().(*types.Struct); ok {
		if n, ok := t.(*types.Named); ok && x.opaqueType(n) {
			return &Abs{kind: "opaque:" + n.String(), f: map[string]Value{}}
		}
		_ = u
	}
	return x.zero(t)
}

func (x *Exec) makeSlice(st *State, name string, el types.Type, ln, cp *Term) Slice {
	var v Value
	if isByte(el) {
		v = Zeros(cp)
	} else if n, ok := cp.ConstI(); ok && n <= 64 {
		a := &ArrV{typ: el}
		for i := int64(0); i < n; i++ {
			a.elems = append(a.elems, x.zero(el))
		}
		v = a
	} else {
		v = &ListV{typ: el, seq: QApp("zerolist:"+typeName(el), cp)}
	}
	id := x.newObj(st, name, types.NewSlice(el), v)
	return Slice{obj: id, off: Int(0), ln: ln, cap_: cp, isnil: False}
}

func (x *Exec) ptr(st *State, fr *Frame, v Value, pos token.Pos, what string) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		if r, ok := v.(AbsRef); ok {
			return Ptr{obj: r.obj}
		}
		unsup("pointer expected, have %T", v)
	}
	if p.obj == 0 {
		x.noPanic(st, fr, pos, what, False)
		panic(deadPath{})
	}
	return p
}

func (x *Exec) unop(st *State, fr *Frame, c *ssa.UnOp) Value {
	v := x.val(st, fr, c.X)
	switch c.Op {
	case token.MUL:
		p := x.ptr(st, fr, v, c.Pos(), "nil pointer dereference")
		if x.summary || x.varints {
			return x.owned(st, p, x.normV(st, x.load(st, p)))
		}
		return x.normV(st, x.load(st, p))
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		return x.wrap(st, Neg(v.(*Term)), c.Type())
	case token.XOR:
		// ^x
		_, hi := typeRange(c.Type())
		if _, sg := intBits(c.Type()); sg {
			return Sub(Int(-1), v.(*Term))
		}
		return Sub(BigI(hi), v.(*Term))
	}
	unsup("unary %s", c.Op)
	return nil
}

func (x *Exec) normV(st *State, v Value) Value {
	if t, ok := v.(*Term); ok && t.sort == SSeq {
		return st.norm(t)
	}
	return v
}

func (x *Exec) binop(st *State, fr *Frame, c *ssa.BinOp) Value {
	a, b := x.val(st, fr, c.X), x.val(st, fr, c.Y)
	switch c.Op {
	case token.EQL:
		return x.equal(st, a, b, c.X.Type())
	case token.NEQ:
		return Not(x.equal(st, a, b, c.X.Type()))
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operands of %s", c)
	}
	if at.sort == SSeq {
		switch c.Op {
		case token.ADD:
			return Cat(at, bt)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt := BApp("strless", at, bt)
			gt := BApp("strless", bt, at)
			switch c.Op {
			case token.LSS:
				return lt
			case token.GTR:
				return gt
			case token.LEQ:
				return Not(gt)
			}
			return Not(lt)
		}
	}
	if at.sort == SBool {
		switch c.Op {
		case token.AND, token.LAND:
			return And(at, bt)
		case token.OR, token.LOR:
			return Or(at, bt)
		}
	}
	switch c.Op {
	case token.LSS:
		return Lt(at, bt)
	case token.LEQ:
		return Le(at, bt)
	case token.GTR:
		return Lt(bt, at)
	case token.GEQ:
		return Le(bt, at)
	case token.QUO, token.REM:
		x.noPanic(st, fr, c.Pos(), "division by zero", Not(Eq(bt, Int(0))))
	}
	if !isInt(c.Type()) {
		return ISym(fmt.Sprintf("float!%d", freshID()), nil, nil)
	}
	return x.intOp(st, c.Op, at, bt, c.Type())
}

func errID(v Iface) (*Term, bool) {
	if v.err != nil {
		return v.err, true
	}
	if v.typ == nil && v.v == nil {
		return Int(0), true
	}
	return nil, false
}

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			if p.sort == SBool {
				return Eq(p, q)
			}
			if p.sort == SSeq {
				return x.simpBool(st, SeqEq(st.norm(p), st.norm(q)))
			}
			return Eq(p, q)
		}
	case Slice:
		if q, ok := b.(Slice); ok {
			if q.obj == 0 && q.isnil == True {
				return p.isnil
			}
			if p.obj == 0 && p.isnil == True {
				return q.isnil
			}
		}
	case Ptr:
		if q, ok := b.(Ptr); ok {
			if p.obj == 0 || q.obj == 0 {
				return Bool(p.obj == q.obj)
			}
			if p.obj != q.obj && (x.elemOf[p.obj] != nil || x.elemOf[q.obj] != nil) {
				unsup("comparison of pointers in lists")
			}
			if p.obj == q.obj && len(p.path) == len(q.path) {
				same := true
				for i := range p.path {
					if p.path[i] != q.path[i] {
						same = false
					}
				}
				return Bool(same)
			}
			return Bool(false)
		}
		if q, ok := b.(AbsRef); ok {
			return Bool(p.obj == q.obj)
		}
	case AbsRef:
		if q, ok := b.(AbsRef); ok {
			return Bool(p.obj == q.obj)
		}
		if q, ok := b.(Ptr); ok {
			return Bool(p.obj == q.obj)
		}
		if _, ok := b.(NilFunc); ok {
			return False
		}
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			break
		}
		if e1, ok1 := errID(p); ok1 {
			if e2, ok2 := errID(q); ok2 {
				return Eq(e1, e2)
			}
			if e1.isK(0) {
				return Bool(false) // q holds a value
			}
		}
		if e2, ok2 := errID(q); ok2 && e2.isK(0) {
			return False
		}
		if r1, ok := p.v.(AbsRef); ok {
			if r2, ok := q.v.(AbsRef); ok {
				return Bool(r1.obj == r2.obj)
			}
		}
		if p1, ok := p.v.(Ptr); ok {
			if p2, ok := q.v.(Ptr); ok {
				return Bool(p1.obj == p2.obj)
			}
		}
		if p.typ != nil && q.typ != nil {
			if !types.Identical(p.typ, q.typ) {
				return False
			}
			return x.equal(st, p.v, q.v, p.typ)
		}
		return BSym(fmt.Sprintf("ifaceeq!%d", freshID()))
	case NilFunc:
		_, isnil := b.(NilFunc)
		return Bool(isnil)
	case FuncV, *Closure, BoundM:
		if _, ok := b.(NilFunc); ok {
			return False
		}
	case MapV:
		if q, ok := b.(MapV); ok {
			return Bool(p.obj == q.obj)
		}
	case *StructV:
		q, ok := b.(*StructV)
		if ok {
			var cs []*Term
			u := p.typ.Underlying().(*types.Struct)
			i1 := x.newObj(st, "cmp", p.typ, p)
			i2 := x.newObj(st, "cmp", q.typ, q)
			for i := 0; i < u.NumFields(); i++ {
				cs = append(cs, x.equal(st, x.get(st, i1, []Sel{{f: i}}), x.get(st, i2, []Sel{{f: i}}), u.Field(i).Type()))
			}
			return And(cs...)
		}
	case *ArrV:
		q, ok := b.(*ArrV)
		if ok {
			var cs []*Term
			for i := range p.elems {
				cs = append(cs, x.equal(st, p.elems[i], q.elems[i], p.typ))
			}
			return And(cs...)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) makeIface(st *State, v Value, t types.Type) Value {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{typ: t, v: v}
}

func (x *Exec) convert(st *State, fr *Frame, v Value, from, to types.Type, pos token.Pos) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isInt(from) && isInt(to):
		return x.wrap(st, v.(*Term), to)
	case isString(from):
		if s, ok := tu.(*types.Slice); ok {
			if isByte(s.Elem()) {
				return bytesObj(x, st, "[]byte(s)", st.norm(v.(*Term)))
			}
			// []rune
			return x.sym(st, fmt.Sprintf("runes!%d", freshID()), to)
		}
		if isString(to) {
			return v
		}
	case isString(to):
		if s, ok := v.(Slice); ok && isByte(fu.(*types.Slice).Elem()) {
			return x.content(st, s)
		}
		if isInt(from) {
			return QApp("runestr", IApp("len:runestr", b1, B(4), v.(*Term)), v.(*Term))
		}
		return x.sym(st, fmt.Sprintf("str!%d", freshID()), to)
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return ISym(fmt.Sprintf("float!%d", freshID()), nil, nil)
	}
	if b, ok := fu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 && isInt(to) {
		return symInt(fmt.Sprintf("ffloat!%d", freshID()), to)
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) indexAddr(st *State, fr *Frame, c *ssa.IndexAddr) {
	iv := x.val(st, fr, c.Index).(*Term)
	switch v := x.val(st, fr, c.X).(type) {
	case Slice:
		x.noPanic(st, fr, c.Pos(), "index out of range", And(Le(Int(0), iv), Lt(iv, v.ln)))
		if v.obj == 0 {
			panic(deadPath{})
		}
		fr.env[c] = Ptr{v.obj, append(append([]Sel(nil), v.path...), Sel{i: Add(v.off, iv)})}
	case Ptr:
		p := x.ptr(st, fr, v, c.Pos(), "nil pointer dereference")
		at := c.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.noPanic(st, fr, c.Pos(), "index out of range", And(Le(Int(0), iv), Lt(iv, Int(at.Len()))))
		fr.env[c] = Ptr{p.obj, append(append([]Sel(nil), p.path...), Sel{i: iv})}
	default:
		unsup("index of %T", v)
	}
}

func (x *Exec) sliceOp(st *State, fr *Frame, c *ssa.Slice) Value {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.val(st, fr, v).(*Term)
	}
	lo, hi, mx := opt(c.Low), opt(c.High), opt(c.Max)
	if lo == nil {
		lo = Int(0)
	}
	switch v := x.val(st, fr, c.X).(type) {
	case *Term: // string
		if hi == nil {
			hi = v.ln
		}
		x.noPanic(st, fr, c.Pos(), "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, v.ln)))
		return st.norm(x.slice(st, st.norm(v), lo, Sub(hi, lo), false))
	case Slice:
		if hi == nil {
			hi = v.ln
		}
		cp := v.cap_
		if mx != nil {
			x.noPanic(st, fr, c.Pos(), "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, v.cap_)))
			cp = mx
		} else {
			x.noPanic(st, fr, c.Pos(), "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, v.cap_)))
		}
		return Slice{obj: v.obj, path: v.path, off: Add(v.off, lo), ln: Sub(hi, lo), cap_: Sub(cp, lo), isnil: v.isnil}
	case Ptr:
		p := x.ptr(st, fr, v, c.Pos(), "nil pointer dereference")
		at := c.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		x.noPanic(st, fr, c.Pos(), "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, cp), Le(cp, n)))
		return Slice{obj: p.obj, path: p.path, off: lo, ln: Sub(hi, lo), cap_: Sub(cp, lo), isnil: False}
	default:
		unsup("slice of %T", v)
	}
	return nil
}

// ---------- maps

func (x *Exec) mapUpdate(st *State, m, k, v Value) {
	mv, ok := m.(MapV)
	if !ok || mv.obj == 0 {
		unsup("map update")
	}
	o := st.objs[mv.obj]
	c := o.val.(*MapC)
	n := &MapC{more: c.more, log: c.log}
	kt, kterm := k.(*Term)
	if !kterm {
		n.more = true
	} else {
		var ent *Term
		if mt, ok := o.typ.Underlying().(*types.Map); ok {
			if ve := x.tryEnc(st, v, mt.Elem()); ve != nil {
				ent = QApp("entry", Int(1), kt, ve)
			}
		}
		for i, kk := range c.keys {
			e := x.simpBool(st, Eq(kk.(*Term), kt))
			if e == True || x.prove(st, e) {
				continue
			}
			if e != False && !x.prove(st, Not(e)) {
				// replaced or not
				if c.ents[i] == nil {
					n.more = true
				} else if n.log == nil {
					n.log = c.ents[i]
				} else {
					n.log = Cat(n.log, c.ents[i])
				}
				continue
			}
			n.keys = append(n.keys, kk)
			n.vals = append(n.vals, c.vals[i])
			n.ents = append(n.ents, c.ents[i])
		}
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
		n.ents = append(n.ents, ent)
	}
	st.objs[mv.obj] = &Obj{id: o.id, name: o.name, typ: o.typ, val: n}
	x.wrote(st, mv.obj, nil, "")
}

// tryEnc encodes a value that the encoding keeps all of
func (x *Exec) tryEnc(st *State, v Value, t types.Type) (r *Term) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok || p.obj != 0 && x.elemOf[p.obj] == nil {
			return nil
		}
		_ = u
	default:
		return nil
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(Unsup); !ok {
				panic(e)
			}
			r = nil
		}
	}()
	return x.encElem(st, v, t)
}

// an entry of the log with key k, if there is one: any of those with that key (the last is one of
// them)
func (x *Exec) lookupLog(st *State, log, k *Term, t types.Type) (Value, *Term) {
	log, k = st.norm(log), st.norm(k)
	ok := BApp("inmap", log, k)
	d, e := x.decide(st, ok)
	switch d {
	case -1:
		panic(SplitReq{e})
	case 0:
		return x.zero(t), False
	}
	j := IApp("mapindex", b0, maxLen, log, k)
	st.assume(x, Lt(j, log.ln))
	if !x.feasible(st) {
		panic(deadPath{})
	}
	ent := st.norm(x.slice(st, log, j, Int(1), true))
	if ent.op != OQApp || ent.name != "entry" {
		unsup("entry of a map")
	}
	kk := ent.args[1]
	st.assume(x, Eq(kk, k))
	return x.decodeElem(st, ent.args[2], t), True
}

func (x *Exec) lookup(st *State, fr *Frame, c *ssa.Lookup) Value {
	k := x.val(st, fr, c.Index)
	if s, ok := x.val(st, fr, c.X).(*Term); ok {
		iv := k.(*Term)
		x.noPanic(st, fr, c.Pos(), "index out of range", And(Le(Int(0), iv), Lt(iv, s.ln)))
		return x.at(st, st.norm(s), iv)
	}
	m, ok := x.val(st, fr, c.X).(MapV)
	if !ok {
		unsup("lookup in %T", x.val(st, fr, c.X))
	}
	mt := c.X.Type().Underlying().(*types.Map)
	mk := func(v Value, ok *Term) Value {
		if c.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	if m.obj == 0 {
		return mk(x.zero(mt.Elem()), False)
	}
	mc := st.objs[m.obj].val.(*MapC)
	if kt, isT := k.(*Term); isT {
		for i, kk := range mc.keys {
			e := x.simpBool(st, Eq(kk.(*Term), kt))
			d, e2 := x.decide(st, e)
			if d == 1 {
				return mk(mc.vals[i], True)
			}
			if d == -1 {
				panic(SplitReq{e2})
			}
		}
	}
	if mc.log != nil && mc.log != Empty && !mc.more {
		kt, ok := k.(*Term)
		if !ok {
			unsup("map key %T", k)
		}
		return mk(x.lookupLog(st, mc.log, kt, mt.Elem()))
	}
	if mc.more {
		id := freshID()
		okb := BSym(fmt.Sprintf("mapok!%d", id))
		if d, _ := x.decide(st, okb); d == -1 && c.CommaOk {
			// decide now so that the value is definite
			v := x.sym(st, fmt.Sprintf("mapval!%d", id), mt.Elem())
			return mk(v, okb)
		}
		return mk(x.sym(st, fmt.Sprintf("mapval!%d", id), mt.Elem()), okb)
	}
	return mk(x.zero(mt.Elem()), False)
}

func (x *Exec) rangeOver(st *State, v Value, t types.Type) Value {
	return IterV{x.newAbs(st, "iter", map[string]Value{"over": v, "pos": Int(0), "t": TypeV{t}}).obj}
}

func (x *Exec) next(st *State, fr *Frame, c *ssa.Next) Value {
	it := AbsRef{x.val(st, fr, c.Iter).(IterV).obj}
	a := st.abs(it)
	pos := a.f["pos"].(*Term)
	switch v := a.f["over"].(type) {
	case MapV:
		mt := a.f["t"].(TypeV).t.Underlying().(*types.Map)
		if v.obj == 0 {
			return Tuple{False, x.zero(mt.Key()), x.zero(mt.Elem())}
		}
		mc := st.objs[v.obj].val.(*MapC)
		p, ok := pos.ConstI()
		if ok && mc.definite() {
			if int(p) >= len(mc.keys) {
				return Tuple{False, x.zero(mt.Key()), x.zero(mt.Elem())}
			}
			x.absSet(st, it, "pos", AddK(pos, 1))
			return Tuple{True, mc.keys[p], mc.vals[p]}
		}
		id := freshID()
		return Tuple{BSym(fmt.Sprintf("mapnext!%d", id)), x.sym(st, fmt.Sprintf("mapk!%d", id), mt.Key()), x.sym(st, fmt.Sprintf("mapv!%d", id), mt.Elem())}
	case *Term: // string
		ok := Lt(pos, v.ln)
		w := ISym(fmt.Sprintf("runew!%d", freshID()), b1, B(4))
		r := ISym(fmt.Sprintf("rune!%d", freshID()), b0, B(0x10ffff))
		x.absSet(st, it, "pos", Add(pos, w))
		return Tuple{ok, pos, r}
	}
	unsup("range over %T", a.f["over"])
	return nil
}

func (x *Exec) typeAssert(st *State, fr *Frame, c *ssa.TypeAssert) Value {
	v, ok := x.val(st, fr, c.X).(Iface)
	if !ok {
		unsup("type assertion on %T", x.val(st, fr, c.X))
	}
	mk := func(val Value, ok *Term) Value {
		if c.CommaOk {
			return Tuple{val, ok}
		}
		x.noPanic(st, fr, c.Pos(), "type assertion", ok)
		return val
	}
	if v.typ == nil && v.v == nil && v.err == nil {
		return mk(x.zero(c.AssertedType), False)
	}
	if v.typ != nil {
		if types.IsInterface(c.AssertedType) {
			yes := types.Implements(v.typ, c.AssertedType.Underlying().(*types.Interface))
			if yes {
				return mk(v, True)
			}
			return mk(x.zero(c.AssertedType), False)
		}
		if types.Identical(v.typ, c.AssertedType) {
			return mk(v.v, True)
		}
		return mk(x.zero(c.AssertedType), False)
	}
	if v.err != nil {
		if d, _ := x.decide(st, Eq(v.err, Int(0))); d == 1 {
			return mk(x.zero(c.AssertedType), False)
		}
	}
	if r, ok := v.v.(AbsRef); ok {
		a := st.abs(r)
		if a.kind == "writer" || a.kind == "reader" {
			// ghost streams implement just io.Reader / io.WriteCloser
			n := 0
			if it, ok := c.AssertedType.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					switch it.Method(i).Name() {
					case "Write", "Close":
						if a.kind != "writer" {
							n++
						}
					case "Read":
						if a.kind != "reader" {
							n++
						}
					default:
						n++
					}
				}
				if n == 0 {
					return mk(v, True)
				}
			}
			return mk(x.zero(c.AssertedType), False)
		}
	}
	return mk(x.sym(st, fmt.Sprintf("assert!%d", freshID()), c.AssertedType), BSym(fmt.Sprintf("assertok!%d", freshID())))
}

// ---------- calls

func (x *Exec) callParts(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := x.val(st, fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(st, fr, a))
		}
		return recv, args
	}
	fnv := x.val(st, fr, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	return fnv, args
}

func (x *Exec) invokeParts(st *State, fr *Frame, c *ssa.CallCommon, fnv Value, args []Value, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		return x.invoke(st, fr, fnv, c.Method, args, pos)
	}
	if b, ok := fnv.(BuiltinV); ok {
		return x.builtin(st, fr, b.name, c, args, pos)
	}
	if _, ok := fnv.(NilFunc); ok {
		x.noPanic(st, fr, pos, "call of nil function", False)
		return nil
	}
	return x.callValue(st, fnv, args, pos, fr.depth)
}

func (x *Exec) invoke(st *State, fr *Frame, recv Value, m *types.Func, args []Value, pos token.Pos) []Outcome {
	v, ok := recv.(Iface)
	if !ok {
		unsup("invoke on %T", recv)
	}
	if v.err != nil {
		x.noPanic(st, fr, pos, "nil interface method call", Not(Eq(v.err, Int(0))))
		return x.havocResults(st, "err."+m.Name(), m.Type().(*types.Signature), args)
	}
	if v.typ == nil && v.v == nil {
		x.noPanic(st, fr, pos, "nil interface method call", False)
		return nil
	}
	if r, ok := v.v.(AbsRef); ok {
		return x.absMethod(st, r, m.Name(), args, m.Type().(*types.Signature), pos, fr.depth+1)
	}
	if pt, ok := v.typ.(*types.Pointer); ok && x.goContracts != nil {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			if g := x.goContracts["(*"+n.String()+")."+m.Name()]; g != nil {
				x.usedContracts["(*"+n.String()+")."+m.Name()]++
				return x.callFn(st, g, append([]Value{v.v}, args...), nil, pos, fr.depth+1)
			}
		}
	}
	if p, ok := v.v.(Ptr); ok && p.obj != 0 {
		if _, isabs := st.objs[p.obj].val.(*Abs); isabs {
			return x.absMethod(st, AbsRef{p.obj}, m.Name(), args, m.Type().(*types.Signature), pos, fr.depth+1)
		}
	}
	fn := x.prog.LookupMethod(v.typ, m.Pkg(), m.Name())
	if fn == nil {
		unsup("method %s of %s", m.Name(), v.typ)
	}
	return x.callFn(st, fn, append([]Value{v.v}, args...), nil, pos, fr.depth+1)
}

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func (x *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *Term:
			return one(st, v.ln)
		case Slice:
			return one(st, v.ln)
		case MapV:
			if v.obj == 0 {
				return one(st, Int(0))
			}
			mc := st.objs[v.obj].val.(*MapC)
			if !mc.definite() {
				return one(st, ISym(fmt.Sprintf("maplen!%d", freshID()), B(int64(len(mc.keys))), maxLen))
			}
			return one(st, Int(int64(len(mc.keys))))
		case Ptr:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return one(st, Int(at.Len()))
		}
	case "cap":
		if v, ok := args[0].(Slice); ok {
			return one(st, v.cap_)
		}
	case "copy":
		d := args[0].(Slice)
		var src *Term
		var n *Term
		switch s := args[1].(type) {
		case *Term:
			n = x.minT(st, d.ln, s.ln)
			src = x.slice(st, st.norm(s), Int(0), n, false)
		case Slice:
			n = x.minT(st, d.ln, s.ln)
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if !isByte(el) {
				unsup("copy of non-byte slices")
			}
			s2 := s
			s2.ln = n
			src = x.content(st, s2)
		}
		if src != nil {
			x.writeBytes(st, d, Int(0), src)
			return one(st, n)
		}
	case "append":
		return x.appendOp(st, fr, c, args)
	case "min", "max":
		if isInt(c.Args[0].Type()) {
			r := args[0].(*Term)
			for _, a := range args[1:] {
				b := a.(*Term)
				if name == "min" {
					r = x.minT(st, r, b)
				} else {
					r = Neg(x.minT(st, Neg(r), Neg(b)))
				}
			}
			return one(st, r)
		}
	case "print", "println":
		return one(st, nil)
	case "clear":
		if s, ok := args[0].(Slice); ok {
			x.writeBytes(st, s, Int(0), Zeros(s.ln))
			return one(st, nil)
		}
	case "delete":
		m := args[0].(MapV)
		if m.obj != 0 {
			o := st.objs[m.obj]
			st.objs[m.obj] = &Obj{id: o.id, name: o.name, typ: o.typ, val: &MapC{more: true}}
		}
		return one(st, nil)
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == 0 {
			x.noPanic(st, fr, pos, "nil pointer dereference", False)
			return nil
		}
		return one(st, p)
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) minT(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	if x.le(st, a, b) {
		return a
	}
	if x.le(st, b, a) {
		return b
	}
	panic(SplitReq{Le(a, b)})
}

func (x *Exec) appendOp(st *State, fr *Frame, c *ssa.CallCommon, args []Value) []Outcome {
	s := args[0].(Slice)
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if len(args) == 1 {
		return one(st, s)
	}
	if isByte(el) {
		var d *Term
		switch v := args[1].(type) {
		case *Term:
			d = st.norm(v)
		case Slice:
			d = x.content(st, v)
		}
		return one(st, x.appendBytes(st, s, d))
	}
	v := args[1].(Slice)
	if v.ln.isK(0) {
		return one(st, s)
	}
	dl := x.listContent(st, v)
	var old *Term = Empty
	if s.obj != 0 && !s.ln.isK(0) {
		old = x.listContent(st, s).seq
	}
	ns := Cat(old, dl.seq)
	nl := Add(s.ln, dl.seq.ln)
	// keep small concrete slices element-wise
	if n, ok := nl.ConstI(); ok && n <= 16 && !encodable(el) {
		a := &ArrV{typ: el}
		get := func(s Slice) {
			m, _ := s.ln.ConstI()
			o, ok := s.off.ConstI()
			if m == 0 {
				return
			}
			av, ok2 := x.get(st, s.obj, s.path).(*ArrV)
			if !ok || !ok2 {
				unsup("append to %s", c.Args[0].Type())
			}
			a.elems = append(a.elems, av.elems[o:o+m]...)
		}
		get(s)
		get(v)
		id := x.newObj(st, "append", types.NewSlice(el), a)
		return one(st, Slice{obj: id, off: Int(0), ln: nl, cap_: nl, isnil: False})
	}
	id := x.newObj(st, "append", types.NewSlice(el), &ListV{typ: el, seq: ns})
	return one(st, Slice{obj: id, off: Int(0), ln: nl, cap_: nl, isnil: False})
}

// can values of this type be stored in a ListV?
func encodable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			switch w := u.Field(i).Type().Underlying().(type) {
			case *types.Basic, *types.Slice:
			case *types.Array, *types.Struct, *types.Pointer:
				_ = w
			default:
				return false
			}
		}
		return true
	case *types.Pointer:
		return encodable(u.Elem())
	}
	return false
}

func (x *Exec) appendBytes(st *State, s Slice, d *Term) Slice {
	if d.ln.isK(0) && s.isnil != True {
		return s
	}
	if x.isZero(st, d.ln) {
		return s
	}
	nl := Add(s.ln, d.ln)
	if s.obj != 0 && x.le(st, nl, s.cap_) {
		x.writeBytes(st, s, s.ln, d)
		return Slice{obj: s.obj, path: s.path, off: s.off, ln: nl, cap_: s.cap_, isnil: False}
	}
	if s.obj != 0 && !s.cap_.isK(0) && !s.ln.isK(0) {
		if !x.prove(st, Lt(s.cap_, nl)) {
			panic(SplitReq{Le(nl, s.cap_)})
		}
	} else if s.obj != 0 && !s.cap_.isK(0) {
		if !x.prove(st, Lt(s.cap_, nl)) {
			panic(SplitReq{Le(nl, s.cap_)})
		}
	}
	c := Cat(x.content(st, s), d)
	r := bytesObj(x, st, "append", c)
	return r
}

// ---------- globals

func (x *Exec) globalObj(st *State, g *ssa.Global) int {
	id, ok := x.gobj[g]
	if !ok {
		id = -(len(x.gobj) + 1)
		x.gobj[g] = id
	}
	if st.objs[id] == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		st.objs[id] = &Obj{id: id, name: g.String(), typ: t, val: x.globalInit(st, g, t)}
	}
	return id
}

func (x *Exec) sentinelID(name string) *Term {
	t, ok := x.sentinel[name]
	if !ok {
		t = Int(int64(len(x.sentinel) + 1))
		x.sentinel[name] = t
	}
	return t
}

func (x *Exec) globalInit(st *State, g *ssa.Global, t types.Type) Value {
	full := g.Pkg.Pkg.Path() + "." + g.Name()
	switch full {
	case "crypto/rand.Reader":
		return Iface{v: x.newAbs(st, "rand", map[string]Value{})}
	case "golang.org/x/crypto/curve25519.Basepoint":
		return bytesObj(x, st, full, Cat(Lit("\x09"), Lit(strings.Repeat("\x00", 31))))
	case "os.Stdin", "os.Stdout", "os.Stderr":
		return Ptr{obj: x.newObj(st, full, t, &Abs{kind: "file", f: map[string]Value{"name": Lit(g.Name()), "std": True}})}
	case "os.Args":
		return x.sym(st, "os.Args", t)
	case "encoding/base64.StdEncoding":
		return Ptr{obj: x.newObj(st, full, t, &Abs{kind: "base64", f: map[string]Value{"enc": Lit("std")}})}
	case "encoding/base64.URLEncoding":
		return Ptr{obj: x.newObj(st, full, t, &Abs{kind: "base64", f: map[string]Value{"enc": Lit("url")}})}
	case "encoding/base64.RawStdEncoding":
		return Ptr{obj: x.newObj(st, full, t, &Abs{kind: "base64", f: map[string]Value{"enc": Lit("rawstd")}})}
	}
	if isErrorT(t) {
		return errIface(x.sentinelID(full))
	}
	// look for a single simple initialising store
	if init := g.Pkg.Func("init"); init != nil && init.Blocks != nil {
		var stores []*ssa.Store
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					stores = append(stores, s)
				}
			}
		}
		if len(stores) == 0 {
			if g.Pkg.Pkg.Path() == "github.com/opencoff/sigtool/sign" || g.Pkg.Pkg.Path() == "github.com/opencoff/sigtool/src" {
				// zero initialised package variable
				inner := false
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op == g {
								inner = true
							}
						}
					}
				}
				if !inner {
					return x.zeroCell(t)
				}
			}
		}
		if len(stores) == 1 {
			if v, ok := x.initVal(st, stores[0].Val, t); ok {
				return v
			}
		}
	}
	return x.symCell("global:"+full, t)
}

func (x *Exec) initVal(st *State, v ssa.Value, t types.Type) (Value, bool) {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c), true
	case *ssa.Convert:
		if k, ok := c.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			if s, ok := t.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				return bytesObj(x, st, "init", Lit(constant.StringVal(k.Value))), true
			}
		}
	case *ssa.ChangeType:
		return x.initVal(st, c.X, t)
	case *ssa.Function:
		return FuncV{c}, true
	case *ssa.Extract:
		if call, ok := c.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && f.String() == "(*math/big.Int).SetString" {
				if k, ok := call.Call.Args[1].(*ssa.Const); ok {
					if n, ok := new(big.Int).SetString(constant.StringVal(k.Value), 10); ok {
						return Ptr{obj: x.newObj(st, "bigconst", t, &Abs{kind: "bigint", f: map[string]Value{"v": BigI(n)}})}, true
					}
				}
			}
		}
	case *ssa.Call:
		if f := c.Call.StaticCallee(); f != nil && f.String() == "math/big.NewInt" {
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				return Ptr{obj: x.newObj(st, "bigconst", t, &Abs{kind: "bigint", f: map[string]Value{"v": x.constVal(k)}})}, true
			}
		}
	}
	return nil, false
}

// named struct types that are not looked into
func (x *Exec) opaqueType(n *types.Named) bool {
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	switch p {
	case "github.com/opencoff/sigtool/sign":
		return x.opaquePk[p]
	case "github.com/opencoff/sigtool/src", "github.com/opencoff/sigtool/internal/pb", "command-line-arguments", "encoding/pem", "github.com/opencoff/go-mmap", "github.com/opencoff/pflag":
		return false
	}
	_, isStruct := n.Underlying().(*types.Struct)
	return isStruct
}

// ---------- reporting helpers

func (x *Exec) sortedObls() []*Obl {
	var r []*Obl
	for _, k := range x.order {
		r = append(r, x.obls[k])
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

// integers that occur multiplied by b in the path condition
func (x *Exec) cofactors(st *State, b *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for p := st.pc; p != nil; p = p.up {
		if p.t.op != OLe0 && p.t.op != OEq0 {
			continue
		}
		_, as, _ := linview(p.t.args[0])
		for _, a := range as {
			if a.op != OMul || len(a.args) != 2 {
				continue
			}
			o := a.args[0]
			if o == b {
				o = a.args[1]
			} else if a.args[1] != b {
				continue
			}
			if !seen[o] {
				seen[o] = true
				if r = append(r, o); len(r) > 5 {
					return r
				}
			}
		}
	}
	return r
}

// eliminate uses known equalities to turn a into something closer to a multiple of k
func (x *Exec) eliminate(st *State, a *Term, k *big.Int) *Term {
	if k.BitLen() < 2 {
		return a
	}
	bad := func(t *Term) int {
		_, _, cs := linview(t)
		n := 0
		for _, c := range cs {
			if new(big.Int).Mod(c, k).Sign() != 0 {
				n++
			}
		}
		return n
	}
	n := bad(a)
	for again := true; again && n > 0; {
		again = false
		_, as, cs := linview(a)
		co := map[*Term]*big.Int{}
		for i, t := range as {
			co[t] = cs[i]
		}
		for p := st.pc; p != nil && !again; p = p.up {
			if p.t.op != OEq0 {
				continue
			}
			_, es, ecs := linview(p.t.args[0])
			for i, t := range es {
				c := co[t]
				if c == nil || ecs[i].CmpAbs(b1) != 0 {
					continue
				}
				r := Sub(a, MulK(p.t.args[0], new(big.Int).Mul(c, ecs[i])))
				if m := bad(r); m < n {
					a, n, again = r, m, true
					break
				}
			}
		}
	}
	return a
}

// specFn: part of a specification, not of the code under contract
func specFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() || fn.Prog == nil {
		return false
	}
	return strings.HasPrefix(filepath.Base(fn.Prog.Fset.Position(fn.Pos()).Filename), "zz_verif")
}
