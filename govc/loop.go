package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are cut at their header: the values that change are replaced by a template over the
// iteration counter, which is checked to hold initially and to be preserved by the body.

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	name   string
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := x.loopInfo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &Loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}, name: fmt.Sprintf("%s/loop%d", fnName(fn), len(m))}
				m[h] = l
			}
			var walk func(n *ssa.BasicBlock)
			walk = func(n *ssa.BasicBlock) {
				if l.blocks[n] {
					return
				}
				l.blocks[n] = true
				for _, p := range n.Preds {
					walk(p)
				}
			}
			walk(b)
		}
	}
	x.loopInfo[fn] = m
	return m
}

type hstate struct {
	st *State
	fr *Frame
}

type cont struct {
	it item
	h  hstate
}

// splitHeader executes the header block of M (phis already evaluated)
func (x *Exec) splitHeader(M *Loop, h item) (outs []Outcome, exits []item, conts []cont) {
	snap := hstate{h.st.clone(), h.fr.clone()}
	h.start = true
	h.idx = 0
	work := []item{h}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		o, succ := x.runBlock(w)
		outs = append(outs, o...)
		for _, s := range succ {
			switch {
			case s.start:
				work = append(work, s)
			case M.blocks[s.blk] && testBlock(s.blk, s.prev):
				x.evalPhis(&s)
				s.start, s.idx = true, 0
				work = append(work, s)
			case M.blocks[s.blk]:
				conts = append(conts, cont{s, snap})
			default:
				exits = append(exits, s)
			}
		}
	}
	return
}

// testBlock: a further part of the loop's condition, which only computes values
func testBlock(b *ssa.BasicBlock, prev *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || b.Preds[0] != prev {
		return false
	}
	for i, in := range b.Instrs {
		switch y := in.(type) {
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.ChangeType, *ssa.DebugRef:
		case *ssa.UnOp:
			if y.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			f, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || f.Name() != "len" && f.Name() != "cap" {
				return false
			}
		case *ssa.If:
			return i > 0
		default:
			return false
		}
	}
	return false
}

func (x *Exec) iterate(M *Loop, c cont) (outs []Outcome, exits []item, conts []cont) {
	o, e, backs := x.runRegion([]item{{st: c.it.st.clone(), fr: c.it.fr.clone(), blk: c.it.blk, prev: c.it.prev}}, M)
	outs, exits = o, e
	for i := range backs {
		x.evalPhis(&backs[i])
	}
	if x.varints && x.hasInner(M) {
		backs = x.mergeAll(backs)
	}
	for _, b := range backs {
		o2, e2, c2 := x.splitHeader(M, b)
		outs = append(outs, o2...)
		exits = append(exits, e2...)
		conts = append(conts, c2...)
	}
	return
}

func (x *Exec) runLoop(M *Loop, it item) (outs []Outcome, exits []item) {
	x.evalPhis(&it)
	return x.enterLoop(M, it)
}

func (x *Exec) enterLoop(M *Loop, it item) (outs []Outcome, exits []item) {
	outs, exits, conts := x.splitHeader(M, it)
	for _, c := range conts {
		o, e := x.loopFrom(M, c, 0)
		outs = append(outs, o...)
		exits = append(exits, e...)
	}
	return
}

func (x *Exec) hasInner(M *Loop) bool {
	for h := range x.loopsOf(M.head.Parent()) {
		if h != M.head && M.blocks[h] {
			return true
		}
	}
	return false
}

var dbgLoop = os.Getenv("GOVC_LOOP") != ""

func (x *Exec) loopFrom(M *Loop, c cont, n int) (outs []Outcome, exits []item) {
	if n < 90 && x.concreteLoop(M, c) {
		o, e, cs := x.iterate(M, c)
		if x.summary && len(e) > 0 && len(cs) > 0 {
			// decided by the data, not by the count
			if s0 := x.summarise(M, c); s0 != nil {
				return x.finish(M, s0)
			}
		}
		outs, exits = o, e
		for _, c2 := range cs {
			o, e := x.loopFrom(M, c2, n+1)
			outs = append(outs, o...)
			exits = append(exits, e...)
		}
		return
	}
	if x.coarse {
		if s0 := x.summarise(M, c); s0 != nil {
			return x.finish(M, s0)
		}
	}
	// iterations whose continuation is decided are executed as they are
	var o1 []Outcome
	var e1 []item
	cs := []cont{c}
	for k := 0; k < 110; k++ {
		o, e, cs2 := x.iterate(M, cs[0])
		if k > 0 && (len(e) > 0 && len(cs2) > 0 || len(cs2) > 1) {
			break // keep the decided prefix
		}
		o1, e1, cs = append(o1, o...), append(e1, e...), cs2
		if len(cs) == 0 {
			return o1, e1
		}
		if len(cs) > 1 || len(e1) > 0 {
			break
		}
	}
	s0 := x.summarise(M, c)
	if s0 != nil && s0.lossy == 0 {
		return x.finish(M, s0)
	}
	if dbgLoop && s0 != nil {
		fmt.Fprintf(os.Stderr, "LOOP %s unpeeled lossy=%d; trying peeled\n", M.name, s0.lossy)
	}
	// peel one iteration
	if len(cs) <= 8 {
		var ss []*summary
		tot := 0
		ok := true
		for _, c2 := range cs {
			s := x.summarise(M, c2)
			if s == nil {
				ok = false
				break
			}
			ss = append(ss, s)
			tot = max(tot, s.lossy)
		}
		if ok && (s0 == nil || tot < s0.lossy) {
			outs, exits = o1, e1
			for _, s := range ss {
				o, e := x.finish(M, s)
				outs = append(outs, o...)
				exits = append(exits, e...)
			}
			return
		}
	}
	if s0 == nil {
		unsup("no invariant found for %s", M.name)
	}
	if a := x.sticky(M, s0); a != nil {
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "LOOP %s split on %s: lossy %d\n", M.name, a.stick.Comment, a.lossy)
		}
		x.finishWith(M, s0, a.stick, true)
		outs, exits = x.finish(M, a)
		o, e := x.finishWith(M, s0, a.stick, false)
		return append(outs, o...), append(exits, e...)
	}
	return x.finish(M, s0)
}

// a limit that is only there to be never reached (a counter's range, say)
func farConst(v *Term, k *ssa.Const) bool {
	n, ok := v.Const()
	m, ok2 := constant.Val(constant.ToInt(k.Value)).(int64)
	if !ok || !ok2 {
		return true
	}
	d := new(big.Int).Sub(n, big.NewInt(m))
	return d.CmpAbs(big.NewInt(1<<20)) > 0
}

// loops whose trip count is fixed by constants are unrolled
func (x *Exec) concreteLoop(M *Loop, c cont) bool {
	env := c.it.fr.env
	cval := func(v ssa.Value) bool {
		if k, ok := v.(*ssa.Const); ok {
			return k.Value != nil && isInt(k.Type())
		}
		t, ok := env[v].(*Term)
		if !ok || t.sort != SInt {
			return false
		}
		_, ok = t.Const()
		return ok
	}
	if f, ok := M.head.Instrs[len(M.head.Instrs)-1].(*ssa.If); ok {
		if b, ok := f.Cond.(*ssa.BinOp); ok && isInt(b.X.Type()) && (!M.blocks[M.head.Succs[0]] || !M.blocks[M.head.Succs[1]]) {
			if p, ok := b.X.(*ssa.Phi); ok && cval(p) {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && farConst(env[p].(*Term), k) {
					return false
				}
			}
			return cval(b.X) && cval(b.Y)
		}
		if e, ok := f.Cond.(*ssa.Extract); ok {
			if nx, ok := e.Tuple.(*ssa.Next); ok {
				if iv, ok := env[nx.Iter].(IterV); ok {
					a := c.it.st.abs(AbsRef{iv.obj})
					if mv, ok := a.f["over"].(MapV); ok && mv.obj != 0 {
						mc := c.it.st.objs[mv.obj].val.(*MapC)
						_, isk := a.f["pos"].(*Term).ConstI()
						return isk && mc.definite()
					}
				}
			}
		}
	}
	for _, b := range c.it.fr.fn.Blocks {
		if !M.blocks[b] {
			continue
		}
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if M.blocks[b.Succs[0]] && M.blocks[b.Succs[1]] {
			continue
		}
		op, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch op.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			continue
		}
		p, ok := op.X.(*ssa.Phi)
		k, ok2 := op.Y.(*ssa.Const)
		if ok && ok2 && p.Block() == M.head && cval(p) && k.Value != nil && !farConst(env[p].(*Term), k) {
			return true
		}
	}
	return false
}

// ---------- cells

type cell struct {
	key  string
	phi  *ssa.Phi
	loc  wloc
	typ  types.Type
	base Value // value at loop entry
	// template
	app     bool // slice that grows by appending
	poison  bool
	leaves  []*leaf
	shape   string
	appBase *Term
}

type leaf struct {
	v0   *Term
	mode int
	typ  types.Type
	// int modes
	c   *Term // per-iteration constant
	k   int64 // factor of the group delta
	g   *group
	mod *big.Int
	// seq modes
	delta *Term // over itv
	body  *Term
	tries int
	sub   *Term // base of contiguous slices
	o0    *Term
	noBig bool
	noSub bool
	noWin bool
	cur   *Term // the template in use in this round
}

const (
	mConst = iota
	mLin   // v0 + c*it
	mRep   // v0 + c*it + k*D
	mBoolH
	mX    // seq: v0 ++ X
	mBig  // seq: v0 ++ Big
	mSub  // seq: v0 ++ A[o0 : o0+D]
	mSame // seq of the same length, unknown content
	mSuf  // suffix of v0
	mHav  // unknown seq
	mWin  // seq: A[o0+c*it : +len(v0)], a window that moves over A
)

type group struct {
	id    int
	D     *Term // accumulated delta
	X     *Term // accumulated sequence (for seq groups); len = lenG value
	delta []*Term
}

type summary struct {
	c     cont
	cells []*cell
	facts []*Term
	it    *Term
	syms  map[*Term]bool
	lossy int
	mark  int
	stick *ssa.Phi // only iterations that leave this variable at its value at loop entry
}

func flatten(v Value) (string, []*Term) {
	switch y := v.(type) {
	case nil:
		return "nil", nil
	case *Term:
		return fmt.Sprintf("T%d", y.sort), []*Term{y}
	case Slice:
		return fmt.Sprintf("S%d%v", y.obj, y.path), []*Term{y.off, y.ln, y.cap_, y.isnil}
	case Ptr:
		return fmt.Sprintf("P%d%v", y.obj, y.path), nil
	case AbsRef:
		return fmt.Sprintf("P%d[]", y.obj), nil
	case Iface:
		if e, ok := errID(y); ok {
			return "E", []*Term{e}
		}
		s, l := flatten(y.v)
		return fmt.Sprintf("I(%v)", y.typ) + s, l
	case *StructV:
		s := "{"
		var l []*Term
		for _, f := range y.f {
			a, b := flatten(f)
			s += a + ";"
			l = append(l, b...)
		}
		return s + "}", l
	case *ArrV:
		s := "["
		var l []*Term
		for _, f := range y.elems {
			a, b := flatten(f)
			s += a + ";"
			l = append(l, b...)
		}
		return s + "]", l
	case *ListV:
		return "L", []*Term{y.seq}
	case *MapC:
		if l := y.asLog(); l != nil {
			return "MC", []*Term{l}
		}
		return fmt.Sprintf("MC%d%v", len(y.keys), y.more), nil
	}
	return fmt.Sprintf("%T%v", v, v), nil
}

func unflatten(v Value, l []*Term) (Value, []*Term) {
	switch y := v.(type) {
	case *Term:
		return l[0], l[1:]
	case Slice:
		n := y
		n.off, n.ln, n.cap_, n.isnil = l[0], l[1], l[2], l[3]
		return n, l[4:]
	case Iface:
		if _, ok := errID(y); ok {
			if l[0].isK(0) {
				return Iface{}, l[1:]
			}
			return errIface(l[0]), l[1:]
		}
		w, r := unflatten(y.v, l)
		return Iface{typ: y.typ, v: w}, r
	case *StructV:
		n := &StructV{typ: y.typ, f: make([]Value, len(y.f))}
		for i, f := range y.f {
			n.f[i], l = unflatten(f, l)
		}
		return n, l
	case *ArrV:
		n := &ArrV{typ: y.typ, elems: make([]Value, len(y.elems))}
		for i, f := range y.elems {
			n.elems[i], l = unflatten(f, l)
		}
		return n, l
	case *ListV:
		return &ListV{y.typ, l[0]}, l[1:]
	case *MapC:
		if y.asLog() != nil {
			return &MapC{log: l[0]}, l[1:]
		}
	}
	return v, l
}

type Poison struct{ why string }

func (x *Exec) cellGet(h hstate, c *cell) Value {
	if c.phi != nil {
		return h.fr.env[c.phi]
	}
	if c.loc.key != "" {
		return h.st.abs(AbsRef{c.loc.obj}).f[c.loc.key]
	}
	v := x.get(h.st, c.loc.obj, c.loc.path)
	return v
}

func (x *Exec) cellSet(h hstate, c *cell, v Value) {
	if c.phi != nil {
		h.fr.env[c.phi] = v
		return
	}
	if c.loc.key != "" {
		x.absSet(h.st, AbsRef{c.loc.obj}, c.loc.key, v)
		return
	}
	x.put(h.st, c.loc.obj, c.loc.path, v)
}

func typeAt(t types.Type, path []Sel) types.Type {
	for _, p := range path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if p.f < 0 || p.f >= u.NumFields() {
				return nil
			}
			t = u.Field(p.f).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (x *Exec) initCell(s *summary, c *cell) {
	c.base = x.cellGet(s.c.h, c)
	if p, ok := c.base.(Poison); ok {
		_ = p
		c.poison = true
		return
	}
	sh, l := flatten(c.base)
	c.shape = sh
	c.leaves = nil
	for _, t := range l {
		if t.sort == SInt {
			t = x.unmod(s.c.h.st, t)
		}
		c.leaves = append(c.leaves, &leaf{v0: t, c: Int(0)})
	}
	if len(l) == 1 && l[0].sort == SInt {
		if _, ok := c.base.(*Term); ok && c.typ != nil && isInt(c.typ) {
			c.leaves[0].typ = c.typ
		}
	}
}

func (x *Exec) seqContent(h hstate, s Slice) *Term {
	if s.obj == 0 || s.ln.isK(0) {
		return Empty
	}
	switch x.get(h.st, s.obj, s.path).(type) {
	case *Term:
		return x.content(h.st, s)
	}
	return x.listContent(h.st, s).seq
}

func (l *leaf) template(it *Term) *Term {
	switch l.mode {
	case mConst:
		return l.v0
	case mLin:
		t := Add(l.v0, Mul(l.c, it))
		if l.mod != nil {
			return ModK(t, l.mod)
		}
		return t
	case mRep:
		return Add(l.v0, Mul(l.c, it), MulK(l.g.D, B(l.k)))
	case mBoolH:
		return l.g.X
	case mX:
		return Cat(l.v0, l.g.X)
	case mBig:
		return Cat(l.v0, Big(l.body, l.delta, Int(0), it))
	case mSub:
		return Cat(l.v0, QSub(l.sub, l.o0, l.g.D))
	case mWin:
		return QSub(l.sub, Add(l.o0, Mul(l.c, it)), l.v0.ln)
	case mSame, mHav:
		return l.g.X
	case mSuf:
		return QSub(l.v0, l.g.D, Sub(l.v0.ln, l.g.D))
	}
	panic("template")
}

var grpctr int

func newGroup() *group {
	grpctr++
	return &group{id: grpctr}
}

// setTemplate puts the templated values of all cells into h
func (x *Exec) setTemplate(s *summary, h hstate) {
	for _, c := range s.cells {
		if c.poison {
			x.cellSet(h, c, Poison{c.key})
			continue
		}
		if c.app {
			s0 := c.base.(Slice)
			content := c.leaves[0].template(s.it)
			c.leaves[0].cur = content
			sl := c.typ
			var v Value = content
			var el types.Type
			if sl != nil {
				el = sl.Underlying().(*types.Slice).Elem()
			}
			if el != nil && !isByte(el) {
				v = &ListV{typ: el, seq: content}
			}
			grow := Sub(content.ln, c.leaves[0].v0.ln)
			id := x.newObj(h.st, "appended", sl, v)
			x.cellSet(h, c, Slice{obj: id, off: Int(0), ln: content.ln, cap_: content.ln, isnil: And(s0.isnil, Eq(grow, Int(0)))})
			continue
		}
		if len(c.leaves) == 0 {
			continue
		}
		var ts []*Term
		for _, l := range c.leaves {
			l.cur = l.template(s.it)
			ts = append(ts, l.cur)
		}
		same := true
		for i, l := range c.leaves {
			if ts[i] != l.v0 {
				same = false
			}
		}
		if same {
			continue
		}
		v, _ := unflatten(c.base, ts)
		x.cellSet(h, c, v)
	}
}

func (s *summary) invariantTerm(t *Term) bool {
	for y := range Syms(t) {
		if y.id >= s.mark {
			return false
		}
	}
	return true
}

// terms without loop state except the iteration counter
func (s *summary) overIt(t *Term) bool {
	for y := range Syms(t) {
		if y != s.it && y.id >= s.mark {
			return false
		}
	}
	return true
}

// kept: the continuations that belong to the summary
func (x *Exec) kept(s *summary, cs []cont) (out []cont) {
	if s.stick == nil {
		return cs
	}
	v0, ok := s.c.h.fr.env[s.stick].(*Term)
	if !ok {
		return cs
	}
	for _, c := range cs {
		v, ok := c.h.fr.env[s.stick].(*Term)
		if !ok {
			return cs
		}
		c.it.st.assume(x, Eq(v, v0))
		c.h.st.assume(x, Eq(v, v0))
		if v != v0 && !x.feasible(c.it.st) {
			continue
		}
		out = append(out, c)
	}
	return
}

// sticky: a variable of the header that once changed never has its initial value again. The
// iterations before it changes are summarised on their own.
func (x *Exec) sticky(M *Loop, s *summary) *summary {
	var best *summary
	for _, cl := range s.cells {
		if cl.phi == nil || cl.poison || len(cl.leaves) != 1 {
			continue
		}
		if _, ok := cl.base.(*Term); !ok {
			continue
		}
		l := cl.leaves[0]
		if !(l.mode == mRep && l.c.isK(0) || l.mode == mBoolH) {
			continue
		}
		a := x.summariseFor(M, s.c, cl.phi)
		if a != nil && a.lossy < s.lossy && (best == nil || a.lossy < best.lossy) {
			best = a
		}
	}
	return best
}

func (x *Exec) summarise(M *Loop, c cont) (res *summary) {
	return x.summariseFor(M, c, nil)
}

func (x *Exec) summariseFor(M *Loop, c cont, stick *ssa.Phi) (res *summary) {
	x.scout++
	x.tol++
	nw := len(x.wlogs)
	defer func() {
		x.scout--
		x.tol--
		x.wlogs = x.wlogs[:nw]
		if e := recover(); e != nil {
			if u, ok := e.(Unsup); ok && !strings.Contains(u.msg, "time budget") {
				if dbgLoop {
					fmt.Fprintf(os.Stderr, "LOOP %s summarise: %s\n", M.name, u.msg)
				}
				res = nil
				return
			}
			panic(e)
		}
	}()
	s := &summary{c: c, stick: stick}
	s.it = ISym(fmt.Sprintf("it!%d", freshID()), b0, pow2(62))
	s.mark = s.it.id
	for _, in := range M.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		cl := &cell{key: "phi " + p.Name() + " " + p.Comment, phi: p, typ: p.Type()}
		x.initCell(s, cl)
		s.cells = append(s.cells, cl)
	}
	have := map[string]bool{}
	dropped := map[*Term]bool{}
	refined := false
	for round := 0; round < 40; round++ {
		x.checkTime()
		if round == 39 {
			return nil
		}
		s.facts = s.facts[:0]
		s.facts = append(s.facts, x.candidates(s, dropped)...)
		w := &wlog{base: x.nobj, locs: map[string]wloc{}}
		h := hstate{c.h.st.clone(), c.h.fr.clone()}
		x.setTemplate(s, h)
		x.prepare(s, h)
		fresh := ISym(fmt.Sprintf("mark!%d", freshID()), b0, b0).id
		// appended objects created by setTemplate are above w.base
		x.wlogs = append(x.wlogs, w)
		_, _, conts := x.splitHeader(M, item{st: h.st, fr: h.fr, blk: M.head})
		var all []cont
		for _, c2 := range conts {
			_, _, cs := x.iterate(M, c2)
			all = append(all, x.kept(s, cs)...)
		}
		for _, c2 := range all {
			x.skolemize(s, c2, fresh)
		}
		x.wlogs = x.wlogs[:nw]
		// newly written locations
		var ks []string
		for k := range w.locs {
			if !have[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		added := false
		for _, k := range ks {
			have[k] = true
			l := w.locs[k]
			if c.h.st.objs[l.obj] == nil && l.obj > 0 {
				continue
			}
			if covered(s.cells, l) {
				continue
			}
			// drop cells below this one
			var keep []*cell
			for _, o := range s.cells {
				if o.phi == nil && o.loc.obj == l.obj && l.key == "" && prefixOf(l.path, o.loc.path) {
					continue
				}
				keep = append(keep, o)
			}
			s.cells = keep
			if c.h.st.objs[l.obj] == nil {
				// a global first touched inside the loop
				for g, id := range x.gobj {
					if id == l.obj {
						x.globalObj(c.h.st, g)
					}
				}
			}
			cl := &cell{key: "heap " + c.h.st.objs[l.obj].name + k, loc: l}
			if c.h.st.objs[l.obj].typ != nil && l.key == "" {
				cl.typ = typeAt(c.h.st.objs[l.obj].typ, l.path)
			}
			x.initCell(s, cl)
			s.cells = append(s.cells, cl)
			added = true
		}
		if added {
			continue
		}
		changed := x.refine(s, all, dropped)
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "LOOP %s round %d: cells=%d conts=%d changed=%v\n", M.name, round, len(s.cells), len(all), changed)
			for _, cl := range s.cells {
				for i, l := range cl.leaves {
					if l.mode != mConst {
						fmt.Fprintf(os.Stderr, "    %s.%d mode=%d app=%v tmpl=%s\n", cl.key, i, l.mode, cl.app, trunc(l.template(s.it).String(), 300))
					}
				}
				if cl.poison {
					fmt.Fprintf(os.Stderr, "    %s POISON\n", cl.key)
				}
			}
		}
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "    facts %v\n", s.facts)
			for i, c2 := range all {
				fmt.Fprintf(os.Stderr, "  cont %d:\n", i)
				for p := c2.it.st.pc; p != nil && p != c.h.st.pc; p = p.up {
					fmt.Fprintf(os.Stderr, "       pc %s\n", trunc(p.t.String(), 300))
				}
				for _, cl := range s.cells {
					for j, a := range x.actual(s, cl, c2) {
						if cl.leaves[j].mode != mConst {
							fmt.Fprintf(os.Stderr, "       %s.%d := %s\n", cl.key, j, trunc(a.String(), 300))
						}
					}
				}
			}
		}
		if changed {
			continue
		}
		if !refined {
			refined = true
			if x.improve(s, all) {
				continue
			}
		}
		break
	}
	for _, cl := range s.cells {
		if cl.poison {
			s.lossy += 2
		}
		for _, l := range cl.leaves {
			switch l.mode {
			case mRep, mBoolH:
				s.lossy++
			case mX:
				s.lossy += 3
			case mSame, mHav, mWin:
				s.lossy += 4
			}
		}
	}
	return s
}

func prefixOf(a, b []Sel) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func covered(cells []*cell, l wloc) bool {
	for _, o := range cells {
		if o.phi == nil && o.loc.obj == l.obj && o.loc.key == l.key && prefixOf(o.loc.path, l.path) {
			return true
		}
	}
	return false
}

// prepare assumes the invariant facts in a templated state
func (x *Exec) prepare(s *summary, h hstate) {
	for _, f := range s.facts {
		h.st.assume(x, f)
	}
}

// candidates: inequality facts over the templates, minus those known not to be inductive
func (x *Exec) candidates(s *summary, dropped map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(f *Term) {
		if f == True || f == False || dropped[f] || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
	}
	var ints []*leaf
	gs := map[*group]bool{}
	for _, c := range s.cells {
		if c.poison {
			continue
		}
		for i, l := range c.leaves {
			if l.mode == mConst {
				continue
			}
			switch {
			case l.mode == mRep || l.mode == mLin:
				ints = append(ints, l)
				if l.typ != nil && l.mod == nil {
					lo, hi := typeRange(l.typ)
					add(Le(BigI(lo), l.template(s.it)))
					add(Le(l.template(s.it), BigI(hi)))
				}
				if l.mode == mRep {
					gs[l.g] = true
				}
				add(Le(Int(0), l.template(s.it)))
				if _, ok := c.base.(Slice); ok && !c.app && len(c.leaves) == 4 && i == 1 {
					// len <= cap
					add(Le(l.template(s.it), c.leaves[2].template(s.it)))
				}
			case l.mode == mX || l.mode == mSub || l.mode == mSuf:
				gs[l.g] = true
			}
			if l.mode == mX && l.g.X != nil {
				add(Le(Int(0), l.g.X.ln))
			}
			if l.mode == mSuf {
				add(Le(l.g.D, l.v0.ln))
			}
			if l.mode == mSub {
				add(Le(Add(l.o0, l.g.D), l.sub.ln))
			}
			if l.mode == mWin {
				add(Le(Add(l.o0, Mul(l.c, s.it), l.v0.ln), l.sub.ln))
			}
		}
	}
	var gl []*group
	for g := range gs {
		gl = append(gl, g)
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].id < gl[j].id })
	for _, g := range gl {
		if g.D != nil {
			add(Le(Int(0), g.D))
			add(Le(g.D, Int(0)))
		}
	}
	// upper bounds from values around
	var bs []*Term
	bseen := map[*Term]bool{}
	addb := func(t *Term) {
		if t == nil || t.sort != SInt || bseen[t] || len(bs) >= 10 {
			return
		}
		if _, ok := t.Const(); ok {
			return
		}
		bseen[t] = true
		bs = append(bs, t)
	}
	for _, v := range s.envVals() {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == s.c.it.fr.fn.Blocks[0] {
			continue
		}
		switch y := s.c.h.fr.env[v].(type) {
		case *Term:
			if y.sort == SInt {
				addb(y)
			} else if y.sort == SSeq {
				addb(y.ln)
			}
		case Slice:
			addb(y.ln)
		}
	}
	if len(ints) <= 8 {
		for _, l := range ints {
			for _, b := range bs {
				add(Le(l.template(s.it), b))
			}
		}
	}
	if x.summary {
		for _, c := range s.cells {
			for _, l := range c.leaves {
				if l.mode == mHav && l.g.X != nil {
					for _, b := range bs {
						add(Le(l.g.X.ln, b))
					}
				}
			}
		}
	}
	for _, c := range s.cells {
		if c.phi == nil && c.loc.key == "pos" && len(c.leaves) == 1 && !c.poison {
			if o := s.c.h.st.objs[c.loc.obj]; o != nil {
				if a, ok := o.val.(*Abs); ok && a.kind == "reader" {
					if t, ok := a.f["src"].(*Term); ok && t.sort == SSeq {
						add(Le(c.leaves[0].template(s.it), t.ln))
					}
				}
			}
		}
	}
	// the iterations follow the elements of a sequence that is read
	for _, g := range x.bigsAround(s) {
		n := Sub(g.args[3], g.args[2])
		add(Le(s.it, n))
		add(Le(AddK(s.it, 1), n))
	}
	// an index that stays before an element of a list (searches)
	if len(ints) <= 4 {
		for _, b := range x.listBoundaries(s) {
			for _, l := range ints {
				add(Le(l.template(s.it), b))
				add(Le(AddK(l.template(s.it), 1), b))
			}
		}
	}
	return out
}

// the variables at the loop header, in a fixed order
func (s *summary) envVals() []ssa.Value {
	var vs []ssa.Value
	for v := range s.c.h.fr.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Name() != vs[j].Name() {
			return vs[i].Name() < vs[j].Name()
		}
		return vs[i].Pos() < vs[j].Pos()
	})
	return vs
}

// positions between the parts of the lists at hand
func (x *Exec) listBoundaries(s *summary) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, v := range s.envVals() {
		y, ok := s.c.h.fr.env[v].(Slice)
		if !ok || y.obj <= 0 || s.c.h.st.objs[y.obj] == nil {
			continue
		}
		t, ok := s.c.h.st.objs[y.obj].val.(*ListV)
		if !ok {
			continue
		}
		n := Int(0)
		ss := segs(s.c.h.st.norm(t.seq))
		if len(ss) > 5 {
			continue
		}
		for _, g := range ss {
			n = Add(n, g.ln)
			if !seen[n] && s.invariantTerm(n) {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// top level repetitions in the inputs at hand
func (x *Exec) bigsAround(s *summary) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	addq := func(t *Term) {
		if t == nil || t.sort != SSeq {
			return
		}
		for _, g := range segs(s.c.h.st.norm(t)) {
			if g.op == OBig && !seen[g] && len(out) < 4 && g.id < s.mark {
				seen[g] = true
				out = append(out, g)
			}
		}
	}
	var ids []int
	for id := range s.c.h.st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if a, ok := s.c.h.st.objs[id].val.(*Abs); ok && a.kind == "reader" {
			if t, ok := a.f["src"].(*Term); ok {
				addq(t)
			}
		}
	}
	for _, v := range s.envVals() {
		switch y := s.c.h.fr.env[v].(type) {
		case *Term:
			addq(y)
		case Slice:
			if y.obj > 0 && s.c.h.st.objs[y.obj] != nil {
				if t, ok := s.c.h.st.objs[y.obj].val.(*Term); ok {
					addq(t)
				}
			}
		}
	}
	return out
}

// stepMap maps the loop state symbols to their values after one iteration
func (x *Exec) stepMap(s *summary, c cont) map[*Term]*Term {
	m := map[*Term]*Term{s.it: AddK(s.it, 1)}
	for _, cl := range s.cells {
		if cl.poison {
			continue
		}
		act := x.actual(s, cl, c)
		for i, l := range cl.leaves {
			if l.g == nil || act == nil {
				continue
			}
			a := act[i]
			switch l.mode {
			case mRep:
				if _, ok := m[l.g.D]; !ok {
					// k*D' = a - v0 - c*(it+1)
					d := Sub(Sub(a, l.v0), Mul(l.c, AddK(s.it, 1)))
					m[l.g.D] = MulK(d, B(l.k))
				}
			case mBoolH, mHav, mSame:
				m[l.g.X] = a
				if l.mode == mHav {
					m[l.g.X.ln] = a.ln
				}
			case mX:
				if _, ok := m[l.g.X]; !ok {
					d := x.growth(c, l.template(s.it), a)
					if d != nil {
						m[l.g.X] = Cat(l.g.X, d)
						if l.g.D != nil {
							m[l.g.D] = Add(l.g.D, d.ln)
						}
					}
				}
			case mSub:
				if _, ok := m[l.g.D]; !ok {
					m[l.g.D] = Sub(a.ln, l.v0.ln)
				}
			case mSuf:
				if _, ok := m[l.g.D]; !ok {
					m[l.g.D] = Sub(l.v0.ln, a.ln)
				}
			}
		}
	}
	return m
}

// growth returns d with a == t ++ d, nil when a does not extend t
func (x *Exec) growth(c cont, t, a *Term) *Term {
	st := c.it.st
	t, a = st.norm(t), st.norm(a)
	if t == a {
		return Empty
	}
	ts, as := segs(t), segs(a)
	i := 0
	for i < len(ts) && i < len(as) && ts[i] == as[i] {
		i++
	}
	if i == len(ts) {
		return Cat(as[i:]...)
	}
	t2, a2 := Cat(ts[i:]...), Cat(as[i:]...)
	if !x.le(st, t2.ln, a2.ln) {
		return nil
	}
	pre := x.slice(st, a2, Int(0), t2.ln, false)
	if pre != t2 && !x.prove(st, SeqEq(pre, t2)) {
		return nil
	}
	return x.slice(st, a2, t2.ln, Sub(a2.ln, t2.ln), false)
}

// actual leaf values of a cell at the end of an iteration; nil when the shape changed
func (x *Exec) actual(s *summary, cl *cell, c cont) []*Term {
	v := x.cellGet(c.h, cl)
	if cl.app {
		sl, ok := v.(Slice)
		if !ok {
			return nil
		}
		return []*Term{x.seqContent(c.h, sl)}
	}
	sh, l := flatten(v)
	if sh != cl.shape {
		return nil
	}
	return l
}

// refine adapts the templates to what one symbolic iteration did; false: they are invariant
func (x *Exec) refine(s *summary, conts []cont, dropped map[*Term]bool) bool {
	changed := false
	// facts
	type stepped struct {
		c cont
		m map[*Term]*Term
	}
	var steps []stepped
	shapeBad := false
	for _, cl := range s.cells {
		if cl.poison {
			continue
		}
		for _, c := range conts {
			if x.actual(s, cl, c) == nil && len(cl.leaves) >= 0 {
				v := x.cellGet(c.h, cl)
				sh, _ := flatten(v)
				if !cl.app && sh == cl.shape {
					continue
				}
				shapeBad = true
				changed = true
				x.reshape(s, cl, v)
				break
			}
		}
	}
	if shapeBad {
		return true
	}
	for _, c := range conts {
		steps = append(steps, stepped{c, x.stepMap(s, c)})
	}
	for _, cl := range s.cells {
		if cl.poison {
			continue
		}
		for i, l := range cl.leaves {
			for _, sp := range steps {
				a := x.actual(s, cl, sp.c)[i]
				want := Subst(l.template(s.it), sp.m)
				if a == want {
					continue
				}
				if x.prove(sp.c.it.st, Eq(a, want)) {
					continue
				}
				if dbgLoop {
					fmt.Println("BUMP", cl.key, "is", a, "WANT", want)
				}
				x.bump(s, cl, l, sp.c, a, conts, i)
				changed = true
				break
			}
		}
	}
	if changed {
		return true
	}
	// inequality facts: initially true and preserved
	for _, f := range s.facts {
		bad := false
		im := map[*Term]*Term{s.it: Int(0)}
		for _, cl := range s.cells {
			for _, l := range cl.leaves {
				if l.g != nil {
					if l.g.D != nil {
						im[l.g.D] = Int(0)
					}
					switch l.mode {
					case mX:
						im[l.g.X] = Empty
					case mBoolH, mHav, mSame:
						im[l.g.X] = l.v0
						if l.mode == mHav {
							im[l.g.X.ln] = l.v0.ln
						}
					}
				}
			}
		}
		if !x.prove(s.c.it.st, Subst(f, im)) {
			bad = true
		}
		for _, sp := range steps {
			if bad {
				break
			}
			if !x.prove(sp.c.it.st, Subst(f, sp.m)) {
				bad = true
			}
		}
		if bad {
			dropped[f] = true
			changed = true
		}
	}
	return changed
}

func (x *Exec) reshape(s *summary, cl *cell, v Value) {
	b, ok1 := cl.base.(Slice)
	_, ok2 := v.(Slice)
	if ok1 && ok2 && !cl.app && cl.typ != nil {
		cl.app = true
		cl.leaves = []*leaf{{v0: x.seqContent(s.c.h, b), c: Int(0)}}
		return
	}
	cl.poison = true
}

// bump moves a leaf to the next weaker template
func (x *Exec) bump(s *summary, cl *cell, l *leaf, c cont, a *Term, conts []cont, idx int) {
	t := l.template(s.it)
	switch t.sort {
	case SBool:
		l.mode = mBoolH
		l.g = newGroup()
		l.g.X = BSym(fmt.Sprintf("loopb!%d", freshID()))
	case SInt:
		switch l.mode {
		case mConst:
			d := Sub(x.unmod(c.h.st, a), t)
			same := s.invariantTerm(d)
			for _, c2 := range conts {
				if !same {
					break
				}
				ac := x.actual(s, cl, c2)
				if ac == nil || Sub(x.unmod(c2.h.st, ac[idx]), t) != d {
					same = false
				}
			}
			if same {
				l.mode = mLin
				l.c = d
				return
			}
		case mLin:
			if l.typ != nil && l.mod == nil {
				bits, sg := intBits(l.typ)
				if !sg && l.c.isK(1) {
					l.mod = pow2(bits)
					return
				}
			}
		case mRep:
			// the shared group does not fit
			l.g = newGroup()
			l.g.D = ISym(fmt.Sprintf("loopd!%d", freshID()), nil, nil)
			l.k = 1
			l.c = Int(0)
			return
		}
		// relate to other leaves by their deltas
		l.mod = nil
		l.mode = mRep
		l.k = 1
		l.c = Int(0)
		l.g = newGroup()
		l.g.D = ISym(fmt.Sprintf("loopd!%d", freshID()), nil, nil)
		x.shareInt(s, cl, l, conts, idx)
	case SSeq:
		switch l.mode {
		case mConst:
			grow := true
			for _, c2 := range conts {
				ac := x.actual(s, cl, c2)
				if x.growth(c2, t, ac[idx]) == nil {
					grow = false
					break
				}
			}
			if grow {
				l.mode = mX
				l.g = newGroup()
				x.newX(l.g, "loopx")
				return
			}
			same := true
			for _, c2 := range conts {
				ac := x.actual(s, cl, c2)
				if !x.prove(c2.it.st, Eq(ac[idx].ln, t.ln)) {
					same = false
				}
			}
			if same && x.window(s, cl, l, conts, idx) {
				return
			}
			if same {
				l.mode = mSame
				l.g = newGroup()
				l.g.X = QSym(fmt.Sprintf("loops!%d", freshID()), l.v0.ln)
				return
			}
			suf := l.v0.op != OCat
			for _, c2 := range conts {
				if !suf {
					break
				}
				ac := x.actual(s, cl, c2)[idx]
				if !x.isSuffix(c2.it.st, l.v0, ac) {
					suf = false
				}
			}
			if suf {
				l.mode = mSuf
				l.g = newGroup()
				l.g.D = ISym(fmt.Sprintf("loopd!%d", freshID()), nil, nil)
				return
			}
		case mBig:
			l.noBig = true
			l.mode = mX
			l.g = newGroup()
			x.newX(l.g, "loopx")
			return
		case mWin:
			l.mode = mSame
			l.noWin = true
			l.g = newGroup()
			l.g.X = QSym(fmt.Sprintf("loops!%d", freshID()), l.v0.ln)
			return
		case mSub:
			l.noSub = true
			l.mode = mX
			l.g = newGroup()
			x.newX(l.g, "loopx")
			return
		case mX:
			// maybe shared group does not fit
			l.tries++
			if l.tries < 2 {
				l.g = newGroup()
				x.newX(l.g, "loopx")
				return
			}
		}
		l.mode = mHav
		l.g = newGroup()
		l.g.X = QSym(fmt.Sprintf("looph!%d", freshID()), ISym(fmt.Sprintf("len:looph!%d", freshID()), b0, maxLen))
	}
}

// window: the content after an iteration is the part of an unchanging sequence at a constant
// distance behind the part it was before
func (x *Exec) window(s *summary, cl *cell, l *leaf, conts []cont, idx int) bool {
	if l.noWin || l.v0.sort != SSeq || l.v0.ln.isK(0) {
		return false
	}
	var A, d *Term
	o0 := Int(0)
	for _, c := range conts {
		a := c.it.st.norm(x.actual(s, cl, c)[idx])
		if a.op != OSub {
			return false
		}
		b, off := subview(a)
		b0, o := subview(l.v0)
		switch {
		case b0 == b:
			o0 = o
		case l.v0.op == OCat:
			// the first part of the sequence is in the initial content
			gs := segs(l.v0)
			last := gs[len(gs)-1]
			b2, o2 := subview(last)
			if b2 != b || !o2.isK(0) {
				return false
			}
			pre := Cat(gs[:len(gs)-1]...)
			b, off = Cat(pre, b), Add(pre.ln, off)
		default:
			return false
		}
		d1 := Sub(off, o0)
		if A != nil && (A != b || d != d1) || !s.invariantTerm(b) || !s.invariantTerm(d1) {
			return false
		}
		A, d = b, d1
	}
	if A == nil || d.isK(0) {
		return false
	}
	l.mode, l.sub, l.o0, l.c = mWin, A, o0, d
	return true
}

func (x *Exec) isSuffix(st *State, v0, a *Term) bool {
	if a == v0 {
		return true
	}
	if a.op == OSub {
		base, off := subview(a)
		b0, o0 := subview(v0)
		if base == b0 {
			return x.prove(st, And(Eq(Add(off, a.ln), Add(o0, v0.ln)), Le(o0, off)))
		}
	}
	return a.ln.isK(0)
}

func (x *Exec) newX(g *group, nm string) {
	g.D = ISym(fmt.Sprintf("len:%s!%d", nm, freshID()), b0, maxLen)
	g.X = QSym(fmt.Sprintf("%s!%d", nm, freshID()), g.D)
}

// shareInt looks for another leaf with the same delta (up to sign and a constant)
func (x *Exec) shareInt(s *summary, cl *cell, l *leaf, conts []cont, idx int) {
	if len(conts) == 0 {
		return
	}
	delta := func(cl *cell, l *leaf, i int, c cont, v0 *Term) *Term {
		ac := x.actual(s, cl, c)
		if ac == nil {
			return nil
		}
		return Sub(ac[i], v0)
	}
	_ = delta
	// deltas of this leaf w.r.t. its current value (it was const or lin so far)
	var mine []*Term
	old := l.v0
	for _, c := range conts {
		ac := x.actual(s, cl, c)
		cur, ok := x.cellCur(s, cl, idx)
		if !ok {
			cur = old
		}
		mine = append(mine, x.unmod(c.h.st, Sub(ac[idx], cur)))
	}
	for _, o := range s.cells {
		if o.poison {
			continue
		}
		for j, ol := range o.leaves {
			if ol == l || ol.g == nil || ol.g.D == nil {
				continue
			}
			var ref []*Term
			for _, c := range conts {
				ac := x.actual(s, o, c)
				if ac == nil {
					ref = nil
					break
				}
				cur, ok := x.cellCur(s, o, j)
				if !ok {
					ref = nil
					break
				}
				switch ol.mode {
				case mRep:
					d := x.unmod(c.h.st, Sub(Sub(ac[j], cur), ol.c))
					ref = append(ref, MulK(d, B(ol.k)))
				case mX, mSub:
					ref = append(ref, x.unmod(c.h.st, Sub(ac[j].ln, cur.ln)))
				default:
					ref = nil
				}
			}
			if len(ref) != len(mine) {
				continue
			}
			for _, k := range []int64{1, -1} {
				ok := true
				var cc *Term
				for i := range mine {
					d := Sub(mine[i], MulK(ref[i], B(k)))
					if i == 0 {
						cc = d
						if !s.invariantTerm(d) {
							ok = false
							break
						}
					} else if d != cc {
						ok = false
						break
					}
				}
				if ok && cc != nil {
					l.g = ol.g
					l.k = k
					l.c = cc
					return
				}
			}
		}
	}
}

// current templated value of leaf j of a cell as it was set up in the last round
func (x *Exec) cellCur(s *summary, cl *cell, j int) (*Term, bool) {
	l := cl.leaves[j]
	return l.cur, l.cur != nil
}

// improve replaces unknown growth by closed forms where the growth is known
func (x *Exec) improve(s *summary, conts []cont) bool {
	any := false
	type xl struct {
		cl *cell
		l  *leaf
		i  int
		ds []*Term
	}
	var xs []xl
	for _, cl := range s.cells {
		if cl.poison {
			continue
		}
		for i, l := range cl.leaves {
			if l.mode != mX {
				continue
			}
			var ds []*Term
			for _, c := range conts {
				d := x.growth(c, l.template(s.it), x.actual(s, cl, c)[i])
				if d == nil {
					ds = nil
					break
				}
				ds = append(ds, pathEqual(c.it.st, d))
				if dbgLoop {
					fmt.Println("GROW", cl.key, ds[len(ds)-1])
				}
			}
			if len(ds) == 0 {
				continue
			}
			xs = append(xs, xl{cl, l, i, ds})
		}
	}
	for _, e := range xs {
		l := e.l
		d := e.ds[0]
		// contiguous slices of one sequence
		sub := true
		var A *Term
		for k, y := range e.ds {
			if y.ln.isK(0) || x.isZero(conts[k].it.st, y.ln) {
				continue
			}
			b, _ := subview(y)
			if b.op == OLit || b.op == OCat || b.op == OQInt || !s.invariantTerm(b) || (A != nil && b != A) {
				sub = false
				break
			}
			A = b
		}
		if sub && A != nil && !l.noSub {
			// offset at iteration 0
			var o0 *Term
			for _, y := range e.ds {
				b, off := subview(y)
				if b == A {
					o := Sub(off, l.g.D) // candidate: off == o0 + D
					im := map[*Term]*Term{s.it: Int(0)}
					for _, c2 := range s.cells {
						for _, l2 := range c2.leaves {
							if l2.g != nil && l2.g.D != nil {
								im[l2.g.D] = Int(0)
							}
						}
					}
					o0 = Subst(o, im)
					break
				}
			}
			if o0 != nil && s.invariantTerm(o0) {
				good := true
				for k, y := range e.ds {
					b, off := subview(y)
					if b != A {
						continue
					}
					if Add(o0, l.g.D) != off && !x.prove(conts[k].it.st, Eq(Add(o0, l.g.D), off)) {
						good = false
					}
				}
				if good {
					l.mode = mSub
					l.sub = A
					l.o0 = o0
					any = true
					continue
				}
				if dl := x.subGroup(s, e.ds, A, o0); dl != nil {
					l.mode = mSub
					l.sub = A
					l.o0 = o0
					l.g = dl
					any = true
					continue
				}
				// offset advances with another group: off == o0 + (its own closed form); length of growth equals
				// the advance, checked by the next round
			}
		}
		if !l.noBig {
			// the output as a function of the iteration number, on every path
			same := false
			for i := 0; i < len(e.ds) && !same; i++ {
				d = e.ds[i]
				same = true
				for k, y := range e.ds {
					if y != d && !x.prove(conts[k].it.st, SeqEq(y, d)) {
						same = false
						break
					}
				}
			}
			if same {
				if b := x.skolem(s, d); b != nil {
					l.mode = mBig
					l.body = b
					l.delta = s.it
					any = true
					continue
				}
			}
		}
	}
	// share groups between logs that grow by the same amounts
	for i, e := range xs {
		if e.l.mode != mX {
			continue
		}
		for j := 0; j < i; j++ {
			f := xs[j]
			if f.l.mode != mX || f.l.g == e.l.g {
				continue
			}
			same := true
			for k := range e.ds {
				if e.ds[k] != f.ds[k] && !x.prove(conts[k].it.st, SeqEq(e.ds[k], f.ds[k])) {
					same = false
				}
			}
			if same {
				e.l.g = f.l.g
				any = true
				break
			}
		}
	}
	// integers that follow the length of a log
	for _, cl := range s.cells {
		if cl.poison {
			continue
		}
		for i, l := range cl.leaves {
			if l.mode != mRep {
				continue
			}
			shared := false
			for _, c2 := range s.cells {
				for _, l2 := range c2.leaves {
					if l2 != l && l2.g == l.g {
						shared = true
					}
				}
			}
			if shared {
				continue
			}
			g0 := l.g
			x.shareInt(s, cl, l, conts, i)
			if l.g != g0 {
				any = true
			}
		}
	}
	return any
}

// subGroup finds the group whose sum is the offset of the slices of A; that their length is what
// it grows by is checked in the next round
func (x *Exec) subGroup(s *summary, ds []*Term, A, o0 *Term) *group {
	for _, cl := range s.cells {
		for _, l := range cl.leaves {
			if l.g == nil || l.g.D == nil || l.mode != mRep && l.mode != mSuf {
				continue
			}
			ok := true
			for _, y := range ds {
				if b, off := subview(y); b == A && off != Add(o0, l.g.D) {
					ok = false
				}
			}
			if ok {
				return l.g
			}
		}
	}
	return nil
}

// pathEqual returns a plain slice of an input the path equates with d, if there is one
func pathEqual(st *State, d *Term) *Term {
	if d.op != OQApp {
		return d
	}
	for _, pf := range st.pc.list() {
		f := pf.t
		if f.op != OSeqEq {
			continue
		}
		for i := 0; i < 2; i++ {
			if y := f.args[1-i]; (y.op == OSub || y.op == OQSym) && st.norm(f.args[i]) == st.norm(d) {
				return y
			}
		}
	}
	return d
}

// skolem expresses an iteration's output as a function of the iteration number: symbols created
// in the iteration become functions of it
func (x *Exec) skolem(s *summary, d *Term) *Term {
	m := map[*Term]*Term{}
	var bad bool
	state := map[*Term]bool{}
	for _, c := range s.cells {
		for _, l := range c.leaves {
			if l.g != nil {
				if l.g.D != nil {
					state[l.g.D] = true
				}
				if l.g.X != nil {
					state[l.g.X] = true
				}
			}
		}
	}
	for _, y := range sortedTerms(Syms(d)) {
		if y == s.it || y.id < s.mark {
			continue
		}
		if state[y] || strings.HasPrefix(y.name, "$k") {
			if state[y] {
				bad = true
			}
			continue
		}
		switch y.op {
		case OISym:
			m[y] = IApp("sk:"+y.name, y.lo, y.hi, s.it)
		case OQSym:
			if _, ok := y.ln.Const(); ok {
				m[y] = QApp("sk:"+y.name, y.ln, s.it)
			} else if s.invariantTerm(y.ln) {
				m[y] = QApp("sk:"+y.name, y.ln, s.it)
			} else if y.ln.op == OISym && !state[y.ln] {
				m[y] = QApp("sk:"+y.name, IApp("sk:"+y.ln.name, y.ln.lo, y.ln.hi, s.it), s.it)
			} else {
				bad = true
			}
		default:
			bad = true
		}
	}
	if bad {
		return nil
	}
	return Subst(d, m)
}

// skolemize names the values drawn in the iteration that produced c by the Skolem functions of
// the summarised outputs, by definition of these functions at this iteration
func (x *Exec) skolemize(s *summary, c cont, mark int) {
	m := map[*Term]*Term{}
	back := map[*Term]*Term{}
	for _, cl := range s.cells {
		if cl.poison {
			continue
		}
		var act []*Term
		for i, l := range cl.leaves {
			if l.mode != mBig {
				continue
			}
			if act == nil {
				if act = x.actual(s, cl, c); act == nil {
					break
				}
			}
			d := x.growth(c, l.template(s.it), act[i])
			if d == nil {
				continue
			}
			m2, b2 := map[*Term]*Term{}, map[*Term]*Term{}
			if unify(d, l.body, s.it, mark, m, back, m2, b2, map[[2]*Term]bool{}) {
				for k, v := range m2 {
					m[k] = v
					back[v] = k
				}
			}
		}
	}
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		if k.sort == SInt {
			c.it.st.assumeRaw(Eq(k, m[k]))
		}
	}
	for _, k := range ks {
		if k.sort == SSeq {
			c.it.st.eqs = append(c.it.st.eqs, eqn{k, m[k]})
		}
	}
}

// unify matches a with pattern p, where applications of Skolem functions to the iteration
// number match symbols created after mark, one to one
func unify(a, p, it *Term, mark int, m, back, m2, b2 map[*Term]*Term, seen map[[2]*Term]bool) bool {
	if (p.op == OQApp || p.op == OIApp) && strings.HasPrefix(p.name, "sk:") && p.args[len(p.args)-1] == it {
		if a.op != OQSym && a.op != OISym || a.id < mark {
			return a == p
		}
		for _, t := range []map[*Term]*Term{m, m2} {
			if q, ok := t[a]; ok {
				return q == p
			}
		}
		for _, t := range []map[*Term]*Term{back, b2} {
			if q, ok := t[p]; ok {
				return q == a
			}
		}
		if a.sort != p.sort {
			return false
		}
		if a.sort == SSeq && !unify(a.ln, p.ln, it, mark, m, back, m2, b2, seen) {
			return false
		}
		if a.sort == SInt {
			if (a.lo == nil) != (p.lo == nil) || (a.hi == nil) != (p.hi == nil) || a.lo != nil && a.lo.Cmp(p.lo) != 0 || a.hi != nil && a.hi.Cmp(p.hi) != 0 {
				return false
			}
		}
		m2[a] = p
		b2[p] = a
		return true
	}
	if a == p {
		return true
	}
	if a.op != p.op || a.name != p.name || len(a.args) != len(p.args) || len(a.coefs) != len(p.coefs) || a.sort != p.sort || a.op == OQSym || a.op == OISym || a.op == OBSym {
		return false
	}
	if (a.k == nil) != (p.k == nil) || a.k != nil && a.k.Cmp(p.k) != 0 {
		return false
	}
	for i := range a.coefs {
		if a.coefs[i].Cmp(p.coefs[i]) != 0 {
			return false
		}
	}
	k := [2]*Term{a, p}
	if seen[k] {
		return true
	}
	for i := range a.args {
		if !unify(a.args[i], p.args[i], it, mark, m, back, m2, b2, seen) {
			return false
		}
	}
	seen[k] = true
	return true
}

// finish runs the body once more from the invariant, this time recording obligations
func (x *Exec) finish(M *Loop, s *summary) (outs []Outcome, exits []item) {
	return x.finishWith(M, s, nil, true)
}

// finishWith: for a loop split on a sticky variable, either the invariant alone is checked (inv),
// for all states, or the body is run for the states after the variable changed
func (x *Exec) finishWith(M *Loop, s *summary, split *ssa.Phi, inv bool) (outs []Outcome, exits []item) {
	h := hstate{s.c.h.st.clone(), s.c.h.fr.clone()}
	x.setTemplate(s, h)
	x.prepare(s, h)
	fresh := ISym(fmt.Sprintf("mark!%d", freshID()), b0, b0).id
	x.scout++ // the header's own obligations were recorded on the real paths
	base := h.st.pc
	var common map[*Term]bool
	var v0, v1 *Term
	if split != nil {
		v0, v1 = s.c.h.fr.env[split].(*Term), h.fr.env[split].(*Term)
		if !inv {
			h.st.assume(x, Not(Eq(v1, v0)))
			if !x.feasible(h.st) {
				x.scout--
				return
			}
		}
	}
	_, _, conts := x.splitHeader(M, item{st: h.st, fr: h.fr, blk: M.head})
	x.scout--
	for _, c2 := range conts {
		if !x.feasible(c2.it.st) {
			continue
		}
		if split != nil && inv {
			x.scout++
		}
		o, e, cs := x.iterate(M, c2)
		if split != nil && inv {
			x.scout--
		}
		outs = append(outs, o...)
		exits = append(exits, e...)
		cs = x.kept(s, cs)
		for _, c3 := range cs {
			x.skolemize(s, c3, fresh)
			m := map[*Term]bool{}
			for p := c3.it.st.pc; p != nil && p != base; p = p.up {
				f := c3.it.st.norm(p.t)
				if (common == nil || common[f]) && s.overIt(f) && Syms(f)[s.it] {
					m[f] = true
				}
			}
			common = m
		}
		if x.scout == 0 && (split == nil || inv) {
			for _, c3 := range cs {
				if split != nil {
					v, ok := c3.h.fr.env[split].(*Term)
					if !ok {
						unsup("loop state of %s changed shape", M.name)
					}
					x.check(c3.it.st, "loop-invariant", M.name, x.posStr(M.head.Instrs[0].Pos()), "", Or(Eq(v1, v0), Not(Eq(v, v0))))
				}
				m := x.stepMap(s, c3)
				for _, cl := range s.cells {
					if cl.poison {
						continue
					}
					ac := x.actual(s, cl, c3)
					if ac == nil {
						unsup("loop state of %s changed shape", M.name)
					}
					var gs []*Term
					for i, l := range cl.leaves {
						gs = append(gs, Eq(ac[i], Subst(l.template(s.it), m)))
					}
					x.check(c3.it.st, "loop-invariant", M.name, x.posStr(M.head.Instrs[0].Pos()), "", And(gs...))
				}
				for _, f := range s.facts {
					x.check(c3.it.st, "loop-invariant", M.name, x.posStr(M.head.Instrs[0].Pos()), "", Subst(f, m))
				}
			}
		}
	}
	if x.scout == 0 {
		x.loops[M.name]++
	}
	// what every completed iteration found out about its own number
	var fs []*Term
	for t := range common {
		fs = append(fs, t)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, e := range exits {
		for _, f := range fs {
			e.st.qfacts = append(e.st.qfacts, qfact{s.it, s.it, f})
		}
	}
	return
}

// instances of the facts known for every iteration that mention parts of the goal
func (st *State) instances(g *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, q := range st.qfacts {
		var pats []*Term
		subterms(q.phi, map[*Term]bool{}, func(p *Term) {
			if (p.op == OIApp || p.op == OQApp || p.op == OBApp || p.op == OAt) && Syms(p)[q.v] {
				pats = append(pats, p)
			}
		})
		subterms(g, map[*Term]bool{}, func(t *Term) {
			for _, p := range pats {
				if p.op != t.op || p.name != t.name {
					continue
				}
				var b *Term
				if !matchIdx(p, t, q.v, &b) || b == nil || b == q.v {
					continue
				}
				r := Or(Le0(Add(b, Int(1))), Le0(Sub(q.n, b)), Subst(q.phi, map[*Term]*Term{q.v: b}))
				if !seen[r] {
					seen[r] = true
					out = append(out, r)
				}
			}
		})
	}
	return out
}

func subterms(t *Term, seen map[*Term]bool, f func(t *Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		subterms(a, seen, f)
	}
}

func matchIdx(p, t, v *Term, b **Term) bool {
	if !Syms(p)[v] {
		return p == t
	}
	if p.sort == SInt {
		if d := Sub(p, v); !Syms(d)[v] {
			r := Sub(t, d)
			if *b == nil {
				*b = r
			}
			return *b == r
		}
		if d := Add(p, v); !Syms(d)[v] {
			r := Sub(d, t)
			if *b == nil {
				*b = r
			}
			return *b == r
		}
	}
	if p.op != t.op || p.name != t.name || len(p.args) != len(t.args) {
		return false
	}
	for i := range p.args {
		if !matchIdx(p.args[i], t.args[i], v, b) {
			return false
		}
	}
	return true
}
