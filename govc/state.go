package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// ---------- path conditions

func (s *State) assume(x *Exec, c *Term) {
	c = x.simpBool(s, c)
	s.assumeRaw(c)
}

func (s *State) assumeRaw(c *Term) {
	if c == True {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			s.assumeRaw(a)
		}
		return
	}
	d := 1
	if s.pc != nil {
		d = s.pc.d + 1
	}
	s.pc = mkPC(s.pc, c, d)
	if c.op == OLe0 || c.op == OEq0 {
		s.fixed(c)
	}
	if c.op == OLe0 && s.pc.has(Le0(MulK(c.args[0], bm1))) {
		s.assumeRaw(Eq0(c.args[0]))
	}
	if c.op == OSeqEq {
		a, b := c.args[0], c.args[1]
		if better(b, a) {
			a, b = b, a
		}
		// rewrite b to a
		if canRewrite(b) && !occurs(b, a) {
			s.eqs = append(s.eqs, eqn{b, a})
		}
	}
}

// fixed records a symbol whose value is determined by the new fact
func (s *State) fixed(c *Term) {
	a := c.args[0]
	k, as, cs := linview(a)
	if c.op == OEq0 || s.pc.has(intern(&Term{op: OLe0, sort: SBool, args: []*Term{Neg(a)}})) {
		s.solve(a)
	}
	if len(as) != 1 || as[0].op != OISym && (as[0].op != OIApp || c.op != OEq0 || (!strings.Contains(as[0].name, "len") || strings.HasPrefix(as[0].name, "pb.") || strings.HasPrefix(as[0].name, "len:fld")) && as[0].name != "bigmod") {
		return
	}
	y := as[0]
	if c.op == OEq0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(new(big.Int).Neg(k), cs[0], m)
		if m.Sign() == 0 {
			s.eqs = append(s.eqs, eqn{y, BigI(q)})
		}
		return
	}
	// cs*y + k <= 0
	if cs[0].Sign() > 0 {
		q := new(big.Int).Neg(k)
		q.Div(q, cs[0]) // y <= q
		if y.lo != nil && y.lo.Cmp(q) == 0 {
			s.eqs = append(s.eqs, eqn{y, BigI(q)})
		}
	}
}

// solve eliminates an iteration counter determined by a == 0
func (s *State) solve(a *Term) {
	_, as, cs := linview(a)
	var best *Term
	var bc *big.Int
	for i, y := range as {
		if y.op != OISym || !strings.HasPrefix(y.name, "it!") || cs[i].CmpAbs(b1) != 0 {
			continue
		}
		n := 0
		for _, z := range as {
			if Has(z, y) {
				n++
			}
		}
		if n == 1 && (best == nil || y.id < best.id) {
			best, bc = y, cs[i]
		}
	}
	if best == nil || len(as) < 2 {
		return
	}
	for _, e := range s.eqs {
		if e.from == best {
			return
		}
	}
	// bc*y + rest == 0
	rest := Sub(a, MulK(best, bc))
	s.eqs = append(s.eqs, eqn{best, MulK(rest, new(big.Int).Neg(bc))})
	// restate what is known in terms of the other symbols
	m := map[*Term]*Term{best: s.eqs[len(s.eqs)-1].to}
	var fs []*Term
	for p := s.pc; p != nil; p = p.up {
		if p.t.op == OSeqEq || !Has(p.t, best) {
			continue
		}
		if f := Subst(p.t, m); f != p.t && f != True {
			fs = append(fs, f)
		}
	}
	if best.lo != nil {
		fs = append(fs, Le(BigI(best.lo), m[best]))
	}
	if best.hi != nil {
		fs = append(fs, Le(m[best], BigI(best.hi)))
	}
	for i := len(fs) - 1; i >= 0; i-- {
		s.assumeRaw(fs[i])
	}
}

func canRewrite(t *Term) bool {
	return t.op == OQSym || t.op == OSub || t.op == OQApp
}

// is a a better representative than b?
func better(a, b *Term) bool { return rank(a) < rank(b) }
func rank(t *Term) int {
	switch t.op {
	case OLit:
		return 0
	case OQInt, ORep:
		return 1
	case OQApp:
		if t.name == "file" {
			return 4
		}
		return 2
	case OCat, OBig:
		return 3
	case OSub:
		return 5
	}
	return 6
}

func occurs(x, in *Term) bool {
	if x == in {
		return true
	}
	for _, a := range in.args {
		if occurs(x, a) {
			return true
		}
	}
	return false
}

func (s *State) norm(t *Term) *Term {
	for i := 0; i < 4 && len(s.eqs) > 0; i++ {
		m := map[*Term]*Term{}
		for _, e := range s.eqs {
			if _, ok := m[e.from]; !ok {
				m[e.from] = e.to
			}
		}
		n := Subst(t, m)
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// simplify a boolean in context: sequence equations are aligned into smaller ones
func (x *Exec) simpBool(st *State, c *Term) *Term {
	if len(st.eqs) > 0 && (c.op == OLe0 || c.op == OEq0) {
		c = st.norm(c)
	}
	if c.op == OEq0 && c.args[0].op == OMod && c.args[0].k.BitLen() > 16 {
		a, k := c.args[0].args[0], c.args[0].k
		if x.prove(st, And(Le(Int(1), a), Lt(a, BigI(new(big.Int).Lsh(k, 1))))) {
			return Eq(a, BigI(k))
		}
	}
	switch c.op {
	case OSeqEq:
		return x.alignEq(st, c.args[0], c.args[1])
	case ONot:
		return Not(x.simpBool(st, c.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(c.args))
		for i, a := range c.args {
			as[i] = x.simpBool(st, a)
		}
		return andor(c.op, as)
	}
	return c
}

// ---------- proving

// quick proof (session solver)
func (x *Exec) prove(st *State, g *Term) bool { return x.prove1(st, g, 0) }
func (x *Exec) prove1(st *State, g *Term, depth int) bool {
	if g == True {
		return true
	}
	if g == False {
		return x.s.unsat(st.pc, True)
	}
	switch g.op {
	case OBApp:
		if len(st.eqs) > 0 {
			n := st.norm(g)
			for p := st.pc; p != nil; p = p.up {
				if p.t.op == OBApp && p.t.name == g.name && st.norm(p.t) == n {
					return true
				}
			}
		}
		if depth < 2 && x.knownApp(st, g, false, depth) {
			return true
		}
	case ONot:
		if depth < 2 && g.args[0].op == OBApp && x.knownApp(st, g.args[0], true, depth) {
			return true
		}
	case OAnd:
		// equalities first: they help with the rest
		s2 := st
		for k := 0; k < 2; k++ {
			for _, a := range g.args {
				if (a.op == OEq0) != (k == 0) {
					continue
				}
				if !x.prove1(s2, a, depth) && (s2 == st || !x.prove1(s2, s2.norm(a), depth)) {
					return false
				}
				if k == 0 {
					if s2 == st {
						s2 = st.clone()
					}
					s2.assumeRaw(a)
				}
			}
		}
		return true
	case OSeqEq:
		if depth < 4 {
			if r := SeqEq(pathRewrite(st, g.args[0]), pathRewrite(st, g.args[1])); r != g && x.prove1(st, r, depth+1) {
				return true
			}
			r := x.alignEq(st, g.args[0], g.args[1])
			if r != g {
				return x.prove1(st, r, depth+1)
			}
		}
		if x.s.unsat(st.pc, Not(g)) {
			return true
		}
		if depth < 4 {
			r := x.eqRewrite(st, g)
			return r != g && x.prove1(st, r, depth+1)
		}
		return false
	}
	return x.s.unsat(st.pc, Not(g))
}

// eqRewrite replaces the slices in the arguments of functions by what the path equates with
// slices of the same place and length
func (x *Exec) eqRewrite(st *State, g *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var find func(t *Term, in bool)
	find = func(t *Term, in bool) {
		if seen[t] {
			return
		}
		if in {
			seen[t] = true
		}
		if in && t.op == OSub {
			b, off := subview(t)
			for _, e := range st.eqs {
				if e.from.op != OSub || e.from == t || e.to == t {
					continue
				}
				b2, off2 := subview(e.from)
				if b2 == b && x.s.unsat(st.pc, Not(And(Eq(off, off2), Eq(t.ln, e.from.ln)))) {
					m[t] = e.to
					break
				}
			}
		}
		for _, a := range t.args {
			find(a, in || t.op == OQApp)
		}
	}
	for _, a := range g.args {
		find(a, false)
	}
	if len(m) == 0 {
		return g
	}
	return Subst(g, m)
}

// is the predicate known to hold (or not to) for arguments equal to these?
func (x *Exec) knownApp(st *State, g *Term, neg bool, depth int) bool {
	if g.name != "edverify" && g.name != "openok" {
		return false
	}
	for p := st.pc; p != nil; p = p.up {
		f := p.t
		if neg {
			if f.op != ONot {
				continue
			}
			f = f.args[0]
		}
		if f.op != OBApp || f.name != g.name || len(f.args) != len(g.args) {
			continue
		}
		all := true
		for i, a := range f.args {
			if a != g.args[i] && !x.prove1(st, SeqEq(a, g.args[i]), depth+1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// pathRewrite replaces the parts of a sequence by input slices the path equates them with
func pathRewrite(st *State, t *Term) *Term {
	var out []*Term
	for _, p := range segs(t) {
		out = append(out, pathEqual(st, p))
	}
	return Cat(out...)
}

func pathGoal(st *State, c *Term) *Term {
	switch c.op {
	case OSeqEq:
		return SeqEq(pathRewrite(st, c.args[0]), pathRewrite(st, c.args[1]))
	case OAnd:
		as := make([]*Term, len(c.args))
		for i, a := range c.args {
			as[i] = pathGoal(st, a)
		}
		return And(as...)
	}
	return c
}

func (x *Exec) feasible(st *State) bool { return !x.s.unsat(st.pc, True) }

// decide returns 1 (must hold), 0 (must not), -1 (both possible)
func (x *Exec) decide(st *State, c *Term) (int, *Term) {
	c = x.simpBool(st, c)
	if c == True {
		return 1, c
	}
	if c == False {
		return 0, c
	}
	if x.s.unsat(st.pc, c) {
		return 0, c
	}
	if x.s.unsat(st.pc, Not(c)) {
		return 1, c
	}
	if len(st.qfacts) > 0 && !st.noq {
		if ins := st.instances(c); len(ins) > 0 {
			s2 := st.clone()
			s2.noq = true
			for _, t := range ins {
				s2.assumeRaw(t)
			}
			return x.decide(s2, c)
		}
	}
	return -1, c
}

// fork on a condition; calls f for every feasible side
func (x *Exec) fork(st *State, c *Term, f func(st *State, v bool)) {
	d, c := x.decide(st, c)
	switch d {
	case 1:
		f(st, true)
	case 0:
		f(st, false)
	default:
		s2 := st.clone()
		st.assumeRaw(c)
		s2.assumeRaw(Not(c))
		f(st, true)
		f(s2, false)
	}
}

// ---------- sequences in context

func (x *Exec) isZero(st *State, t *Term) bool {
	if t.isK(0) {
		return true
	}
	if lo, _ := Bounds(t); lo != nil && lo.Sign() > 0 {
		return false
	}
	return x.prove(st, Eq(t, Int(0)))
}

// le proves a <= b
func (x *Exec) le(st *State, a, b *Term) bool {
	c := Le(a, b)
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	return x.prove(st, c)
}

// slice s[off:off+n]; the caller guarantees it is in range. split: request case splits
func (x *Exec) slice(st *State, s, off, n *Term, split bool) *Term {
	if len(st.eqs) > 0 {
		off, n = st.norm(off), st.norm(n)
	}
	if n.isK(0) {
		return Empty
	}
	if off.isK(0) && n == s.ln {
		return s
	}
	simple := func() bool {
		switch s.op {
		case OQSym, OQApp, OLit, OQInt, ORep:
			return true
		case OSub:
			switch s.args[0].op {
			case OCat, OBig:
				return false
			}
			return true
		}
		return false
	}
	if simple() {
		return QSub(s, off, n)
	}
	if s.op == OSub {
		// slice of an unresolved slice
		return x.slice(st, s.args[0], Add(s.args[1], off), n, split)
	}
	ss := segs(s)
	rem := off
	i := 0
	for steps := 0; i < len(ss); steps++ {
		if steps > 200 {
			unsup("slice of %s at %s: no progress", trunc(s.String(), 300), trunc(off.String(), 300))
		}
		g := ss[i]
		if rem.isK(0) {
			break
		}
		if x.le(st, g.ln, rem) {
			rem = Sub(rem, g.ln)
			i++
			continue
		}
		if x.isZero(st, rem) {
			rem = Int(0)
			break
		}
		// starts inside g
		if g.op == OBig {
			r, rest := x.bigAt(st, g, rem, split)
			if r == nil {
				return QSub(Cat(ss[i:]...), rem, n)
			}
			ns := append([]*Term{}, rest...)
			ns = append(ns, ss[i+1:]...)
			ss = ns
			i = 0
			rem = r
			continue
		}
		if split && g.ln.isK(1) && g.op == OQApp && strings.HasPrefix(g.name, "rec:") {
			panic(SplitReq{Le(g.ln, rem)})
		}
		if x.le(st, rem, g.ln) {
			// strictly inside
			avail := Sub(g.ln, rem)
			if x.le(st, n, avail) {
				return QSub(g, rem, n)
			}
			if x.le(st, avail, n) {
				first := QSub(g, rem, avail)
				return Cat(first, x.take(st, ss[i+1:], Sub(n, avail), split))
			}
			if split {
				panic(SplitReq{Le(n, avail)})
			}
			return QSub(Cat(ss[i:]...), rem, n)
		}
		if split {
			panic(SplitReq{Le(g.ln, rem)})
		}
		return QSub(Cat(ss[i:]...), rem, n)
	}
	return x.take(st, ss[i:], n, split)
}

// bigAt: offset rem strictly inside Big g. Returns offset within the returned segments.
func (x *Exec) bigAt(st *State, g, rem *Term, split bool) (*Term, []*Term) {
	body, bv, lo, hi := g.args[0], g.args[1], g.args[2], g.args[3]
	if rem.op == OIApp && rem.name == "biglen" && rem.args[0] == body && rem.args[1] == bv && rem.args[2] == lo {
		return Int(0), []*Term{mkBig(body, bv, rem.args[3], hi)}
	}
	L := body.ln
	if Has(L, bv) {
		return nil, nil
	}
	try := func(r *Term) *Term {
		return PolyDiv(Sub(rem, r), L)
	}
	k, _, _ := linview(rem)
	cands := []*Term{Int(0), BigI(k)}
	if c, ok := L.Const(); ok && c.Sign() > 0 {
		cands = append(cands, BigI(new(big.Int).Mod(k, c)))
	}
	if lk, _, _ := linview(L); lk.Sign() > 0 {
		for c := int64(1); c <= 4; c++ {
			if r := new(big.Int).Sub(k, new(big.Int).Mul(lk, B(c))); r.Sign() >= 0 {
				cands = append(cands, BigI(r))
			}
		}
	}
	for _, r := range cands {
		q := try(r)
		if q == nil {
			continue
		}
		if !r.isK(0) && !x.prove(st, And(Le(Int(0), r), Lt(r, L))) {
			continue
		}
		if !x.le(st, Int(0), q) {
			continue
		}
		j := Add(lo, q)
		if !x.prove(st, Lt(j, hi)) {
			if x.prove(st, Le(hi, j)) {
				return Sub(rem, g.ln), []*Term{}
			}
			if split {
				panic(SplitReq{Lt(j, hi)})
			}
			return nil, nil
		}
		inst := Subst(body, map[*Term]*Term{bv: j})
		return r, append(append([]*Term{}, segs(inst)...), segs(mkBig(body, bv, AddK(j, 1), hi))...)
	}
	return nil, nil
}

func (x *Exec) take(st *State, ss []*Term, n *Term, split bool) *Term {
	var out []*Term
	for i := 0; i < len(ss); i++ {
		if n.isK(0) {
			break
		}
		g := ss[i]
		if g.ln == n {
			out = append(out, g)
			return Cat(out...)
		}
		if i > 0 || true {
			if lo, _ := Bounds(n); lo == nil || lo.Sign() <= 0 {
				if x.isZero(st, n) {
					break
				}
			}
		}
		if g.op == OBig {
			body, bv, lo, hi := g.args[0], g.args[1], g.args[2], g.args[3]
			if q := (*Term)(nil); !Has(body.ln, bv) {
				if x.prove(st, Le(g.ln, n)) {
					out = append(out, g)
					n = Sub(n, g.ln)
					continue
				}
				q = PolyDiv(n, body.ln)
				if q != nil && x.prove(st, And(Le(Int(0), q), Le(Add(lo, q), hi))) {
					out = append(out, mkBig(body, bv, lo, Add(lo, q)))
					return Cat(out...)
				}
			}
			if !x.prove(st, Lt(lo, hi)) {
				if x.prove(st, Le(hi, lo)) {
					continue
				}
				if split {
					panic(SplitReq{Lt(lo, hi)})
				}
				out = append(out, QSub(Cat(ss[i:]...), Int(0), n))
				return Cat(out...)
			}
			inst := Subst(body, map[*Term]*Term{bv: lo})
			ns := append([]*Term{}, segs(inst)...)
			ns = append(ns, segs(mkBig(body, bv, AddK(lo, 1), hi))...)
			ns = append(ns, ss[i+1:]...)
			ss = ns
			i = -1
			continue
		}
		if x.le(st, g.ln, n) {
			out = append(out, g)
			n = Sub(n, g.ln)
			continue
		}
		if x.le(st, n, g.ln) {
			out = append(out, QSub(g, Int(0), n))
			return Cat(out...)
		}
		if split {
			panic(SplitReq{Le(g.ln, n)})
		}
		out = append(out, QSub(Cat(ss[i:]...), Int(0), n))
		return Cat(out...)
	}
	return Cat(out...)
}

func (x *Exec) at(st *State, s, i *Term) *Term {
	if len(st.eqs) > 0 {
		i = st.norm(i)
	}
	if s.op == OCat || s.op == OBig {
		g := x.slice(st, s, i, Int(1), false)
		return x.openVarint(st, At(g, Int(0)))
	}
	return x.openVarint(st, At(s, i))
}

// replace s[off:off+len(d)] by d
func (x *Exec) splice(st *State, s, off, d *Term) *Term {
	end := Add(off, d.ln)
	return Cat(x.slice(st, s, Int(0), off, false), d, x.slice(st, s, end, Sub(s.ln, end), false))
}

// alignEq reduces a sequence equation to an equivalent conjunction of smaller facts
func (x *Exec) alignEq(st *State, a, b *Term) *Term {
	a, b = st.norm(a), st.norm(b)
	a, b = st.norm(a), st.norm(b)
	c := SeqEq(a, b)
	if c == True || c == False {
		return c
	}
	s2 := st
	if a.ln != b.ln && !x.prove(st, Eq(a.ln, b.ln)) {
		s2 = st.clone()
		s2.assume(x, Eq(a.ln, b.ln))
		if !x.feasible(s2) {
			return False
		}
	}
	r, ok := x.align(s2, segs(a), segs(b), 0)
	if !ok {
		return c
	}
	if a.ln != b.ln && r != False {
		r = And(Eq(a.ln, b.ln), r)
	}
	return r
}

func (x *Exec) align(st *State, A, B []*Term, depth int) (*Term, bool) {
	if depth > 30 {
		return nil, false
	}
	var out []*Term
	for steps := 0; ; steps++ {
		if steps > 400 {
			return nil, false
		}
		if dbgAlign && x.scout == 0 && depth < 2 {
			println("ALIGN", depth, "\n   ", Cat(A...).String(), "\n   ", Cat(B...).String())
		}
		for len(A) > 0 && x.isZero(st, A[0].ln) {
			A = A[1:]
		}
		for len(B) > 0 && x.isZero(st, B[0].ln) {
			B = B[1:]
		}
		if len(A) == 0 || len(B) == 0 {
			rest := A
			if len(A) == 0 {
				rest = B
			}
			if len(rest) > 0 {
				out = append(out, Eq(Cat(rest...).ln, Int(0)))
			}
			return And(out...), true
		}
		p, q := A[0], B[0]
		if p == q {
			A, B = A[1:], B[1:]
			continue
		}
		// identical tails
		if A[len(A)-1] == B[len(B)-1] {
			A, B = A[:len(A)-1], B[:len(B)-1]
			continue
		}
		if p.op == OBig && q.op == OBig && p.args[2] == q.args[2] {
			if p.args[3] == q.args[3] || x.prove(st, Eq(p.args[3], q.args[3])) {
				if c, ok := x.bigBodyEq(st, p, q, depth); ok {
					out = append(out, c)
					A, B = A[1:], B[1:]
					continue
				}
				return nil, false
			}
			if p.args[0] == q.args[0] {
				// same family, different ends
				if x.prove(st, Le(p.args[3], q.args[3])) {
					B = append([]*Term{mkBig(q.args[0], q.args[1], p.args[3], q.args[3])}, B[1:]...)
					A = A[1:]
					continue
				}
				if x.prove(st, Le(q.args[3], p.args[3])) {
					A = append([]*Term{mkBig(p.args[0], p.args[1], q.args[3], p.args[3])}, A[1:]...)
					B = B[1:]
					continue
				}
			}
		}
		if p.op == OBig && q.op == OBig && p.args[2] == q.args[2] && depth < 8 {
			// one iteration more on one side
			np, nq, done := p.args[3], q.args[3], false
			for _, d := range []int64{1, -1} {
				if v := AddK(nq, d); np != v && x.prove(st, And(Eq(np, v), Le(p.args[2], np), Le(p.args[2], nq))) {
					A = append([]*Term{mkBig(p.args[0], p.args[1], p.args[2], v)}, A[1:]...)
					if a := unitAtom(np); a != nil && !occurs(a, v) {
						m := map[*Term]*Term{a: Add(v, Sub(a, np))}
						A, B = segs(Subst(Cat(A...), m)), segs(Subst(Cat(B...), m))
					}
					if d > 0 {
						A = append(segs(Cat(mkBig(p.args[0], p.args[1], p.args[2], nq), mkBig(p.args[0], p.args[1], nq, v))), A[1:]...)
					} else {
						B = append(segs(Cat(mkBig(q.args[0], q.args[1], q.args[2], v), mkBig(q.args[0], q.args[1], v, nq))), B[1:]...)
					}
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		if p.op == OBig && q.op == OBig && depth < 8 {
			bp, bq := p.args[0].ln, q.args[0].ln
			if !occurs(p.args[1], bp) && !occurs(q.args[1], bq) && (bp == bq || x.prove(st, Eq(bp, bq))) {
				if q.args[2] != p.args[2] { // same start
					d := Sub(q.args[2], p.args[2])
					q = mkBig(Subst(q.args[0], map[*Term]*Term{q.args[1]: Add(q.args[1], d)}), q.args[1], p.args[2], Sub(q.args[3], d))
				}
				np, nq := p.args[3], Int(0)
				if q.op == OBig {
					nq = q.args[3]
				}
				if q.op == OBig && x.prove(st, Le(nq, np)) {
					A = append(segs(Cat(mkBig(p.args[0], p.args[1], p.args[2], nq), mkBig(p.args[0], p.args[1], nq, np))), A[1:]...)
					B = append([]*Term{q}, B[1:]...)
					if len(A) > 0 && A[0].op == OBig && A[0].args[3] == nq {
						continue
					}
				} else if q.op == OBig && x.prove(st, Le(np, nq)) {
					B = append(segs(Cat(mkBig(q.args[0], q.args[1], q.args[2], np), mkBig(q.args[0], q.args[1], np, nq))), B[1:]...)
					if len(B) > 0 && B[0].op == OBig && B[0].args[3] == np {
						continue
					}
				}
				p, q = A[0], B[0]
			}
		}
		if p.ln == q.ln || x.prove(st, Eq(p.ln, q.ln)) {
			c, ok := x.leafEq(st, p, q, depth)
			if !ok {
				return nil, false
			}
			if c == False {
				return False, true
			}
			out = append(out, c)
			A, B = A[1:], B[1:]
			continue
		}
		if p.op == OBig && x.prove(st, Lt(p.args[2], p.args[3])) && (q.op != OBig || p.deep >= q.deep) {
			if _, ok := q.ln.Const(); ok || q.op != OBig || true {
				A = append(unfoldFront(p), A[1:]...)
				continue
			}
		}
		if q.op == OBig && x.prove(st, Lt(q.args[2], q.args[3])) {
			B = append(unfoldFront(q), B[1:]...)
			continue
		}
		if x.le(st, p.ln, q.ln) {
			if q.op == OBig {
				return nil, false
			}
			q1, q2 := QSub(q, Int(0), p.ln), QSub(q, p.ln, Sub(q.ln, p.ln))
			B = append([]*Term{q1, q2}, B[1:]...)
			if q1.op == OSub && q1.args[0] == q && p.op != OBig {
				// fallthrough to leaf comparison next round
			}
			continue
		}
		if x.le(st, q.ln, p.ln) {
			if p.op == OBig {
				return nil, false
			}
			p1, p2 := QSub(p, Int(0), q.ln), QSub(p, q.ln, Sub(p.ln, q.ln))
			A = append([]*Term{p1, p2}, A[1:]...)
			continue
		}
		return nil, false
	}
}

// unitAtom: the unknown of an index expression a+k
func unitAtom(t *Term) *Term {
	switch t.op {
	case OISym, ODiv, OIApp:
		return t
	case OLin:
		if len(t.args) == 1 && t.coefs[0].IsInt64() && t.coefs[0].Int64() == 1 {
			return unitAtom(t.args[0])
		}
	}
	return nil
}

func unfoldFront(p *Term) []*Term {
	inst := Subst(p.args[0], map[*Term]*Term{p.args[1]: p.args[2]})
	r := append([]*Term{}, segs(inst)...)
	return append(r, segs(mkBig(p.args[0], p.args[1], AddK(p.args[2], 1), p.args[3]))...)
}

func (x *Exec) bigBodyEq(st *State, p, q *Term, depth int) (*Term, bool) {
	if p.args[0] == q.args[0] && p.args[1] == q.args[1] {
		return True, true
	}
	k := ISym(fmt.Sprintf("k!%d", freshID()), nil, nil)
	s2 := st.clone()
	s2.assumeRaw(Le(p.args[2], k))
	s2.assumeRaw(Lt(k, p.args[3]))
	a := Subst(p.args[0], map[*Term]*Term{p.args[1]: k})
	b := Subst(q.args[0], map[*Term]*Term{q.args[1]: k})
	r, ok := x.align(s2, segs(s2.norm(a)), segs(s2.norm(b)), depth+1)
	if ok && x.prove(s2, r) && x.prove(s2, Eq(a.ln, b.ln)) {
		return True, true
	}
	if dbgAlign && x.scout == 0 {
		println("BODY depth", depth, ok, "\n  ", p.String(), "\n  ", q.String(), "\n  ")
		if ok {
			println("  r=", r.String())
		}
	}
	return nil, false
}

var dbgAlign = os.Getenv("GOVC_ALIGN") != ""

func (x *Exec) leafEq(st *State, p, q *Term, depth int) (*Term, bool) {
	if p == q {
		return True, true
	}
	n, isk := p.ln.ConstI()
	num := func(t *Term) bool {
		return t.op == OQInt || t.op == OLit || (t.op == ORep)
	}
	if isk && n <= 16 && num(p) && num(q) {
		return Eq(Un(p, true), Un(q, true)), true
	}
	if isk && n <= 8 && (p.op == OQInt || q.op == OQInt) {
		be := true
		if p.op == OQInt && p.name == "le" || q.op == OQInt && q.name == "le" {
			be = false
		}
		return Eq(Un(p, be), Un(q, be)), true
	}
	if isk && p.op == OLit || q.op == OLit {
		// a constant against (part of) an integer
		l, i := p, q
		if q.op == OLit {
			l, i = q, p
		}
		if v, be, ok := intPart(i); ok {
			return Eq(v, Un(l, be)), true
		}
	}
	if p.op == OQApp && q.op == OQApp && p.name == q.name && len(p.args) == len(q.args) {
		// congruence is sufficient; only use it when the arguments are provably equal
		all := true
		for i := 1; i < len(p.args); i++ {
			if !x.eqDeep(st, p.args[i], q.args[i], depth+1) {
				all = false
				break
			}
		}
		if all {
			return True, true
		}
	}
	if p.op == OSub && p.args[0] == q && x.prove(st, Eq(p.args[1], Int(0))) || q.op == OSub && q.args[0] == p && x.prove(st, Eq(q.args[1], Int(0))) {
		return True, true
	}
	if p.op == OSub && q.op == OSub && p.args[0] == q.args[0] {
		if x.prove(st, Eq(p.args[1], q.args[1])) {
			return True, true
		}
	}
	if p.op == OSub && q.op == OSub && p.args[0] != q.args[0] {
		if x.prove(st, Eq(p.args[1], q.args[1])) && x.eqDeep(st, p.args[0], q.args[0], depth+1) {
			return True, true
		}
	}
	if (p.op == OSub && (p.args[0].op == OCat || p.args[0].op == OBig)) || (q.op == OSub && (q.args[0].op == OCat || q.args[0].op == OBig)) {
		p2, q2 := x.reslice(st, p), x.reslice(st, q)
		if (p2 != p || q2 != q) && depth < 8 {
			return x.align(st, segs(p2), segs(q2), depth+1)
		}
	}
	if p.op == OBig || q.op == OBig {
		if p.op == OBig && q.op == OBig {
			if x.prove(st, And(Eq(p.args[2], q.args[2]), Eq(p.args[3], q.args[3]))) {
				if c, ok := x.bigBodyEq(st, p, q, depth); ok {
					return c, true
				}
			}
		} else if r := x.bigVsSub(st, p, q, depth); r {
			return True, true
		}
	}
	return SeqEq(p, q), true
}

// Big family against a slice of a plain sequence: compare element-wise
func (x *Exec) bigVsSub(st *State, p, q *Term, depth int) bool {
	if q.op == OBig {
		p, q = q, p
	}
	body, bv := p.args[0], p.args[1]
	if Has(body.ln, bv) || depth > 6 {
		return false
	}
	if q.op == OCat || q.op == OBig {
		return false
	}
	k := ISym(fmt.Sprintf("k!%d", freshID()), nil, nil)
	s2 := st.clone()
	s2.assumeRaw(Le(p.args[2], k))
	s2.assumeRaw(Lt(k, p.args[3]))
	a := Subst(body, map[*Term]*Term{bv: k})
	b := QSub(q, Mul(Sub(k, p.args[2]), body.ln), body.ln)
	r, ok := x.align(s2, segs(s2.norm(a)), segs(s2.norm(b)), depth+1)
	return ok && x.prove(s2, r)
}

func (x *Exec) reslice(st *State, p *Term) *Term {
	if p.op == OSub && (p.args[0].op == OCat || p.args[0].op == OBig) {
		return x.slice(st, p.args[0], p.args[1], p.args[2], false)
	}
	return p
}

func (x *Exec) eqDeep(st *State, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.sort == SSeq {
		r, ok := x.align(st, segs(st.norm(a)), segs(st.norm(b)), depth+1)
		return ok && x.prove(st, And(Eq(a.ln, b.ln), r))
	}
	return x.prove(st, Eq(a, b))
}

// ---------- memory

func (x *Exec) wrote(st *State, obj int, path []Sel, key string) {
	if len(x.wlogs) == 0 {
		return
	}
	for _, w := range x.wlogs {
		if obj <= w.base {
			w.add(obj, path, key)
		}
	}
}

type wlog struct {
	base int
	locs map[string]wloc
}
type wloc struct {
	obj  int
	path []Sel
	key  string // ghost field
}

func (w *wlog) add(obj int, path []Sel, key string) {
	// truncate at the first symbolic or array index
	n := 0
	k := fmt.Sprintf("%d", obj)
	for n < len(path) && path[n].i == nil && path[n].f >= 0 {
		k += fmt.Sprintf(".%d", path[n].f)
		n++
	}
	k += "/" + key
	if _, ok := w.locs[k]; !ok {
		w.locs[k] = wloc{obj, append([]Sel(nil), path[:n]...), key}
	}
}

// typ of the sub-value is only needed for materialisation
func (x *Exec) fieldVal(st *State, o *Obj, s *StructV, i int, nm string) (Value, *StructV) {
	if s.f[i] != nil {
		return s.f[i], s
	}
	u := s.typ.Underlying().(*types.Struct)
	v := x.sym(st, nm+"."+u.Field(i).Name(), u.Field(i).Type())
	n := &StructV{typ: s.typ, f: append([]Value(nil), s.f...)}
	n.f[i] = v
	return v, n
}

func (x *Exec) get(st *State, obj int, path []Sel) Value {
	o := st.objs[obj]
	if o == nil {
		unsup("dangling object %d", obj)
	}
	v, nv := x.getIn(st, o, o.val, path, o.name)
	if nv != nil {
		c := st.objs[obj]
		st.objs[obj] = &Obj{id: c.id, name: c.name, typ: c.typ, val: nv, ro: c.ro, src: c.src}
	}
	return v
}

// returns value and, when something was materialised, the updated container
func (x *Exec) getIn(st *State, o *Obj, v Value, path []Sel, nm string) (Value, Value) {
	if lc, ok := v.(*lazyCell); ok {
		nv := x.sym(st, lc.name, lc.t)
		r, n2 := x.getIn(st, o, nv, path, nm)
		if n2 != nil {
			return r, n2
		}
		return r, nv
	}
	if len(path) == 0 {
		return v, nil
	}
	p := path[0]
	switch c := v.(type) {
	case *StructV:
		fv, ns := x.fieldVal(st, o, c, p.f, nm)
		u := c.typ.Underlying().(*types.Struct)
		r, n2 := x.getIn(st, o, fv, path[1:], nm+"."+u.Field(p.f).Name())
		if n2 != nil {
			ns = &StructV{typ: ns.typ, f: append([]Value(nil), ns.f...)}
			ns.f[p.f] = n2
		}
		if ns == c {
			return r, nil
		}
		return r, ns
	case *ArrV:
		i := p.f
		if p.i != nil {
			k, ok := p.i.ConstI()
			if !ok {
				for j := range c.elems {
					if x.prove(st, Eq(p.i, Int(int64(j)))) {
						k, ok = int64(j), true
						break
					}
				}
				if !ok {
					for j := range c.elems {
						if d, _ := x.decide(st, Eq(p.i, Int(int64(j)))); d == -1 {
							panic(SplitReq{Eq(p.i, Int(int64(j)))})
						}
					}
					unsup("symbolic index into array")
				}
			}
			i = int(k)
		}
		if i < 0 || i >= len(c.elems) {
			unsup("array index out of range")
		}
		r, n2 := x.getIn(st, o, c.elems[i], path[1:], fmt.Sprintf("%s[%d]", nm, i))
		if n2 != nil {
			na := &ArrV{typ: c.typ, elems: append([]Value(nil), c.elems...)}
			na.elems[i] = n2
			return r, na
		}
		return r, nil
	case *ListV:
		idx := p.i
		if idx == nil {
			idx = Int(int64(p.f))
		}
		e := x.slice(st, c.seq, idx, Int(1), true)
		ev := x.decodeElem(st, e, c.typ)
		r, _ := x.getIn(st, o, ev, path[1:], nm+"[]")
		return r, nil
	case *Term:
		if c.sort == SSeq {
			idx := p.i
			if idx == nil {
				idx = Int(int64(p.f))
			}
			return x.at(st, st.norm(c), idx), nil
		}
	case *Abs:
		unsup("field access into opaque %s", c.kind)
	}
	unsup("bad access path into %T", v)
	return nil, nil
}

func (x *Exec) put(st *State, obj int, path []Sel, v Value) {
	o := st.objs[obj]
	if o == nil {
		unsup("dangling object")
	}
	if o.ro {
		unsup("write to read-only object %s", o.name)
	}
	x.wrote(st, obj, path, "")
	x.get(st, obj, path) // materialise
	o = st.objs[obj]
	nv := x.putIn(st, o.val, path, v)
	st.objs[obj] = &Obj{id: o.id, name: o.name, typ: o.typ, val: nv, src: o.src}
	if o.src != nil {
		// the list has the new value; other views of its elements end here
		x.put(st, o.src.obj, o.src.path, Ptr{obj: obj})
		for id, p := range st.objs {
			if id != obj && p.src != nil && p.src.obj == o.src.obj {
				delete(st.objs, id)
			}
		}
	}
}

// owned: an element of a list, through which the list can be written
func (x *Exec) owned(st *State, p Ptr, v Value) Value {
	e, ok := v.(Ptr)
	if !ok || e.obj == 0 || len(p.path) == 0 || x.elemOf[e.obj] == nil {
		return v
	}
	o := st.objs[e.obj]
	id := x.newObj(st, "owned", o.typ, o.val)
	src := p
	st.objs[id].src = &src
	return Ptr{obj: id}
}

func (x *Exec) putIn(st *State, c Value, path []Sel, v Value) Value {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	switch c := c.(type) {
	case *StructV:
		n := &StructV{typ: c.typ, f: append([]Value(nil), c.f...)}
		n.f[p.f] = x.putIn(st, c.f[p.f], path[1:], v)
		return n
	case *ArrV:
		i := p.f
		if p.i != nil {
			k, ok := p.i.ConstI()
			if !ok {
				for j := range c.elems {
					if x.prove(st, Eq(p.i, Int(int64(j)))) {
						k, ok = int64(j), true
					}
				}
				if !ok {
					unsup("symbolic store into array")
				}
			}
			i = int(k)
		}
		n := &ArrV{typ: c.typ, elems: append([]Value(nil), c.elems...)}
		n.elems[i] = x.putIn(st, c.elems[i], path[1:], v)
		return n
	case *Term:
		if c.sort == SSeq {
			idx := p.i
			if idx == nil {
				idx = Int(int64(p.f))
			}
			return x.splice(st, c, idx, QByte(v.(*Term)))
		}
	case *ListV:
		idx := p.i
		if idx == nil {
			idx = Int(int64(p.f))
		}
		if len(path) == 1 {
			return &ListV{c.typ, x.splice(st, c.seq, idx, x.encElem(st, v, c.typ))}
		}
	}
	unsup("bad store path into %T", c)
	return nil
}

func (x *Exec) load(st *State, p Ptr) Value {
	return x.get(st, p.obj, p.path)
}

// bytes of a byte slice
func (x *Exec) content(st *State, s Slice) *Term {
	if s.obj == 0 || s.ln.isK(0) {
		return Empty
	}
	v := x.get(st, s.obj, s.path)
	t, ok := v.(*Term)
	if !ok {
		unsup("content of %T", v)
	}
	return st.norm(x.slice(st, st.norm(t), s.off, s.ln, false))
}

// element sequence of a non-byte slice
func (x *Exec) listContent(st *State, s Slice) *ListV {
	if s.obj == 0 {
		return nil
	}
	v := x.get(st, s.obj, s.path)
	switch c := v.(type) {
	case *ListV:
		return &ListV{c.typ, x.slice(st, c.seq, s.off, s.ln, false)}
	case *ArrV:
		o, ok1 := s.off.ConstI()
		n, ok2 := s.ln.ConstI()
		if !ok1 || !ok2 {
			unsup("symbolic view of array")
		}
		var ts []*Term
		for _, e := range c.elems[o : o+n] {
			ts = append(ts, x.encElem(st, e, c.typ))
		}
		return &ListV{c.typ, Cat(ts...)}
	}
	unsup("listContent of %T", v)
	return nil
}

func (x *Exec) writeBytes(st *State, s Slice, at *Term, d *Term) {
	if d.ln.isK(0) {
		return
	}
	if s.obj == 0 {
		unsup("write into nil slice")
	}
	v, ok := x.get(st, s.obj, s.path).(*Term)
	if !ok {
		unsup("write into non-byte storage")
	}
	x.put(st, s.obj, s.path, x.splice(st, st.norm(v), Add(s.off, at), d))
}

// ---------- list elements as terms

func typeName(t types.Type) string { return types.TypeString(t, nil) }

func (x *Exec) encElem(st *State, v Value, t types.Type) *Term {
	switch y := v.(type) {
	case *Term:
		if y.sort == SSeq && y.ln.isK(1) && y.op == OQApp {
			return y
		}
		return QApp("elem:"+typeName(t), Int(1), y)
	case Ptr:
		if y.obj == 0 {
			return QApp("nilptr:"+typeName(t), Int(1))
		}
		o := st.objs[y.obj]
		if e, ok := x.elemOf[y.obj]; ok {
			return e
		}
		pt := t.Underlying().(*types.Pointer).Elem()
		if len(y.path) > 0 {
			unsup("interior pointer in list")
		}
		_ = o
		return x.encStruct(st, y.obj, nil, pt)
	case Iface:
		return QApp(fmt.Sprintf("iface:%d", freshID()), Int(1))
	case *StructV:
		id := x.newObj(st, "tmp", t, y)
		return x.encStruct(st, id, nil, t)
	case Slice:
		return QApp("elem:"+typeName(t), Int(1), x.content(st, y))
	}
	return QApp(fmt.Sprintf("opaque:%d", freshID()), Int(1))
}

func (x *Exec) encStruct(st *State, obj int, path []Sel, t types.Type) *Term {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("cannot encode %s", t)
	}
	var as []*Term
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Basic, *types.Slice:
		default:
			as = append(as, Int(0))
			continue
		}
		fv := x.get(st, obj, append(append([]Sel{}, path...), Sel{f: i}))
		switch y := fv.(type) {
		case *Term:
			as = append(as, y)
		case Slice:
			if isByte(f.Type().Underlying().(*types.Slice).Elem()) {
				as = append(as, x.content(st, y))
			} else if y.obj == 0 {
				as = append(as, Empty)
			} else {
				as = append(as, x.listContent(st, y).seq)
			}
		default:
			as = append(as, Int(0))
		}
	}
	return QApp("rec:"+typeName(t), Int(1), as...)
}

func (x *Exec) decodeElem(st *State, e *Term, t types.Type) Value {
	e = st.norm(e)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if e.op == OQApp && e.name == "nilptr:"+typeName(t) {
			return Ptr{}
		}
		key := fmt.Sprintf("elem%d", e.id)
		for id, o := range st.objs {
			if o.name == key {
				return Ptr{obj: id}
			}
		}
		id := x.newObj(st, key, u.Elem(), x.decodeStruct(st, e, u.Elem()))
		x.elemOf[id] = e
		st.objs[id].ro = true
		return Ptr{obj: id}
	case *types.Struct:
		return x.decodeStruct(st, e, t)
	case *types.Basic:
		if e.op == OQApp && e.name == "elem:"+typeName(t) {
			return e.args[1]
		}
		switch {
		case u.Info()&types.IsString != 0:
			return QApp("unelem:"+typeName(t), IApp("len:unelem", b0, maxLen, e), e)
		case u.Info()&types.IsInteger != 0:
			s := symInt("", t)
			return IApp("unelem:"+typeName(t), s.lo, s.hi, e)
		case u.Info()&types.IsBoolean != 0:
			return BApp("unelem:"+typeName(t), e)
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			var c *Term
			if e.op == OQApp && e.name == "elem:"+typeName(t) {
				c = e.args[1]
			} else {
				c = QApp("unelem:"+typeName(t), IApp("len:unelem", b0, maxLen, e), e)
			}
			return bytesObj(x, st, "elem", c)
		}
	}
	unsup("list element of type %s", t)
	return nil
}

func (x *Exec) decodeStruct(st *State, e *Term, t types.Type) Value {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("list element pointing to %s", t)
	}
	rec := e.op == OQApp && e.name == "rec:"+typeName(t)
	s := &StructV{typ: t, f: make([]Value, u.NumFields())}
	for i := range s.f {
		f := u.Field(i)
		fn := "fld:" + typeName(t) + "." + f.Name()
		switch w := f.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case rec:
				s.f[i] = e.args[1+i]
			case w.Info()&types.IsInteger != 0:
				si := symInt("", f.Type())
				s.f[i] = IApp(fn, si.lo, si.hi, e)
			case w.Info()&types.IsString != 0:
				s.f[i] = QApp(fn, IApp("len:"+fn, b0, maxLen, e), e)
			case w.Info()&types.IsBoolean != 0:
				s.f[i] = BApp(fn, e)
			}
		case *types.Slice:
			if !isByte(w.Elem()) {
				s.f[i] = Poison{"list in a list element"}
				continue
			}
			var c *Term
			if rec {
				c = e.args[1+i]
			} else {
				c = QApp(fn, IApp("len:"+fn, b0, maxLen, e), e)
			}
			sl := bytesObj(x, st, fn, c)
			sl.isnil = False
			if c.ln.isK(0) {
				sl = nilSlice()
			} else if lo, _ := Bounds(c.ln); lo == nil || lo.Sign() == 0 {
				sl.isnil = Eq(c.ln, Int(0))
			}
			s.f[i] = sl
		case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
			s.f[i] = Poison{"reference in a list element"}
		}
	}
	return s
}

// the number in (a constant part of) an encoded integer
func intPart(t *Term) (v *Term, be, ok bool) {
	if t.op == OQInt {
		return t.args[0], t.name == "be", true
	}
	if t.op != OSub || t.args[0].op != OQInt {
		return nil, false, false
	}
	i := t.args[0]
	off, ok1 := t.args[1].ConstI()
	n, ok2 := t.ln.ConstI()
	if !ok1 || !ok2 {
		return nil, false, false
	}
	be = i.name == "be"
	if be {
		off = i.k.Int64() - off - n
	}
	v = DivK(i.args[0], pow2(uint(8*off)))
	if off+n < i.k.Int64() {
		v = ModK(v, pow2(uint(8*n)))
	}
	return v, be, true
}
