package main

import (
	"fmt"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Merging of paths that meet at a loop with the same live values (coarse mode). The merged
// path keeps the facts both have: it stands for more behaviours than the two, never fewer.

var dbgMerge = os.Getenv("GOVC_MERGE") != ""

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x.obj == y.obj && samePath(x.path, y.path) && x.off == y.off && x.ln == y.ln && x.cap_ == y.cap_ && x.isnil == y.isnil
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.obj == y.obj && samePath(x.path, y.path)
	case *StructV:
		y, ok := b.(*StructV)
		return ok && (x == y || x.typ == y.typ && sameVals(x.f, y.f))
	case *ArrV:
		y, ok := b.(*ArrV)
		return ok && (x == y || x.typ == y.typ && sameVals(x.elems, y.elems))
	case *ListV:
		y, ok := b.(*ListV)
		return ok && (x == y || x.typ == y.typ && x.seq == y.seq)
	case Iface:
		y, ok := b.(Iface)
		return ok && x.typ == y.typ && x.err == y.err && sameVal(x.v, y.v)
	case AbsRef:
		y, ok := b.(AbsRef)
		return ok && x == y
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case IterV:
		y, ok := b.(IterV)
		return ok && x == y
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x == y
	case Tuple:
		y, ok := b.(Tuple)
		return ok && sameVals(x, y)
	case *Abs:
		y, ok := b.(*Abs)
		return ok && x == y
	case *MapC:
		y, ok := b.(*MapC)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	}
	return false
}

func sameVals(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func samePath(a, b []Sel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// the values that can be used from block h on, other than those defined on the way
func (x *Exec) liveAt(h *ssa.BasicBlock) map[ssa.Value]bool {
	if x.live == nil {
		x.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	if m, ok := x.live[h]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(h)
	use := func(v ssa.Value, at *ssa.BasicBlock) {
		in, ok := v.(ssa.Instruction)
		if !ok {
			m[v] = true // parameters, free variables
			return
		}
		d := in.Block()
		if d == h {
			if _, ok := v.(*ssa.Phi); ok {
				m[v] = true
			}
			return
		}
		// a way from h to the use that does not pass the definition
		seen := map[*ssa.BasicBlock]bool{d: true}
		var back func(b *ssa.BasicBlock) bool
		back = func(b *ssa.BasicBlock) bool {
			if b == h {
				return true
			}
			if seen[b] || !reach[b] {
				return false
			}
			seen[b] = true
			for _, p := range b.Preds {
				if back(p) {
					return true
				}
			}
			return false
		}
		if at != d && back(at) {
			m[v] = true
		}
	}
	var ops [10]*ssa.Value
	for b := range reach {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					if reach[b.Preds[i]] {
						use(e, b.Preds[i])
					}
				}
				continue
			}
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil {
					use(*o, b)
				}
			}
		}
	}
	x.live[h] = m
	return m
}

// a path standing for both, or nil
func (x *Exec) merge(a, b item) *item {
	if a.blk != b.blk || a.fr.fn != b.fr.fn || a.fr.depth != b.fr.depth || len(a.fr.defers) != len(b.fr.defers) {
		return nil
	}
	for i := range a.fr.defers {
		if len(a.fr.defers) > 0 && &a.fr.defers[i] != &b.fr.defers[i] {
			return nil
		}
	}
	if a.st.curIt != b.st.curIt || a.st.noq != b.st.noq || len(a.st.events) != len(b.st.events) || len(a.st.hooks) != len(b.st.hooks) {
		return nil
	}
	for k, v := range a.st.hooks {
		if !sameVal(v, b.st.hooks[k]) {
			return nil
		}
	}
	for i := range a.st.events {
		if a.st.events[i].name != b.st.events[i].name || !sameVals(a.st.events[i].args, b.st.events[i].args) {
			return nil
		}
	}
	g := &joiner{x: x, a: a.st, b: b.st}
	env := map[ssa.Value]Value{}
	for v := range x.liveAt(a.blk) {
		p, ok1 := a.fr.env[v]
		q, ok2 := b.fr.env[v]
		if ok1 != ok2 {
			return nil
		}
		if ok1 && !sameVal(p, q) {
			r, ok := g.val(p, q)
			if !ok {
				if dbgMerge {
					println("NOMERGE", a.blk.String(), v.Name(), fmt.Sprintf("%v | %v", p, q))
				}
				return nil
			}
			env[v] = r
		}
	}
	// every object in both has the same contents; the others cannot be reached
	n := a.st.clone()
	for id, o := range a.st.objs {
		o2, ok := b.st.objs[id]
		if !ok {
			delete(n.objs, id)
			continue
		}
		if o != o2 && !(o.ro == o2.ro && sameVal(o.val, o2.val)) {
			r, ok := g.val(o.val, o2.val)
			if !ok || o.ro != o2.ro || o.src != o2.src {
				if dbgMerge {
					println("NOMERGE", a.blk.String(), o.name, fmt.Sprintf("%v | %v", o.val, o2.val))
				}
				return nil
			}
			n.objs[id] = &Obj{id: o.id, name: o.name, typ: o.typ, val: r, ro: o.ro, src: o.src}
		}
	}
	p, q := a.st.pc, b.st.pc
	for p != q {
		switch {
		case p == nil || q == nil:
			p, q = nil, nil
		case p.d > q.d:
			p = p.up
		case q.d > p.d:
			q = q.up
		default:
			p, q = p.up, q.up
		}
	}
	n.pc = p
	i := 0
	for i < len(a.st.eqs) && i < len(b.st.eqs) && a.st.eqs[i] == b.st.eqs[i] {
		i++
	}
	n.eqs = n.eqs[:i:i]
	i = 0
	for i < len(a.st.qfacts) && i < len(b.st.qfacts) && a.st.qfacts[i] == b.st.qfacts[i] {
		i++
	}
	n.qfacts = n.qfacts[:i:i]
	i = 0
	for i < len(a.st.notes) && i < len(b.st.notes) && a.st.notes[i] == b.st.notes[i] {
		i++
	}
	n.notes = n.notes[:i:i]
	fr := a.fr.clone()
	for v, t := range env {
		fr.env[v] = t
	}
	return &item{st: n, fr: fr, blk: a.blk, prev: a.prev, idx: a.idx, start: a.start}
}

// joiner finds one expression for values that differ in two paths, where the paths differ in
// the length of a varint
type joiner struct {
	x        *Exec
	a, b     *State
	fa, fb   map[*Term]*Term // known varint lengths
	computed bool
}

func varszFacts(st *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for p := st.pc; p != nil; p = p.up {
		if p.t.op != OEq0 {
			continue
		}
		k, as, cs := linview(p.t.args[0])
		if len(as) == 1 && as[0].op == OIApp && as[0].name == "varsz" && m[as[0]] == nil {
			if cs[0].Sign() > 0 {
				k = new(big.Int).Neg(k)
			}
			m[as[0]] = BigI(k)
		}
	}
	return m
}

func (g *joiner) val(p, q Value) (Value, bool) {
	if sameVal(p, q) {
		return p, true
	}
	if !g.x.varints {
		return nil, false
	}
	switch a := p.(type) {
	case *Term:
		b, ok := q.(*Term)
		if !ok || a.sort != SInt || b.sort != SInt {
			return nil, false
		}
		return g.num(a, b)
	case *StructV:
		b, ok := q.(*StructV)
		if !ok || a.typ != b.typ || len(a.f) != len(b.f) {
			return nil, false
		}
		n := &StructV{typ: a.typ, f: make([]Value, len(a.f))}
		for i := range a.f {
			if n.f[i], ok = g.val(a.f[i], b.f[i]); !ok {
				return nil, false
			}
		}
		return n, true
	}
	return nil, false
}

func (g *joiner) num(a, b *Term) (Value, bool) {
	if !g.computed {
		g.computed = true
		g.fa, g.fb = varszFacts(g.a), varszFacts(g.b)
	}
	forms := func(st *State, t *Term, m map[*Term]*Term) map[*Term]bool {
		r := map[*Term]bool{t: true}
		for l, k := range m {
			r[Add(Sub(t, k), l)] = true
			if v := l.args[len(l.args)-1]; g.x.prove(st, Eq(t, v)) {
				r[v] = true
			}
		}
		return r
	}
	f1, f2 := forms(g.a, a, g.fa), forms(g.b, b, g.fb)
	var best *Term
	for t := range f1 {
		if f2[t] && (best == nil || t.id < best.id) {
			best = t
		}
	}
	return best, best != nil
}

// joinExits merges the ways out of a loop over the bytes of a varint
func (x *Exec) joinExits(L *Loop, ex []item) []item {
	if !x.varints || len(ex) < 2 {
		return ex
	}
	var r, js []item
	for _, it := range ex {
		if it.start || it.idx != 0 || L != nil && (!L.blocks[it.blk] || it.blk == L.head) || x.loopsOf(it.fr.fn)[it.blk] != nil {
			r = append(r, it)
			continue
		}
		x.evalPhis(&it)
		it.start = true
		js = append(js, it)
	}
	return append(r, x.mergeAll(js)...)
}

func (x *Exec) mergeAll(its []item) []item {
	var r []item
next:
	for _, it := range its {
		for i := range r {
			if m := x.merge(r[i], it); m != nil {
				r[i] = *m
				continue next
			}
		}
		r = append(r, it)
	}
	return r
}
