package main

// Terms: hash-consed symbolic expressions over mathematical integers, booleans and
// byte sequences.

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SSeq
)

type Op uint8

const (
	OLin  Op = iota // integer: k + sum coefs[i]*args[i]
	OISym           // integer symbol
	OMul            // product of >=2 integer atoms
	ODiv            // args[0] div k (k>0)
	OMod            // args[0] mod k (k>0)
	OAt             // byte of atom args[0] at index args[1]
	OUn             // integer encoded by the bytes of args[0]; k: 0 be, 1 le
	OIApp           // uninterpreted integer function
	OIte            // integer ite(args[0], args[1], args[2])
	OBConst
	OBSym
	OBApp
	ONot
	OAnd
	OOr
	OLe0 // args[0] <= 0
	OEq0 // args[0] == 0
	OSeqEq
	OLit  // literal bytes
	OQSym // sequence symbol; args[0] = length
	OSub  // args: base, off, len
	OQApp // uninterpreted sequence function; args: len, rest..
	OQInt // integer args[0] as k bytes; name "be"/"le"
	ORep  // args: byte, count
	OCat
	OBig // args: body, boundvar, lo, hi : body[lo] ++ ... ++ body[hi-1]
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	name  string
	lo    *big.Int // static bounds for integer atoms (nil: unbounded)
	hi    *big.Int
	ln    *Term // length of sequences
	deep  int   // nesting depth of bound variables
	syms  map[*Term]bool
}

var (
	tmu    sync.Mutex
	ttab   = map[string]*Term{}
	tnext  = 1
	b0     = big.NewInt(0)
	b1     = big.NewInt(1)
	bm1    = big.NewInt(-1)
	maxLen = new(big.Int).Lsh(b1, 48)
)

func B(n int64) *big.Int { return big.NewInt(n) }
func pow2(n uint) *big.Int {
	return new(big.Int).Lsh(b1, n)
}

func intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", t.op, t.name)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	sb.WriteByte('|')
	for _, c := range t.coefs {
		sb.WriteString(c.String())
		sb.WriteByte(',')
	}
	if t.k != nil {
		sb.WriteByte('|')
		sb.WriteString(t.k.String())
	}
	key := sb.String()
	tmu.Lock()
	defer tmu.Unlock()
	if o, ok := ttab[key]; ok {
		return o
	}
	t.id = tnext
	tnext++
	for _, a := range t.args {
		if a.deep > t.deep {
			t.deep = a.deep
		}
	}
	if t.op == OBig {
		t.deep++
	}
	ttab[key] = t
	return t
}

// ---------- integers

func Int(n int64) *Term     { return BigI(big.NewInt(n)) }
func BigI(n *big.Int) *Term { return intern(&Term{op: OLin, sort: SInt, k: n}) }
func (t *Term) isLin() bool { return t.op == OLin }
func (t *Term) Const() (*big.Int, bool) {
	if t.op == OLin && len(t.args) == 0 {
		return t.k, true
	}
	return nil, false
}
func (t *Term) isK(n int64) bool {
	c, ok := t.Const()
	return ok && c.IsInt64() && c.Int64() == n
}
func (t *Term) ConstI() (int64, bool) {
	c, ok := t.Const()
	if ok && c.IsInt64() {
		return c.Int64(), true
	}
	return 0, false
}

// linear view: constant, atoms, coefficients
func linview(t *Term) (*big.Int, []*Term, []*big.Int) {
	if t.op == OLin {
		return t.k, t.args, t.coefs
	}
	return b0, []*Term{t}, []*big.Int{b1}
}

func mkLin(k *big.Int, m map[*Term]*big.Int) *Term {
	var as []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k.Sign() == 0 && m[as[0]].Cmp(b1) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return intern(&Term{op: OLin, sort: SInt, k: k, args: as, coefs: cs})
}

func LinComb(ts []*Term, cs []*big.Int) *Term {
	k := new(big.Int)
	m := map[*Term]*big.Int{}
	for i, t := range ts {
		tk, ta, tc := linview(t)
		k.Add(k, new(big.Int).Mul(tk, cs[i]))
		for j, a := range ta {
			p := new(big.Int).Mul(tc[j], cs[i])
			if o, ok := m[a]; ok {
				p.Add(p, o)
			}
			m[a] = p
		}
	}
	for mergeDM(m, k) {
	}
	for mergeBytes(m) {
	}
	return mkLin(k, m)
}

// b[3] + 256*b[2] + 65536*b[1] + 16777216*b[0] is the big-endian number of b[0:4]
func mergeBytes(m map[*Term]*big.Int) bool {
	n := 0
	for x := range m {
		if x.op == OAt {
			n++
		}
	}
	if n < 4 {
		return false
	}
	var best *Term
	for x, c := range m {
		if x.op != OAt || c.Sign() == 0 || best != nil && best.id < x.id {
			continue
		}
		s, o := x.args[0], x.args[1]
		ok := true
		for i := int64(1); ok && i < 4; i++ {
			c2, in := m[intern(&Term{op: OAt, sort: SInt, args: []*Term{s, AddK(o, -i)}})]
			ok = in && c2.Cmp(new(big.Int).Lsh(c, uint(8*i))) == 0
		}
		if ok {
			best = x
		}
	}
	if best == nil {
		return false
	}
	s, o, c := best.args[0], AddK(best.args[1], -3), m[best]
	u := Un(QSub(s, o, Int(4)), true)
	if u.op != OUn {
		return false
	}
	for i := int64(0); i < 4; i++ {
		delete(m, intern(&Term{op: OAt, sort: SInt, args: []*Term{s, AddK(o, i)}}))
	}
	p := new(big.Int).Set(c)
	if q, ok := m[u]; ok {
		p.Add(p, q)
	}
	m[u] = p
	return true
}

// d*((A) mod n) + (r mod d) = (r + d*B) mod (d*n)  where A = r div d + B, and
// d*(r div d) + (r mod d) = r
func mergeDM(m map[*Term]*big.Int, k *big.Int) bool {
	var ks []*Term
	n := 0
	for x, c := range m {
		ks = append(ks, x)
		if x.op == OMod && c.Sign() != 0 {
			n++
		}
	}
	if n == 0 {
		return false
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, x := range ks {
		c := m[x]
		if x.op != OMod || c.Sign() == 0 {
			continue
		}
		r, d := x.args[0], x.k
		dv := DivK(r, d)
		if dv.op != ODiv {
			continue
		}
		cd := new(big.Int).Mul(c, d)
		if o, ok := m[dv]; ok && o.Cmp(cd) == 0 {
			delete(m, dv)
			delete(m, x)
			addTo(m, k, r, c)
			return true
		}
		for _, y := range ks {
			cy := m[y]
			if y.op != OMod || y == x || cy.Cmp(cd) != 0 {
				continue
			}
			_, as, cs := linview(y.args[0])
			for i, a := range as {
				if a == dv && cs[i].Cmp(b1) == 0 {
					b := Sub(y.args[0], dv)
					n := ModK(Add(r, MulK(b, d)), new(big.Int).Mul(d, y.k))
					delete(m, x)
					delete(m, y)
					addTo(m, k, n, c)
					return true
				}
			}
		}
	}
	return false
}

func addTo(m map[*Term]*big.Int, k *big.Int, t *Term, c *big.Int) {
	tk, ta, tc := linview(t)
	k.Add(k, new(big.Int).Mul(tk, c))
	for j, a := range ta {
		p := new(big.Int).Mul(tc[j], c)
		if o, ok := m[a]; ok {
			p.Add(p, o)
		}
		m[a] = p
	}
}

func Add(ts ...*Term) *Term {
	cs := make([]*big.Int, len(ts))
	for i := range cs {
		cs[i] = b1
	}
	return LinComb(ts, cs)
}
func Sub(a, b *Term) *Term { return LinComb([]*Term{a, b}, []*big.Int{b1, bm1}) }
func AddK(a *Term, n int64) *Term {
	if n == 0 {
		return a
	}
	return Add(a, Int(n))
}
func MulK(a *Term, c *big.Int) *Term { return LinComb([]*Term{a}, []*big.Int{c}) }
func Neg(a *Term) *Term              { return MulK(a, bm1) }

func atomMul(a, b *Term) *Term {
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == OMul {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return intern(&Term{op: OMul, sort: SInt, args: fs})
}

func Mul(a, b *Term) *Term {
	if c, ok := a.Const(); ok {
		return MulK(b, c)
	}
	if c, ok := b.Const(); ok {
		return MulK(a, c)
	}
	ak, aa, ac := linview(a)
	bk, ba, bc := linview(b)
	ts := []*Term{BigI(new(big.Int).Mul(ak, bk))}
	cs := []*big.Int{b1}
	for i, x := range aa {
		ts = append(ts, x)
		cs = append(cs, new(big.Int).Mul(ac[i], bk))
		for j, y := range ba {
			ts = append(ts, atomMul(x, y))
			cs = append(cs, new(big.Int).Mul(ac[i], bc[j]))
		}
	}
	for j, y := range ba {
		ts = append(ts, y)
		cs = append(cs, new(big.Int).Mul(bc[j], ak))
	}
	return LinComb(ts, cs)
}

func DivK(a *Term, k *big.Int) *Term {
	if k.Cmp(b1) == 0 {
		return a
	}
	if c, ok := a.Const(); ok {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(c, k, m)
		return BigI(q)
	}
	ck, aa, ac := linview(a)
	// pull out multiples of k
	rk := new(big.Int).Mod(ck, k)
	var out []*Term
	var outc []*big.Int
	rest := map[*Term]*big.Int{}
	for i, x := range aa {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(ac[i], k, m)
		if m.Sign() == 0 {
			out = append(out, x)
			outc = append(outc, q)
		} else {
			rest[x] = ac[i]
		}
	}
	qk := new(big.Int).Sub(ck, rk)
	qk.Div(qk, k)
	r := mkLin(rk, rest)
	lo, hi := Bounds(r)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		out = append(out, BigI(qk))
		outc = append(outc, b1)
		return LinComb(out, outc)
	}
	if len(out) == 0 && qk.Sign() == 0 {
		if r.op == ODiv {
			return DivK(r.args[0], new(big.Int).Mul(r.k, k))
		}
		if r.op == OMod {
			// (y mod q*k) div k == (y div k) mod q
			q, m := new(big.Int).DivMod(r.k, k, new(big.Int))
			if m.Sign() == 0 {
				return ModK(DivK(r.args[0], k), q)
			}
		}
		return intern(&Term{op: ODiv, sort: SInt, args: []*Term{r}, k: k})
	}
	out = append(out, BigI(qk), DivK(r, k))
	outc = append(outc, b1, b1)
	return LinComb(out, outc)
}

func ModK(a *Term, k *big.Int) *Term {
	if k.Cmp(b1) == 0 {
		return Int(0)
	}
	ck, aa, ac := linview(a)
	rk := new(big.Int).Mod(ck, k)
	rest := map[*Term]*big.Int{}
	for i, x := range aa {
		m := new(big.Int).Mod(ac[i], k)
		if m.Sign() != 0 {
			// x mod inside: (x mod k') with k | k'
			if x.op == OMod && new(big.Int).Mod(x.k, k).Sign() == 0 {
				// c * (y mod k') == c*y  (mod k)
				yk, ya, yc := linview(x.args[0])
				rk.Add(rk, new(big.Int).Mul(yk, ac[i]))
				rk.Mod(rk, k)
				for j, y := range ya {
					p := new(big.Int).Mul(yc[j], ac[i])
					if o, ok := rest[y]; ok {
						p.Add(p, o)
					}
					rest[y] = p
				}
				continue
			}
			p := new(big.Int).Set(ac[i])
			if o, ok := rest[x]; ok {
				p.Add(p, o)
			}
			rest[x] = p
		}
	}
	// keep coefficients reduced but allow small negatives
	for x, c := range rest {
		m := new(big.Int).Mod(c, k)
		if c.Sign() < 0 {
			n := new(big.Int).Sub(m, k)
			if n.Cmp(c) == 0 && m.Sign() != 0 {
				rest[x] = c
				continue
			}
		}
		rest[x] = m
	}
	r := mkLin(rk, rest)
	if c, ok := r.Const(); ok {
		return BigI(new(big.Int).Mod(c, k))
	}
	lo, hi := Bounds(r)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return r
	}
	return intern(&Term{op: OMod, sort: SInt, args: []*Term{r}, k: k, lo: b0, hi: new(big.Int).Sub(k, b1)})
}

// static bounds
func Bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OLin:
		lo, hi = t.k, t.k
		for i, a := range t.args {
			al, ah := Bounds(a)
			c := t.coefs[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(al, c))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(ah, c))
				}
			}
		}
		return
	case OAt:
		return b0, B(255)
	case OUn:
		n, ok := t.args[0].ln.ConstI()
		if !ok {
			return b0, nil
		}
		return b0, new(big.Int).Sub(pow2(uint(8*n)), b1)
	case ODiv:
		al, ah := Bounds(t.args[0])
		if al != nil {
			lo = new(big.Int).Div(al, t.k)
		}
		if ah != nil {
			hi = new(big.Int).Div(ah, t.k)
		}
		return
	case OMod:
		return t.lo, t.hi
	case OMul:
		lo, hi = b1, b1
		for _, a := range t.args {
			al, ah := Bounds(a)
			if al == nil || al.Sign() < 0 {
				return nil, nil
			}
			lo = new(big.Int).Mul(lo, al)
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi = new(big.Int).Mul(hi, ah)
				}
			}
		}
		return
	case OIte:
		al, ah := Bounds(t.args[1])
		bl, bh := Bounds(t.args[2])
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(al) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(ah) > 0 {
				hi = bh
			}
		}
		return
	}
	return t.lo, t.hi
}

var symctr int

func freshID() int {
	tmu.Lock()
	defer tmu.Unlock()
	symctr++
	return symctr
}

func ISym(name string, lo, hi *big.Int) *Term {
	t := intern(&Term{op: OISym, sort: SInt, name: name, lo: lo, hi: hi})
	return t
}
func IApp(name string, lo, hi *big.Int, args ...*Term) *Term {
	return intern(&Term{op: OIApp, sort: SInt, name: name, args: args, lo: lo, hi: hi})
}

func IIte(c, a, b *Term) *Term {
	if c.op == OBConst {
		if c.name == "t" {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return intern(&Term{op: OIte, sort: SInt, args: []*Term{c, a, b}})
}

// ---------- booleans

var (
	True  = intern(&Term{op: OBConst, sort: SBool, name: "t"})
	False = intern(&Term{op: OBConst, sort: SBool, name: "f"})
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func BSym(name string) *Term { return intern(&Term{op: OBSym, sort: SBool, name: name}) }
func BApp(name string, args ...*Term) *Term {
	return intern(&Term{op: OBApp, sort: SBool, name: name, args: args})
}
func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe0:
		// not (x <= 0)  ==  1 - x <= 0
		return Le0(Sub(Int(1), a.args[0]))
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func And(as ...*Term) *Term { return andor(OAnd, as) }
func Or(as ...*Term) *Term  { return andor(OOr, as) }
func andor(op Op, as []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero || seen[Not(a)] {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: op, sort: SBool, args: out})
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func gcdLin(t *Term) (*Term, *big.Int) {
	_, _, cs := linview(t)
	if len(cs) == 0 {
		return t, b1
	}
	g := new(big.Int)
	for _, c := range cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return t, g
}

func Le0(a *Term) *Term {
	lo, hi := Bounds(a)
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	if c, x, y := iteLin(a); c != nil {
		return Or(And(c, Le0(x)), And(Not(c), Le0(y)))
	}
	// normalise by gcd: g*x + k <= 0  <=>  x <= floor(-k/g)
	if _, g := gcdLin(a); g.Cmp(b1) > 0 {
		k, as, cs := linview(a)
		m := map[*Term]*big.Int{}
		for i, x := range as {
			m[x] = new(big.Int).Div(cs[i], g)
		}
		nk := new(big.Int).Neg(k)
		nk.Div(nk, g) // floor since g > 0 and Div is euclidean
		a = mkLin(new(big.Int).Neg(nk), m)
	}
	return intern(&Term{op: OLe0, sort: SBool, args: []*Term{a}})
}

// iteLin splits k + c*ite(cond, x, y) with constant x and y
func iteLin(a *Term) (*Term, *Term, *Term) {
	k, as, cs := linview(a)
	if len(as) != 1 || as[0].op != OIte {
		return nil, nil, nil
	}
	t := as[0]
	_, o1 := t.args[1].Const()
	_, o2 := t.args[2].Const()
	if !o1 || !o2 {
		return nil, nil, nil
	}
	f := func(x *Term) *Term { return Add(BigI(k), Mul(BigI(cs[0]), x)) }
	return t.args[0], f(t.args[1]), f(t.args[2])
}

func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(AddK(Sub(a, b), 1)) }
func Eq0(a *Term) *Term {
	lo, hi := Bounds(a)
	if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return True
	}
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return False
	}
	if c, x, y := iteLin(a); c != nil {
		return Or(And(c, Eq0(x)), And(Not(c), Eq0(y)))
	}
	if _, g := gcdLin(a); g.Cmp(b1) >= 0 {
		k, as, cs := linview(a)
		if new(big.Int).Mod(k, g).Sign() != 0 {
			return False
		}
		s := b1
		if len(cs) > 0 && cs[0].Sign() < 0 {
			s = bm1
		}
		g = new(big.Int).Mul(g, s)
		m := map[*Term]*big.Int{}
		for i, x := range as {
			m[x] = new(big.Int).Quo(cs[i], g)
		}
		a = mkLin(new(big.Int).Quo(k, g), m)
	}
	return intern(&Term{op: OEq0, sort: SBool, args: []*Term{a}})
}
func Eq(a, b *Term) *Term {
	if a.sort == SBool {
		if a == b {
			return True
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a.sort == SSeq {
		return SeqEq(a, b)
	}
	return Eq0(Sub(a, b))
}

// ---------- sequences

func Len(t *Term) *Term { return t.ln }

func Lit(s string) *Term {
	return intern(&Term{op: OLit, sort: SSeq, name: s, ln: Int(int64(len(s)))})
}

var Empty = Lit("")

func QSym(name string, ln *Term) *Term {
	return intern(&Term{op: OQSym, sort: SSeq, name: name, args: []*Term{ln}, ln: ln})
}
func QApp(name string, ln *Term, args ...*Term) *Term {
	return intern(&Term{op: OQApp, sort: SSeq, name: name, args: append([]*Term{ln}, args...), ln: ln})
}

// integer t encoded in n bytes
func QInt(t *Term, n int64, be bool) *Term {
	if n == 0 {
		return Empty
	}
	t = ModK(t, pow2(uint(8*n)))
	if c, ok := t.Const(); ok {
		b := make([]byte, n)
		x := new(big.Int).Set(c)
		for i := int64(0); i < n; i++ {
			v := byte(new(big.Int).And(x, B(255)).Int64())
			x.Rsh(x, 8)
			if be {
				b[n-1-i] = v
			} else {
				b[i] = v
			}
		}
		return Lit(string(b))
	}
	if n == 1 {
		be = true
		t = canonByte(t)
		if t.op == OAt && t.args[0].sort == SSeq {
			return QSub(t.args[0], t.args[1], Int(1))
		}
	}
	if t.op == OUn {
		m, ok := t.args[0].ln.ConstI()
		if ok && m == n && (t.k.Sign() == 0) == be {
			return t.args[0]
		}
	}
	nm := "be"
	if !be {
		nm = "le"
	}
	return intern(&Term{op: OQInt, sort: SSeq, args: []*Term{t}, k: B(n), name: nm, ln: Int(n)})
}
func QByte(t *Term) *Term { return QInt(t, 1, true) }

func ReverseK(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// a byte valued function of one byte atom is kept as a table
func canonByte(t *Term) *Term {
	var at *Term
	ok := true
	n := 0
	var walk func(x *Term)
	walk = func(x *Term) {
		if !ok {
			return
		}
		n++
		if n > 64 {
			ok = false
			return
		}
		switch x.op {
		case OAt:
			if at != nil && at != x {
				ok = false
			}
			at = x
		case OIApp:
			if strings.HasPrefix(x.name, "bytefn:") {
				walk(x.args[0])
			} else {
				ok = false
			}
		case OLin, ODiv, OMod, OMul:
			for _, a := range x.args {
				walk(a)
			}
		default:
			if x.sort == SInt {
				lo, hi := Bounds(x)
				if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(B(255)) <= 0 && x.op == OISym {
					if at != nil && at != x {
						ok = false
					}
					at = x
					return
				}
			}
			ok = false
		}
	}
	walk(t)
	if !ok || at == nil || t == at {
		return t
	}
	tab := make([]byte, 256)
	ident := true
	for v := 0; v < 256; v++ {
		r, good := evalAt(t, at, int64(v))
		if !good || r.Sign() < 0 || r.Cmp(B(255)) > 0 {
			return t
		}
		tab[v] = byte(r.Int64())
		if int(tab[v]) != v {
			ident = false
		}
	}
	if ident {
		return at
	}
	return IApp("bytefn:"+hex.EncodeToString(tab), b0, B(255), at)
}

func evalAt(t, at *Term, v int64) (*big.Int, bool) {
	if t == at {
		return B(v), true
	}
	switch t.op {
	case OLin:
		r := new(big.Int).Set(t.k)
		for i, a := range t.args {
			x, ok := evalAt(a, at, v)
			if !ok {
				return nil, false
			}
			r.Add(r, new(big.Int).Mul(x, t.coefs[i]))
		}
		return r, true
	case ODiv, OMod:
		x, ok := evalAt(t.args[0], at, v)
		if !ok {
			return nil, false
		}
		if t.op == ODiv {
			return new(big.Int).Div(x, t.k), true
		}
		return new(big.Int).Mod(x, t.k), true
	case OMul:
		r := B(1)
		for _, a := range t.args {
			x, ok := evalAt(a, at, v)
			if !ok {
				return nil, false
			}
			r.Mul(r, x)
		}
		return r, true
	case OIApp:
		x, ok := evalAt(t.args[0], at, v)
		if !ok || !x.IsInt64() || x.Sign() < 0 || x.Int64() > 255 {
			return nil, false
		}
		tab, _ := hex.DecodeString(strings.TrimPrefix(t.name, "bytefn:"))
		return B(int64(tab[x.Int64()])), true
	}
	return nil, false
}

func QRep(b, n *Term) *Term {
	if n.isK(0) {
		return Empty
	}
	if c, ok := b.ConstI(); ok {
		if m, ok2 := n.ConstI(); ok2 && m <= 256 && m >= 0 {
			return Lit(strings.Repeat(string([]byte{byte(c)}), int(m)))
		}
	}
	return intern(&Term{op: ORep, sort: SSeq, args: []*Term{b, n}, ln: n})
}
func Zeros(n *Term) *Term { return QRep(Int(0), n) }

func segs(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t == Empty {
		return nil
	}
	return []*Term{t}
}

func Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, s := range segs(t) {
			if s.ln.isK(0) {
				continue
			}
			if n := len(out); n > 0 {
				if m := mergeSeg(out[n-1], s); m != nil {
					out = append(out[:n-1], segs(m)...)
					// merging may enable another merge
					for len(out) >= 2 {
						k := len(out)
						m2 := mergeSeg(out[k-2], out[k-1])
						if m2 == nil {
							break
						}
						out = append(out[:k-2], segs(m2)...)
					}
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return Empty
	}
	if len(out) == 1 {
		return out[0]
	}
	l := make([]*Term, len(out))
	for i, s := range out {
		l[i] = s.ln
	}
	return intern(&Term{op: OCat, sort: SSeq, args: append([]*Term(nil), out...), ln: Add(l...)})
}

func subview(t *Term) (base, off *Term) {
	if t.op == OSub {
		return t.args[0], t.args[1]
	}
	return t, Int(0)
}

func mergeSeg(a, b *Term) *Term {
	if a.op == OLit && b.op == OLit {
		return Lit(a.name + b.name)
	}
	if a.op == ORep && b.op == ORep && a.args[0] == b.args[0] {
		return QRep(a.args[0], Add(a.args[1], b.args[1]))
	}
	if a.op == OBig && b.op == OBig && a.args[0] == b.args[0] && a.args[1] == b.args[1] && a.args[3] == b.args[2] {
		return mkBig(a.args[0], a.args[1], a.args[2], b.args[3])
	}
	if b.op == OSub {
		ab, ao := subview(a)
		bb, bo := subview(b)
		if ab == bb && Add(ao, a.ln) == bo {
			return QSub(ab, ao, Add(a.ln, b.ln))
		}
	}
	return nil
}

// QSub is the plain constructor; use slice() (context dependent) to look into concatenations.
func QSub(base, off, ln *Term) *Term {
	if ln.isK(0) {
		return Empty
	}
	if off.isK(0) && ln == base.ln {
		return base
	}
	if base.op == OSub {
		return QSub(base.args[0], Add(base.args[1], off), ln)
	}
	o, ok1 := off.ConstI()
	n, ok2 := ln.ConstI()
	if base.op == OLit && ok1 && ok2 && o >= 0 && n >= 0 && o+n <= int64(len(base.name)) {
		return Lit(base.name[o : o+n])
	}
	if base.op == ORep {
		return QRep(base.args[0], ln)
	}
	if base.op == OQInt && ok1 && ok2 && o >= 0 && o+n <= base.k.Int64() && n == 1 {
		m := base.k.Int64()
		sh := 8 * (m - 1 - o)
		if base.name == "le" {
			sh = 8 * o
		}
		return QByte(ModK(DivK(base.args[0], pow2(uint(sh))), B(256)))
	}
	if base.op == OQInt && ok1 && ok2 && o >= 0 && o+n <= base.k.Int64() && base.name == "be" {
		m := base.k.Int64()
		sh := 8 * (m - o - n)
		return QInt(ModK(DivK(base.args[0], pow2(uint(sh))), pow2(uint(8*n))), n, true)
	}
	if base.op == OCat && ok1 {
		// constant offset: skip constant-length leading segments
		if !(ok2) {
			// suffix?
		}
		pos := int64(0)
		for i, s := range base.args {
			l, ok := s.ln.ConstI()
			if ok && o >= pos+l {
				pos += l
				continue
			}
			if i > 0 && o >= pos {
				return QSub(Cat(base.args[i:]...), Int(o-pos), ln)
			}
			if ok && ok2 && o >= pos && o+n <= pos+l {
				return QSub(s, Int(o-pos), ln)
			}
			if ok && ok2 && o >= pos && l > 0 {
				// spans this constant segment and more
				return Cat(QSub(s, Int(o-pos), Int(l-(o-pos))), QSub(Cat(base.args[i+1:]...), Int(0), Int(n-(l-(o-pos)))))
			}
			if o == pos && s.ln == ln {
				return s
			}
			break
		}
	}
	return intern(&Term{op: OSub, sort: SSeq, args: []*Term{base, off, ln}, ln: ln})
}

func BoundVar(depth int) *Term {
	return ISym(fmt.Sprintf("$k%d", depth), nil, nil)
}

// mkBig: body must use boundvar bv
func mkBig(body, bv, lo, hi *Term) *Term {
	if lo == hi || body == Empty {
		return Empty
	}
	if AddK(lo, 1) == hi {
		return Subst(body, map[*Term]*Term{bv: lo})
	}
	ln := body.ln
	var total *Term
	if !Has(ln, bv) {
		total = Mul(Sub(hi, lo), ln)
	}
	// contiguous slices of one sequence collapse
	if body.op == OSub && !Has(body.args[0], bv) && !Has(ln, bv) {
		off := body.args[1]
		o0 := Subst(off, map[*Term]*Term{bv: lo})
		o1 := Subst(off, map[*Term]*Term{bv: AddK(bv, 1)})
		if Sub(o1, off) == ln {
			return QSub(body.args[0], o0, total)
		}
	}
	if body.op == ORep && !Has(body, bv) {
		return QRep(body.args[0], total)
	}
	if total == nil {
		total = IApp("biglen", b0, maxLen, body, bv, lo, hi)
	}
	return intern(&Term{op: OBig, sort: SSeq, args: []*Term{body, bv, lo, hi}, ln: total})
}

// Big builds concat_{k=lo}^{hi-1} f(k) where f is given as a term over v.
func Big(body, v, lo, hi *Term) *Term {
	bv := BoundVar(body.deep + 1)
	b := Subst(body, map[*Term]*Term{v: bv})
	return mkBig(b, bv, lo, hi)
}

func At(s, i *Term) *Term {
	ik, isk := i.ConstI()
	switch s.op {
	case OLit:
		if isk && ik >= 0 && ik < int64(len(s.name)) {
			return Int(int64(s.name[ik]))
		}
	case ORep:
		return s.args[0]
	case OSub:
		return At(s.args[0], Add(s.args[1], i))
	case OQInt:
		if isk {
			n := s.k.Int64()
			sh := 8 * (n - 1 - ik)
			if s.name == "le" {
				sh = 8 * ik
			}
			if ik >= 0 && ik < n {
				return ModK(DivK(s.args[0], pow2(uint(sh))), B(256))
			}
		}
	case OCat:
		// constant prefix
		if isk {
			pos := int64(0)
			for _, g := range s.args {
				l, ok := g.ln.ConstI()
				if ok && ik < pos+l {
					return At(g, Int(ik-pos))
				}
				if !ok {
					break
				}
				pos += l
			}
		}
	}
	return intern(&Term{op: OAt, sort: SInt, args: []*Term{s, i}})
}

// integer value of constant-length bytes
func Un(s *Term, be bool) *Term {
	n, ok := s.ln.ConstI()
	if !ok {
		panic(Unsup{"Un of variable length"})
	}
	if n == 0 {
		return Int(0)
	}
	if n == 1 {
		return At(s, Int(0))
	}
	if s.op == OLit {
		x := new(big.Int)
		b := s.name
		if !be {
			b = ReverseK(b)
		}
		x.SetBytes([]byte(b))
		return BigI(x)
	}
	if s.op == OQInt && (s.name == "be") == be {
		return s.args[0]
	}
	if s.op == OCat || s.op == ORep || (s.op == OQInt) {
		// split per segment when lengths are constant
		ss := segs(s)
		if s.op != OCat {
			ss = nil
			for i := int64(0); i < n; i++ {
				ss = append(ss, QByte(At(s, Int(i))))
			}
		}
		r := Int(0)
		pos := int64(0)
		for _, g := range ss {
			l, ok := g.ln.ConstI()
			if !ok {
				goto opaque
			}
			v := Un2(g, be)
			if v == nil {
				goto opaque
			}
			var sh int64
			if be {
				sh = 8 * (n - pos - l)
			} else {
				sh = 8 * pos
			}
			r = Add(r, MulK(v, pow2(uint(sh))))
			pos += l
		}
		return r
	}
opaque:
	k := b0
	if !be {
		k = b1
	}
	return intern(&Term{op: OUn, sort: SInt, args: []*Term{s}, k: k})
}
func Un2(g *Term, be bool) *Term {
	if g.op == OQInt && g.k.Int64() == 1 {
		return g.args[0]
	}
	return Un(g, be)
}

func SeqEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if Eq(a.ln, b.ln) == False {
		return False
	}
	if a.op == OLit && b.op == OLit {
		return Bool(a.name == b.name)
	}
	if isQApp(a, "edsign") && b.op == OLit || isQApp(b, "edsign") && a.op == OLit {
		return False // ideal: a signature never equals a fixed string
	}
	if r := injective(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OSeqEq, sort: SBool, args: []*Term{a, b}})
}

// ---------- substitution and symbols

func Subst(t *Term, m map[*Term]*Term) *Term {
	return substMemo(t, m, map[*Term]*Term{})
}

func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	s := Syms(t)
	for k := range m {
		if k.op == OISym || k.op == OQSym || k.op == OBSym {
			if s[k] {
				hit = true
				break
			}
		} else {
			hit = true
			break
		}
	}
	if !hit {
		memo[t] = t
		return t
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		if t.op == OBig && i == 1 {
			as[i] = a
			continue
		}
		as[i] = substMemo(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		return Add(LinComb(as, t.coefs), BigI(t.k))
	case OMul:
		r := as[0]
		for _, x := range as[1:] {
			r = Mul(r, x)
		}
		return r
	case ODiv:
		return DivK(as[0], t.k)
	case OMod:
		return ModK(as[0], t.k)
	case OAt:
		return At(as[0], as[1])
	case OUn:
		return Un(as[0], t.k.Sign() == 0)
	case OIApp:
		return mkIApp(t, as)
	case OIte:
		return IIte(as[0], as[1], as[2])
	case OBApp:
		return mkBApp(t.name, as)
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OLe0:
		return Le0(as[0])
	case OEq0:
		return Eq0(as[0])
	case OSeqEq:
		return SeqEq(as[0], as[1])
	case OQSym:
		return QSym(t.name, as[0])
	case OSub:
		return QSub(as[0], as[1], as[2])
	case OQApp:
		return mkQApp(t.name, as[0], as[1:])
	case OQInt:
		return QInt(as[0], t.k.Int64(), t.name == "be")
	case ORep:
		return QRep(as[0], as[1])
	case OCat:
		return Cat(as...)
	case OBig:
		return mkBig(as[0], as[1], as[2], as[3])
	}
	panic("rebuild")
}

func mkIApp(t *Term, as []*Term) *Term { return rewriteIApp(t.name, t.lo, t.hi, as) }
func mkBApp(name string, as []*Term) *Term {
	return rewriteBApp(name, as)
}
func mkQApp(name string, ln *Term, as []*Term) *Term { return rewriteQApp(name, ln, as) }

var symmu sync.Mutex

// Syms returns the free symbols of t (bound variables included when free).
func Syms(t *Term) map[*Term]bool {
	symmu.Lock()
	s := t.syms
	symmu.Unlock()
	if s != nil {
		return s
	}
	r := map[*Term]bool{}
	if t.op == OISym || t.op == OQSym || t.op == OBSym {
		r[t] = true
	}
	for i, a := range t.args {
		if t.op == OBig && i == 1 {
			continue
		}
		for x := range Syms(a) {
			if t.op == OBig && i == 0 && x == t.args[1] {
				continue
			}
			r[x] = true
		}
	}
	symmu.Lock()
	t.syms = r
	symmu.Unlock()
	return r
}

func Has(t, s *Term) bool { return Syms(t)[s] }

// exact polynomial division a = q*b with q found by one of the monomials; nil if not exact
func PolyDiv(a, b *Term) *Term {
	if a.isK(0) {
		return Int(0)
	}
	if c, ok := b.Const(); ok {
		if c.Sign() == 0 {
			return nil
		}
		k, as, cs := linview(a)
		if new(big.Int).Mod(k, c).Sign() != 0 {
			return nil
		}
		m := map[*Term]*big.Int{}
		for i := range as {
			if new(big.Int).Mod(cs[i], c).Sign() != 0 {
				return nil
			}
			m[as[i]] = new(big.Int).Quo(cs[i], c)
		}
		return mkLin(new(big.Int).Quo(k, c), m)
	}
	// leading-term division
	q := Int(0)
	r := a
	for iter := 0; iter < 12; iter++ {
		if r.isK(0) {
			return q
		}
		m := leadQuot(r, b)
		if m == nil {
			return nil
		}
		q = Add(q, m)
		r = Sub(r, Mul(m, b))
	}
	return nil
}

// pick any monomial m such that cancelling m*lead(b) reduces r
func leadQuot(r, b *Term) *Term {
	lb, cb := leadMono(b)
	_, ra, rc := linview(r)
	for i, x := range ra {
		if new(big.Int).Mod(rc[i], cb).Sign() != 0 {
			continue
		}
		c := new(big.Int).Quo(rc[i], cb)
		if x == lb {
			return BigI(c)
		}
		if d := monoDiv(x, lb); d != nil {
			return MulK(d, c)
		}
	}
	return nil
}
func monoFactors(x *Term) []*Term {
	if x.op == OMul {
		return x.args
	}
	return []*Term{x}
}
func leadMono(b *Term) (*Term, *big.Int) {
	_, as, cs := linview(b)
	best := 0
	for i := range as {
		if len(monoFactors(as[i])) > len(monoFactors(as[best])) {
			best = i
		}
	}
	return as[best], cs[best]
}
func monoDiv(x, y *Term) *Term {
	xf := append([]*Term(nil), monoFactors(x)...)
	for _, f := range monoFactors(y) {
		found := false
		for i, g := range xf {
			if g == f {
				xf = append(xf[:i], xf[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	if len(xf) == 0 {
		return Int(1)
	}
	r := xf[0]
	for _, f := range xf[1:] {
		r = Mul(r, f)
	}
	return r
}

// ---------- printing

func (t *Term) String() string { return tstr(t, 0) }

var abbrev = os.Getenv("GOVC_ABBREV") != ""

func tstr(t *Term, d int) string {
	if d > 14 {
		return "…"
	}
	l := func(ts []*Term) string {
		var s []string
		for _, x := range ts {
			s = append(s, tstr(x, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OLin:
		var s []string
		for i, a := range t.args {
			c := t.coefs[i]
			if c.Cmp(b1) == 0 {
				s = append(s, tstr(a, d+1))
			} else {
				s = append(s, c.String()+"*"+tstr(a, d+1))
			}
		}
		if t.k.Sign() != 0 || len(s) == 0 {
			s = append(s, t.k.String())
		}
		if len(s) == 1 {
			return s[0]
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OISym, OBSym, OQSym:
		return t.name
	case OMul:
		var s []string
		for _, a := range t.args {
			s = append(s, tstr(a, d+1))
		}
		return strings.Join(s, "*")
	case ODiv:
		return "(" + tstr(t.args[0], d+1) + " div " + t.k.String() + ")"
	case OMod:
		return "(" + tstr(t.args[0], d+1) + " mod " + t.k.String() + ")"
	case OAt:
		return tstr(t.args[0], d+1) + "[" + tstr(t.args[1], d+1) + "]"
	case OUn:
		return "num(" + tstr(t.args[0], d+1) + ")"
	case OIApp, OBApp:
		if abbrev && len(t.args) > 0 && d > 1 {
			return t.name[:min(12, len(t.name))] + "#" + fmt.Sprint(t.id)
		}
		n := t.name
		if len(n) > 40 {
			n = n[:40]
		}
		return n + "(" + l(t.args) + ")"
	case OIte:
		return "ite(" + l(t.args) + ")"
	case OBConst:
		return map[string]string{"t": "true", "f": "false"}[t.name]
	case ONot:
		return "!" + tstr(t.args[0], d+1)
	case OAnd:
		return "(" + strings.ReplaceAll(l(t.args), ", ", " && ") + ")"
	case OOr:
		return "(" + strings.ReplaceAll(l(t.args), ", ", " || ") + ")"
	case OLe0:
		return tstr(t.args[0], d+1) + " <= 0"
	case OEq0:
		return tstr(t.args[0], d+1) + " == 0"
	case OSeqEq:
		return tstr(t.args[0], d+1) + " === " + tstr(t.args[1], d+1)
	case OLit:
		if len(t.name) > 40 {
			return fmt.Sprintf("%q…(%d)", t.name[:16], len(t.name))
		}
		return fmt.Sprintf("%q", t.name)
	case OSub:
		return tstr(t.args[0], d+1) + "[" + tstr(t.args[1], d+1) + " +: " + tstr(t.args[2], d+1) + "]"
	case OQApp:
		if abbrev && len(t.args) > 1 && d > 1 {
			return t.name[:min(12, len(t.name))] + "#" + fmt.Sprint(t.id)
		}
		return t.name + "(" + l(t.args[1:]) + ")"
	case OQInt:
		return fmt.Sprintf("%s%d(%s)", t.name, 8*t.k.Int64(), tstr(t.args[0], d+1))
	case ORep:
		return "rep(" + l(t.args) + ")"
	case OCat:
		var s []string
		for _, a := range t.args {
			s = append(s, tstr(a, d+1))
		}
		return "<" + strings.Join(s, " ++ ") + ">"
	case OBig:
		return "BIG[" + tstr(t.args[1], d+1) + "=" + tstr(t.args[2], d+1) + ".." + tstr(t.args[3], d+1) + "]{" + tstr(t.args[0], d+1) + "}"
	}
	return "?"
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
