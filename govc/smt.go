package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Encoder turns terms into SMT-LIB. Every composite term becomes a define-fun, so shared
// structure stays shared. Axioms that hold for the term unconditionally are emitted along.
type Encoder struct {
	out   *strings.Builder
	names map[*Term]string
	funs  map[string]bool
	trail []interface{} // *Term or string (fun), for popping
	marks []int
	lits  []*Term
	monos []*Term
	full  bool // real nonlinear definitions
}

func NewEncoder(full bool) *Encoder {
	return &Encoder{out: &strings.Builder{}, names: map[*Term]string{}, funs: map[string]bool{}, full: full}
}

func (e *Encoder) Push() {
	e.marks = append(e.marks, len(e.trail))
	e.out.WriteString("(push 1)\n")
}
func (e *Encoder) Pop() {
	m := e.marks[len(e.marks)-1]
	e.marks = e.marks[:len(e.marks)-1]
	for _, x := range e.trail[m:] {
		switch y := x.(type) {
		case *Term:
			delete(e.names, y)
			if y.op == OLit {
				e.lits = e.lits[:len(e.lits)-1]
			}
			if y.op == OMul {
				e.monos = e.monos[:len(e.monos)-1]
			}
		case string:
			delete(e.funs, y)
		}
	}
	e.trail = e.trail[:m]
	e.out.WriteString("(pop 1)\n")
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func sortName(s Sort) string { return [...]string{"Int", "Bool", "S"}[s] }

func (e *Encoder) fun(name string, args []*Term, res Sort) string {
	sig := name + "("
	for _, a := range args {
		sig += sortName(a.sort)[:1]
	}
	sig += ")"
	q := "|" + sig + "|"
	if !e.funs[sig] {
		e.funs[sig] = true
		e.trail = append(e.trail, sig)
		var as []string
		for _, a := range args {
			as = append(as, sortName(a.sort))
		}
		fmt.Fprintf(e.out, "(declare-fun %s (%s) %s)\n", q, strings.Join(as, " "), sortName(res))
	}
	return q
}

func (e *Encoder) app(name string, args []*Term, res Sort) string {
	var as []string
	for _, a := range args {
		as = append(as, e.Enc(a))
	}
	f := e.fun(name, args, res)
	if len(as) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(as, " ") + ")"
}

func (e *Encoder) Enc(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	var x string
	decl := false
	switch t.op {
	case OLin:
		var s []string
		for i, a := range t.args {
			n := e.Enc(a)
			if t.coefs[i].Cmp(b1) == 0 {
				s = append(s, n)
			} else {
				s = append(s, "(* "+smtInt(t.coefs[i])+" "+n+")")
			}
		}
		if t.k.Sign() != 0 || len(s) == 0 {
			s = append(s, smtInt(t.k))
		}
		if len(s) == 1 {
			x = s[0]
		} else {
			x = "(+ " + strings.Join(s, " ") + ")"
		}
		if len(t.args) == 0 {
			return x
		}
	case OISym, OBSym, OQSym:
		decl = true
	case OMul:
		for _, a := range t.args {
			e.Enc(a)
		}
		decl = true
	case ODiv:
		x = "(div " + e.Enc(t.args[0]) + " " + t.k.String() + ")"
	case OMod:
		x = "(mod " + e.Enc(t.args[0]) + " " + t.k.String() + ")"
	case OAt:
		x = e.app("at", t.args, SInt)
	case OUn:
		x = e.app("un"+t.k.String(), t.args, SInt)
	case OIApp:
		x = e.app("i:"+t.name, t.args, SInt)
	case OIte:
		x = "(ite " + e.Enc(t.args[0]) + " " + e.Enc(t.args[1]) + " " + e.Enc(t.args[2]) + ")"
	case OBConst:
		if t == True {
			return "true"
		}
		return "false"
	case OBApp:
		x = e.app("b:"+t.name, t.args, SBool)
	case ONot:
		x = "(not " + e.Enc(t.args[0]) + ")"
	case OAnd, OOr:
		var s []string
		for _, a := range t.args {
			s = append(s, e.Enc(a))
		}
		x = map[Op]string{OAnd: "(and ", OOr: "(or "}[t.op] + strings.Join(s, " ") + ")"
	case OLe0:
		x = "(<= " + e.Enc(t.args[0]) + " 0)"
	case OEq0:
		x = "(= " + e.Enc(t.args[0]) + " 0)"
	case OSeqEq:
		a, b := t.args[0], t.args[1]
		x = "(= " + e.Enc(a) + " " + e.Enc(b) + ")"
		l := e.Enc(Eq(a.ln, b.ln))
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(e.out, "(define-fun %s () Bool %s)\n", n, x)
		e.names[t] = n
		e.trail = append(e.trail, t)
		fmt.Fprintf(e.out, "(assert (=> %s %s))\n", n, l)
		// equal byte strings encode equal numbers
		if c, ok := a.ln.ConstI(); ok && c > 0 && c <= 8 && b.ln == a.ln {
			if (a.op == OQInt) != (b.op == OQInt) || a.op == OLit || b.op == OLit {
				ax := Eq(Un(a, true), Un(b, true))
				if ax != True {
					fmt.Fprintf(e.out, "(assert (=> %s %s))\n", n, e.Enc(ax))
				}
			}
		}
		return n
	case OLit:
		decl = true
	case OSub:
		x = e.app("sub", t.args, SSeq)
	case OQApp:
		x = e.app("q:"+t.name, t.args[1:], SSeq)
	case OQInt:
		x = e.app("qint"+t.name+t.k.String(), t.args, SSeq)
	case ORep:
		x = e.app("rep", t.args, SSeq)
	case OCat:
		x = e.app(fmt.Sprintf("cat%d", len(t.args)), t.args, SSeq)
	case OBig:
		decl = true
	}
	n := fmt.Sprintf("t%d", t.id)
	if decl {
		fmt.Fprintf(e.out, "(declare-const %s %s)\n", n, sortName(t.sort))
	} else {
		fmt.Fprintf(e.out, "(define-fun %s () %s %s)\n", n, sortName(t.sort), x)
	}
	e.names[t] = n
	e.trail = append(e.trail, t)
	e.axioms(t, n)
	return n
}

func (e *Encoder) axioms(t *Term, n string) {
	switch t.op {
	case OISym, OAt, OUn, OIApp:
		lo, hi := Bounds(t)
		if lo != nil {
			fmt.Fprintf(e.out, "(assert (>= %s %s))\n", n, smtInt(lo))
		}
		if hi != nil {
			fmt.Fprintf(e.out, "(assert (<= %s %s))\n", n, smtInt(hi))
		}
		if t.op == OIApp {
			e.iappAxioms(t, n)
		}
	case OLit:
		for _, o := range e.lits {
			if o.name != t.name {
				fmt.Fprintf(e.out, "(assert (not (= %s %s)))\n", n, e.names[o])
			}
		}
		e.lits = append(e.lits, t)
	case OMul:
		e.monoAxioms(t, n)
		e.monos = append(e.monos, t)
	}
}

func (e *Encoder) iappAxioms(t *Term, n string) {
	switch t.name {
	case "pow2":
	case "sov": // size of varint, piecewise
		x := e.Enc(t.args[0])
		s := "10"
		for i := 9; i >= 1; i-- {
			s = fmt.Sprintf("(ite (< %s %s) %d %s)", x, pow2(uint(7*i)).String(), i, s)
		}
		fmt.Fprintf(e.out, "(assert (= %s %s))\n", n, s)
	}
}

func nonneg(t *Term) bool { lo, _ := Bounds(t); return lo != nil && lo.Sign() >= 0 }

func (e *Encoder) monoAxioms(t *Term, n string) {
	if e.full {
		s := "(*"
		for _, a := range t.args {
			s += " " + e.Enc(a)
		}
		fmt.Fprintf(e.out, "(assert (= %s %s)))\n", n, s)
	}
	prodStr := func(fs []*Term) string {
		if len(fs) == 1 {
			return e.Enc(fs[0])
		}
		r := fs[0]
		for _, f := range fs[1:] {
			r = atomMul(r, f)
		}
		return e.Enc(r)
	}
	for i, a := range t.args {
		if i > 0 && t.args[i-1] == a {
			continue
		}
		var rest []*Term
		rest = append(rest, t.args[:i]...)
		rest = append(rest, t.args[i+1:]...)
		an := e.Enc(a)
		rn := prodStr(rest)
		// a >= 0, rest >= 1  => t >= a ; a>=0, rest<=0 => t <= 0
		fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (>= %s 1)) (>= %s %s)))\n", an, rn, n, an)
		fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (>= %s 0)) (>= %s 0)))\n", an, rn, n)
		fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (<= %s 0)) (<= %s 0)))\n", an, rn, n)
		fmt.Fprintf(e.out, "(assert (=> (= %s 0) (= %s 0)))\n", an, n)
		fmt.Fprintf(e.out, "(assert (=> (and (>= %s 1) (>= %s 2)) (>= %s (* 2 %s))))\n", an, rn, n, an)
		// constants 2^8,2^31,2^32 as thresholds
		for _, c := range []string{"4294967295", "4294967296"} {
			fmt.Fprintf(e.out, "(assert (=> (and (>= %s 1) (>= %s %s)) (>= %s (* %s %s))))\n", an, rn, c, n, c, an)
			fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (<= %s %s)) (<= %s (* %s %s))))\n", an, rn, c, n, c, an)
		}
		// monotonicity against earlier monomials sharing the factor a
		for _, o := range e.monos {
			d := monoDiv(o, a)
			if d == nil {
				continue
			}
			on, dn := e.names[o], e.Enc(d)
			fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (<= %s %s)) (<= %s %s)))\n", an, rn, dn, n, on)
			fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (>= %s %s)) (>= %s %s)))\n", an, rn, dn, n, on)
			fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (< %s %s)) (<= (+ %s %s) %s)))\n", an, rn, dn, n, an, on)
			fmt.Fprintf(e.out, "(assert (=> (and (>= %s 0) (> %s %s)) (>= %s (+ %s %s))))\n", an, rn, dn, n, on, an)
		}
	}
}

// ---------- path conditions

type PC struct {
	up *PC
	t  *Term
	d  int
}

type pcKey struct {
	up *PC
	t  *Term
}

var (
	pcmu  sync.Mutex
	pctab = map[pcKey]*PC{}
)

// path conditions are hash-consed, so that repeated queries are recognised
func mkPC(up *PC, t *Term, d int) *PC {
	if up.has(t) {
		return up
	}
	pcmu.Lock()
	defer pcmu.Unlock()
	k := pcKey{up, t}
	if p, ok := pctab[k]; ok {
		return p
	}
	p := &PC{up, t, d}
	pctab[k] = p
	return p
}

func (p *PC) has(t *Term) bool {
	for ; p != nil; p = p.up {
		if p.t == t {
			return true
		}
	}
	return false
}

func (p *PC) list() []*PC {
	if p == nil {
		return nil
	}
	r := make([]*PC, p.d)
	for q := p; q != nil; q = q.up {
		r[q.d-1] = q
	}
	return r
}

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	enc   *Encoder
	stack []*PC
	cache map[*PC]map[*Term]bool
	dead  bool
	nq    int
	nsat  int

	st Stats
}

type Stats struct {
	Queries   int
	SolverSec float64
	By        map[string]int // obligations discharged per back end
}

func NewSolver() *Solver {
	s := &Solver{cache: map[*PC]map[*Term]bool{}}
	s.st.By = map[string]int{}
	s.start()
	return s
}

const prelude = "(set-option :print-success false)\n(declare-sort S 0)\n"

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	s.enc = NewEncoder(false)
	s.stack = nil
	io.WriteString(s.in, prelude+"(set-option :timeout 20000)(set-option :rlimit 4000000)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) sync(pc *PC) {
	want := pc.list()
	i := 0
	for i < len(want) && i < len(s.stack) && want[i] == s.stack[i] {
		i++
	}
	for len(s.stack) > i {
		s.enc.Pop()
		s.stack = s.stack[:len(s.stack)-1]
	}
	for ; i < len(want); i++ {
		s.enc.Push()
		n := s.enc.Enc(want[i].t)
		fmt.Fprintf(s.enc.out, "(assert %s)\n", n)
		s.stack = append(s.stack, want[i])
	}
}

// unsat(pc and g)?
func (s *Solver) unsat(pc *PC, g *Term) bool {
	if g == False {
		return true
	}
	for p, ng := pc, Not(g); p != nil; p = p.up {
		if p.t == ng {
			return true
		}
	}
	if m, ok := s.cache[pc]; ok {
		if r, ok := m[g]; ok {
			return r
		}
	} else {
		s.cache[pc] = map[*Term]bool{}
	}
	r := s.query(pc, g)
	s.cache[pc][g] = r
	return r
}

func (s *Solver) query(pc *PC, g *Term) bool {
	if s.dead {
		return false
	}
	t0 := time.Now()
	defer func() { s.st.SolverSec += time.Since(t0).Seconds() }()
	s.st.Queries++
	s.nq++
	s.sync(pc)
	s.enc.Push()
	n := s.enc.Enc(g)
	fmt.Fprintf(s.enc.out, "(assert %s)\n(check-sat)\n", n)
	s.enc.Pop()
	txt := s.enc.out.String()
	s.enc.out.Reset()
	if os.Getenv("GOVC_SMTLOG") != "" {
		f, _ := os.OpenFile(os.Getenv("GOVC_SMTLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		f.WriteString(txt)
		f.Close()
	}
	if _, err := io.WriteString(s.in, txt); err != nil {
		s.Close()
		s.start()
		return false
	}
	for {
		type res struct {
			l   string
			err error
		}
		ch := make(chan res, 1)
		go func() {
			l, err := s.out.ReadString('\n')
			ch <- res{l, err}
		}()
		select {
		case r := <-ch:
			l := strings.TrimSpace(r.l)
			if r.err != nil {
				s.Close()
				s.start()
				return false
			}
			switch l {
			case "sat":
				s.nsat++
				return false
			case "unknown", "timeout":
				return false
			case "unsat":
				return true
			}
			if strings.HasPrefix(l, "(error") {
				panic(Unsup{"solver: " + l})
			}
		case <-time.After(20 * time.Second):
			s.Close()
			s.start()
			return false
		}
	}
}

// stateless query text
func QueryText(pc *PC, g *Term, full bool) string {
	e := NewEncoder(full)
	for _, p := range pc.list() {
		n := e.Enc(p.t)
		fmt.Fprintf(e.out, "(assert %s)\n", n)
	}
	n := e.Enc(g)
	fmt.Fprintf(e.out, "(assert %s)\n(check-sat)\n", n)
	return prelude + e.out.String()
}

func runSolver(name string, args []string, txt string, tmo time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(txt)
	var ob bytes.Buffer
	c.Stdout = &ob
	c.Run()
	for _, l := range strings.Split(ob.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "timeout"
}

// hard: try other configurations on a query the session could not settle
func (s *Solver) hard(pc *PC, g *Term) (bool, string) {
	t0 := time.Now()
	defer func() { s.st.SolverSec += time.Since(t0).Seconds() }()
	txt := QueryText(pc, g, true)
	if runSolver("z3-new", []string{"-in", "-smt2"}, txt, 8*time.Second) == "unsat" {
		return true, "z3-5 (nonlinear)"
	}
	txt2 := "(set-logic ALL)\n" + strings.Replace(txt, "(set-option :print-success false)\n", "", 1)
	if runSolver("cvc5", []string{"--lang=smt2", "-"}, txt2, 8*time.Second) == "unsat" {
		return true, "cvc5"
	}
	if runSolver("z3", []string{"-in", "-smt2"}, txt, 8*time.Second) == "unsat" {
		return true, "z3-4.8"
	}
	return false, ""
}

// a model for a failed obligation, as printable text
func Model(pc *PC, g *Term) string {
	txt := QueryText(pc, g, false) + "(get-model)\n"
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "z3-new", "-in", "-smt2")
	c.Stdin = strings.NewReader(txt)
	o, _ := c.Output()
	vals := map[string]string{}
	ls := strings.Split(string(o), "\n")
	for i := 0; i+1 < len(ls); i++ {
		var id int
		if _, err := fmt.Sscanf(strings.TrimSpace(ls[i]), "(define-fun t%d () Int", &id); err == nil {
			vals[fmt.Sprintf("t%d", id)] = strings.TrimSuffix(strings.TrimSpace(ls[i+1]), ")")
		}
	}
	syms := map[*Term]bool{}
	for _, p := range pc.list() {
		for x := range Syms(p.t) {
			syms[x] = true
		}
	}
	for x := range Syms(g) {
		syms[x] = true
	}
	var out []string
	for x := range syms {
		if v, ok := vals[fmt.Sprintf("t%d", x.id)]; ok {
			out = append(out, x.name+" = "+v)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
