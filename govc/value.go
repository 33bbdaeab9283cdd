package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Unsup struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsup{fmt.Sprintf(f, a...)}) }

// SplitReq is raised when an operation needs a case distinction on cond.
type SplitReq struct{ cond *Term }

type Value interface{}

type Sel struct {
	f int   // field or constant element index
	i *Term // symbolic element index (nil: use f)
}

type Ptr struct {
	obj  int // 0: nil
	path []Sel
}

type Slice struct {
	obj           int // 0: nil slice
	path          []Sel
	off, ln, cap_ *Term
	isnil         *Term
}

type StructV struct {
	typ types.Type
	f   []Value // nil entries are lazily materialised
}

type ArrV struct {
	typ   types.Type // element type
	elems []Value
}

// ListV: a sequence of non-byte elements, each encoded as a length-1 segment
type ListV struct {
	typ types.Type
	seq *Term
}

type Iface struct {
	typ types.Type // nil with v==nil: nil interface
	v   Value
	err *Term // abstract error id (0 = nil)
}

type AbsRef struct{ obj int } // reference to a ghost object

type Abs struct { // ghost object contents; immutable, copy on write
	kind string
	f    map[string]Value
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
}

type BoundM struct { // method value on abstract/extern receiver
	name string
	recv Value
}

type FuncV struct{ fn *ssa.Function }
type BuiltinV struct{ name string }
type Tuple []Value
type MapV struct{ obj int } // 0: nil map
type MapC struct {
	keys, vals []Value
	ents       []*Term // the entries, encoded for the log
	log        *Term   // older entries as a list; of those with the same key one is current
	more       bool    // unknown further entries
}

func (c *MapC) definite() bool { return !c.more && (c.log == nil || c.log == Empty) }

// all entries as a log; nil if there are entries that cannot be written down
func (c *MapC) asLog() *Term {
	if c.more {
		return nil
	}
	l := c.log
	if l == nil {
		l = Empty
	}
	for _, e := range c.ents {
		if e == nil {
			return nil
		}
		l = Cat(l, e)
	}
	return l
}

type IterV struct{ obj int }
type TypeV struct{ t types.Type }
type NilFunc struct{}

type Obj struct {
	id   int
	name string
	typ  types.Type
	val  Value
	ro   bool
	src  *Ptr // the list element this is
}

type Event struct {
	name string
	args []Value
}

type State struct {
	objs   map[int]*Obj
	pc     *PC
	eqs    []eqn
	events []Event
	hooks  map[string]Value
	notes  []string
	curIt  *Term
	qfacts []qfact
	noq    bool
}

// qfact: phi holds with v replaced by every value from 0 to n-1
type qfact struct{ v, n, phi *Term }

type eqn struct{ from, to *Term }

func (s *State) clone() *State {
	n := *s
	n.objs = make(map[int]*Obj, len(s.objs)+8)
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.eqs = s.eqs[:len(s.eqs):len(s.eqs)]
	n.hooks = s.hooks
	n.notes = s.notes[:len(s.notes):len(s.notes)]
	n.qfacts = s.qfacts[:len(s.qfacts):len(s.qfacts)]
	return &n
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intBits(t types.Type) (bits uint, signed bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

// fresh symbolic integer of Go type t
func symInt(name string, t types.Type) *Term {
	bits, sg := intBits(t)
	if sg {
		return ISym(name, Neg(BigI(pow2(bits-1))).k, Sub(BigI(pow2(bits-1)), Int(1)).k)
	}
	return ISym(name, b0, Sub(BigI(pow2(bits)), Int(1)).k)
}

func nilSlice() Slice {
	return Slice{obj: 0, off: Int(0), ln: Int(0), cap_: Int(0), isnil: True}
}

func nilIface() Iface { return Iface{} }

func errIface(id *Term) Iface { return Iface{err: id} }

// zero value of a type
func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Empty
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		if u.Info()&types.IsFloat != 0 {
			return Int(0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return nilSlice()
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return MapV{}
	case *types.Signature:
		return NilFunc{}
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		s := &StructV{typ: t, f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return Zeros(Int(u.Len()))
		}
		if u.Len() > 4096 {
			unsup("large array")
		}
		a := &ArrV{typ: u.Elem(), elems: make([]Value, u.Len())}
		for i := range a.elems {
			a.elems[i] = x.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.zero(u.At(i).Type()))
		}
		return r
	}
	unsup("zero of %s", t)
	return nil
}

func (x *Exec) newObj(st *State, name string, t types.Type, v Value) int {
	x.nobj++
	id := x.nobj
	st.objs[id] = &Obj{id: id, name: name, typ: t, val: v}
	return id
}

func (x *Exec) newAbs(st *State, kind string, f map[string]Value) AbsRef {
	return AbsRef{x.newObj(st, kind, nil, &Abs{kind, f})}
}

func (st *State) abs(r AbsRef) *Abs {
	a, ok := st.objs[r.obj].val.(*Abs)
	if !ok {
		unsup("not an abstract object")
	}
	return a
}

func (x *Exec) absSet(st *State, r AbsRef, k string, v Value) {
	o := st.objs[r.obj]
	a := o.val.(*Abs)
	n := &Abs{kind: a.kind, f: make(map[string]Value, len(a.f)+1)}
	for kk, vv := range a.f {
		n.f[kk] = vv
	}
	n.f[k] = v
	st.objs[r.obj] = &Obj{id: o.id, name: o.name, typ: o.typ, val: n}
	x.wrote(st, r.obj, []Sel{{f: -1}}, k)
}

func sortedKeys(m map[string]Value) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// symbolic value of a type (objects lazily materialised)
func (x *Exec) sym(st *State, name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return symInt(name, t)
		case u.Info()&types.IsBoolean != 0:
			return BSym(name)
		case u.Info()&types.IsString != 0:
			return QSym(name, ISym("len:"+name, b0, maxLen))
		}
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && x.opaqueType(n) {
			return Ptr{obj: x.newObj(st, name, u.Elem(), &Abs{kind: "opaque:" + n.String(), f: map[string]Value{}})}
		}
		return Ptr{obj: x.newObj(st, name, u.Elem(), x.symCell(name, u.Elem()))}
	case *types.Slice:
		return x.symSlice(st, name, u.Elem(), ISym("len:"+name, b0, maxLen))
	case *types.Interface:
		if isErrorT(t) {
			return errIface(ISym("err:"+name, b0, nil))
		}
		r := x.newAbs(st, "opaque", map[string]Value{"name": name})
		return Iface{typ: nil, v: r}
	case *types.Struct:
		return x.symCell(name, t)
	case *types.Array:
		return x.symCell(name, t)
	case *types.Signature:
		return x.newAbs(st, "func", map[string]Value{"name": name, "sig": TypeV{t}})
	case *types.Map:
		return MapV{x.newObj(st, name, t, &MapC{more: true})}
	}
	unsup("symbolic value of type %s", t)
	return nil
}

func (x *Exec) symCell(name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return &StructV{typ: t, f: make([]Value, u.NumFields())}
	case *types.Array:
		if isByte(u.Elem()) {
			return QSym(name, Int(u.Len()))
		}
	}
	return &lazyCell{name, t}
}

type lazyCell struct {
	name string
	t    types.Type
}

func (x *Exec) symSlice(st *State, name string, el types.Type, ln *Term) Slice {
	c := ISym("cap:"+name, b0, maxLen)
	st.assume(x, Le(ln, c))
	var v Value
	if isByte(el) {
		v = QSym(name, c)
	} else {
		v = &ListV{typ: el, seq: QSym("list:"+name, c)}
	}
	isn := BSym("nil:" + name)
	st.assume(x, Implies(isn, Eq(c, Int(0))))
	return Slice{obj: x.newObj(st, name, types.NewSlice(el), v), off: Int(0), ln: ln, cap_: c, isnil: isn}
}

var errorIface = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool { return types.Identical(t, errorIface) }

func bytesObj(x *Exec, st *State, name string, content *Term) Slice {
	id := x.newObj(st, name, types.NewSlice(types.Typ[types.Uint8]), content)
	return Slice{obj: id, off: Int(0), ln: content.ln, cap_: content.ln, isnil: False}
}
