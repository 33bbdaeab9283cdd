package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

// Externals of the key and signature files: YAML, PEM, the SSH wire format, files.

// pointer to a struct given as an interface
func (c *ectx) structArg(i int) (Ptr, types.Type, *types.Struct) {
	v := c.args[i]
	if f, ok := v.(Iface); ok {
		v = f.v
	}
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		unsup("%s: pointer to a struct expected", c.name)
	}
	sv, ok := c.x.get(c.st, p.obj, p.path).(*StructV)
	if !ok {
		unsup("%s: pointer to a struct expected", c.name)
	}
	u, ok := sv.typ.Underlying().(*types.Struct)
	if !ok {
		unsup("%s: struct expected", c.name)
	}
	return p, sv.typ, u
}

func (p Ptr) field(i int) []Sel { return append(append([]Sel{}, p.path...), Sel{f: i}) }

// name and omitempty of a field
func yamlTag(u *types.Struct, i int) (string, bool, bool) {
	t := reflect.StructTag(u.Tag(i)).Get("yaml")
	if t == "-" || !u.Field(i).Exported() {
		return "", false, false
	}
	w := strings.Split(t, ",")
	if w[0] == "" {
		w[0] = strings.ToLower(u.Field(i).Name())
	}
	omit := false
	for _, o := range w[1:] {
		omit = omit || o == "omitempty"
	}
	return w[0], omit, true
}

func yamlTerm(args []*Term) *Term {
	return QApp("yaml", IApp("yamllen", b1, maxLen, args...), args...)
}

// the value of a key in a document term
func yamlGet(d *Term, tag string) *Term {
	as := d.args[1:]
	for i := 0; i+1 < len(as); i += 2 {
		if as[i].op == OLit && as[i].name == tag {
			return as[i+1]
		}
	}
	return nil
}

// choose: an unconstrained choice
func (c *ectx) choose(what string, f func(c *ectx, v bool) []Outcome) []Outcome {
	return c.fork(BSym(c.x.fresh(what)), f)
}

// known to contain none of the characters
func (x *Exec) lacks(st *State, g *Term, chars string) bool {
	switch g.op {
	case OLit:
		return !strings.ContainsAny(g.name, chars)
	}
	if isQApp(g, "b64enc") {
		return !strings.ContainsAny("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=", chars)
	}
	in := func(set string) bool {
		for i := 0; i < len(chars); i++ {
			if strings.IndexByte(set, chars[i]) < 0 {
				return false
			}
		}
		return true
	}
	if in("\r\n") && x.prove(st, BApp("oneline", g)) {
		return true
	}
	return in(" \t\r\n\v\f") && x.prove(st, BApp("noblank", g))
}

// position of the first of the characters in a structured text; -1: none; ok: known
func (x *Exec) indexOf(st *State, s *Term, chars string) (*Term, bool) {
	pos := Int(0)
	gs := segs(s)
	if len(gs) < 2 && s.op != OLit && !x.lacks(st, s, chars) {
		return nil, false
	}
	for _, g := range gs {
		if x.lacks(st, g, chars) {
			pos = Add(pos, g.ln)
			continue
		}
		if g.op == OLit {
			return AddK(pos, int64(strings.IndexAny(g.name, chars))), true
		}
		return nil, false
	}
	return Int(-1), true
}

const blanks = " \t\r\n\v\f"

// white space at both ends of a structured text
func (x *Exec) trimOf(st *State, s *Term) (l, n *Term, ok bool) {
	gs := segs(s)
	if len(gs) < 2 && s.op != OLit && !isQApp(s, "b64enc") && !x.prove(st, BApp("oneline", s)) && !x.prove(st, BApp("noblank", s)) {
		return nil, nil, false
	}
	solid := func(g *Term) bool {
		if !isQApp(g, "b64enc") && !x.prove(st, BApp("oneline", g)) && !x.prove(st, BApp("noblank", g)) {
			return false
		}
		return x.prove(st, Lt(Int(0), g.ln))
	}
	lo, hi := int64(0), int64(0)
	i := 0
	for ; i < len(gs); i++ {
		if gs[i].op != OLit {
			if !solid(gs[i]) {
				return nil, nil, false
			}
			break
		}
		t := strings.TrimLeft(gs[i].name, blanks)
		lo += int64(len(gs[i].name) - len(t))
		if t != "" {
			break
		}
	}
	if i == len(gs) {
		return Int(0), Int(0), true
	}
	for j := len(gs) - 1; j >= i; j-- {
		if gs[j].op != OLit {
			if !solid(gs[j]) {
				return nil, nil, false
			}
			break
		}
		t := strings.TrimRight(gs[j].name, blanks)
		hi += int64(len(gs[j].name) - len(t))
		if t != "" {
			break
		}
	}
	return Int(lo), AddK(s.ln, -lo-hi), true
}

func (c *ectx) stringList(ts []*Term) Slice {
	a := &ArrV{typ: types.Typ[types.String]}
	for _, t := range ts {
		a.elems = append(a.elems, t)
	}
	n := Int(int64(len(ts)))
	return Slice{obj: c.x.newObj(c.st, "strings", types.NewArray(a.typ, int64(len(ts))), a), off: Int(0), ln: n, cap_: n, isnil: False}
}

// a structured text split at runs of (or single) separator characters
func (x *Exec) splitAt(st *State, s *Term, chars string, runs bool, max int64) ([]*Term, bool) {
	var r []*Term
	cur := Empty
	sep := false
	last := func() bool { return max > 0 && int64(len(r)) == max-1 }
	for _, g := range segs(s) {
		if g.op != OLit {
			if sep && last() && !x.lacks(st, g, chars) && !x.prove(st, BApp("oneline", g)) {
				return nil, false // the separator may go on
			}
			if !last() && !x.lacks(st, g, chars) {
				return nil, false
			}
			cur = Cat(cur, g)
			sep = false
			continue
		}
		for i := 0; i < len(g.name); i++ {
			if last() && !(sep && runs) {
				cur = Cat(cur, Lit(g.name[i:i+1]))
				continue
			}
			if strings.IndexByte(chars, g.name[i]) < 0 {
				cur = Cat(cur, Lit(g.name[i:i+1]))
				sep = false
				continue
			}
			if !sep || !runs {
				r = append(r, cur)
				cur = Empty
			}
			sep = true
		}
	}
	return append(r, cur), true
}

// a file's contents are a function of its name
func fileTerm(fn *Term) *Term { return QApp("file", IApp("filelen", b0, maxLen, fn), fn) }

// fail: outcome with an error
func init() {
	E := externs
	E["gopkg.in/yaml.v2.Marshal"] = func(c *ectx) []Outcome {
		p, _, u := c.structArg(0)
		var step func(c *ectx, i int, args []*Term) []Outcome
		step = func(c *ectx, i int, args []*Term) []Outcome {
			if i == u.NumFields() {
				return c.ret(c.mkBytes(yamlTerm(args)), nilErr)
			}
			tag, omit, ok := yamlTag(u, i)
			if !ok {
				return step(c, i+1, args)
			}
			v, ok := c.x.get(c.st, p.obj, p.field(i)).(*Term)
			if !ok {
				unsup("yaml: field %s", u.Field(i).Name())
			}
			v = c.st.norm(v)
			add := append(args[:len(args):len(args)], Lit(tag), v)
			if !omit {
				return step(c, i+1, add)
			}
			zero := False
			switch v.sort {
			case SSeq:
				zero = Eq(v.ln, Int(0))
			case SInt:
				zero = Eq(v, Int(0))
			default:
				unsup("yaml: omitempty of a bool")
			}
			return c.fork(zero, func(c *ectx, z bool) []Outcome {
				if z {
					return step(c, i+1, args)
				}
				return step(c, i+1, add)
			})
		}
		return step(c, 0, nil)
	}
	unm := func(c *ectx) []Outcome {
		x := c.x
		b := c.bytes(0)
		p, t, u := c.structArg(1)
		set := func(c *ectx, b *Term) {
			for i := 0; i < u.NumFields(); i++ {
				tag, _, ok := yamlTag(u, i)
				if !ok {
					continue
				}
				ft := u.Field(i).Type()
				var v Value
				if isQApp(b, "yaml") {
					y := yamlGet(b, tag)
					if y == nil {
						continue // the field keeps its value
					}
					if isString(ft) != (y.sort == SSeq) {
						unsup("yaml: type of %s", tag)
					}
					v = y
				} else {
					switch {
					case isString(ft):
						v = QApp("yamlstr", IApp("yamlstrlen", b0, maxLen, Lit(tag), b), Lit(tag), b)
					case isInt(ft):
						z := symInt("", ft)
						v = IApp("yamlint", z.lo, z.hi, Lit(tag), b)
					case isBool(ft):
						v = BApp("yamlbool", Lit(tag), b)
					default:
						unsup("yaml: field type %s", ft)
					}
				}
				x.put(c.st, p.obj, p.field(i), v)
			}
		}
		ok := yamlOK(Lit(typeName(t)), b)
		if !isQApp(b, "yaml") && x.prove(c.st, BApp("notyaml", b)) {
			ok = False
		}
		return c.fork(ok, func(c *ectx, ok bool) []Outcome {
			if ok {
				set(c, c.st.norm(b))
				return c.ret(nilErr)
			}
			// fields may have been set
			q := QSym(x.fresh("badyaml"), ISym(x.fresh("badyamllen"), b0, maxLen))
			set(c, q)
			return c.ret(c.err("yaml"))
		})
	}
	E["gopkg.in/yaml.v2.Unmarshal"] = unm
	E["gopkg.in/yaml.v2.UnmarshalStrict"] = unm

	E["golang.org/x/crypto/ssh.Marshal"] = func(c *ectx) []Outcome {
		x := c.x
		var v *StructV
		var u *types.Struct
		a := c.args[0]
		if f, ok := a.(Iface); ok {
			a = f.v
		}
		switch y := a.(type) {
		case *StructV:
			v = y
		case Ptr:
			v, _ = x.get(c.st, y.obj, y.path).(*StructV)
		}
		if v == nil {
			unsup("ssh.Marshal of this")
		}
		u = v.typ.Underlying().(*types.Struct)
		out := Empty
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch w := v.f[i].(type) {
			case *Term:
				w = c.st.norm(w)
				if w.sort == SSeq {
					out = Cat(out, QInt(w.ln, 4, true), w)
					continue
				}
				bits, sg := intBits(ft)
				if w.sort != SInt || sg || bits == 16 {
					unsup("ssh: field type %s", ft)
				}
				out = Cat(out, QInt(w, int64(bits/8), true))
			case Slice:
				b := c.st.norm(x.content(c.st, w))
				if reflect.StructTag(u.Tag(i)).Get("ssh") != "rest" {
					out = Cat(out, QInt(b.ln, 4, true))
				}
				out = Cat(out, b)
			default:
				unsup("ssh: field type %s", ft)
			}
		}
		return c.ret(c.mkBytes(out))
	}

	E["golang.org/x/crypto/ssh.Unmarshal"] = func(c *ectx) []Outcome {
		x := c.x
		in, ok := c.args[0].(Slice)
		if !ok {
			unsup("ssh.Unmarshal input")
		}
		d := x.content(c.st, in)
		p, _, u := c.structArg(1)
		short := func(c *ectx) []Outcome { return c.ret(c.err("short read")) }
		// a length-prefixed string at pos
		str := func(c *ectx, pos *Term, k func(c *ectx, s Slice, t, pos *Term) []Outcome) []Outcome {
			return c.fork(Le(AddK(pos, 4), d.ln), func(c *ectx, ok bool) []Outcome {
				if !ok {
					return short(c)
				}
				n := x.inRange(c.st, Un(x.slice(c.st, c.st.norm(d), pos, Int(4), true), true))
				at := AddK(pos, 4)
				return c.fork(Le(Add(at, n), d.ln), func(c *ectx, ok bool) []Outcome {
					if !ok {
						return short(c)
					}
					s := Slice{obj: in.obj, path: in.path, off: Add(in.off, at), ln: n, cap_: Sub(in.cap_, at), isnil: False}
					return k(c, s, x.slice(c.st, c.st.norm(d), at, n, true), Add(at, n))
				})
			})
		}
		var step func(c *ectx, i int, pos *Term) []Outcome
		step = func(c *ectx, i int, pos *Term) []Outcome {
			if i == u.NumFields() {
				return c.fork(Eq(pos, d.ln), func(c *ectx, ok bool) []Outcome {
					if !ok {
						return c.ret(c.err("trailing data"))
					}
					return c.ret(nilErr)
				})
			}
			ft := u.Field(i).Type()
			set := func(c *ectx, v Value) { x.put(c.st, p.obj, p.field(i), v) }
			switch {
			case isString(ft):
				return str(c, pos, func(c *ectx, s Slice, t, pos *Term) []Outcome {
					set(c, t)
					return step(c, i+1, pos)
				})
			case isInt(ft):
				bits, sg := intBits(ft)
				if sg || bits == 16 {
					unsup("ssh: field type %s", ft)
				}
				n := int64(bits / 8)
				return c.fork(Le(AddK(pos, n), d.ln), func(c *ectx, ok bool) []Outcome {
					if !ok {
						return short(c)
					}
					set(c, Un(x.slice(c.st, c.st.norm(d), pos, Int(n), true), true))
					return step(c, i+1, AddK(pos, n))
				})
			}
			if s, ok := ft.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
				if reflect.StructTag(u.Tag(i)).Get("ssh") == "rest" {
					set(c, Slice{obj: in.obj, path: in.path, off: Add(in.off, pos), ln: Sub(d.ln, pos), cap_: Sub(in.cap_, pos), isnil: False})
					return step(c, i+1, d.ln)
				}
				return str(c, pos, func(c *ectx, s Slice, t, pos *Term) []Outcome {
					set(c, s)
					return step(c, i+1, pos)
				})
			}
			unsup("ssh: field type %s", ft)
			return nil
		}
		return c.fork(Eq(d.ln, Int(0)), func(c *ectx, z bool) []Outcome {
			if z {
				return c.ret(c.err("no data"))
			}
			return step(c, 0, Int(0))
		})
	}

	E["encoding/pem.Decode"] = func(c *ectx) []Outcome {
		x := c.x
		b := c.bytes(0)
		bt := x.namedType("encoding/pem", "Block")
		block := func(c *ectx, ty *Term, by *Term) []Outcome {
			v := &StructV{typ: bt, f: []Value{ty, MapV{x.newObj(c.st, "pemheaders", nil, &MapC{more: true})}, c.mkBytes(by)}}
			rest := QApp("pemrest", IApp("pemrestlen", b0, maxLen, b), b)
			return c.ret(Ptr{obj: x.newObj(c.st, "pemblock", bt, v)}, c.mkBytes(rest))
		}
		if isQApp(b, "pem") {
			return block(c, b.args[1], b.args[2])
		}
		// text that is no PEM
		no := func(c *ectx) []Outcome { return c.ret(Ptr{}, c.args[0]) }
		if isQApp(b, "yaml") || b == Empty {
			return no(c)
		}
		return c.fork(BApp("pemok", b), func(c *ectx, ok bool) []Outcome {
			if !ok {
				return no(c)
			}
			return block(c, QApp("pemtype", IApp("pemtypelen", b0, maxLen, b), b), QApp("pembytes", IApp("pembyteslen", b0, maxLen, b), b))
		})
	}
	E["crypto/x509.IsEncryptedPEMBlock"] = func(c *ectx) []Outcome {
		p, ok := c.args[0].(Ptr)
		if !ok {
			unsup("PEM block")
		}
		c.must("nil PEM block", Bool(p.obj != 0))
		t := c.x.get(c.st, p.obj, p.field(0)).(*Term)
		by := c.x.content(c.st, c.x.get(c.st, p.obj, p.field(2)).(Slice))
		if t.op == OLit {
			return c.ret(False)
		}
		return c.ret(BApp("pemencrypted", t, by))
	}

	split := func(c *ectx, s *Term, chars string, runs bool, max int64, all bool) []Outcome {
		x := c.x
		if max != 0 && chars != "" {
			if ts, ok := x.splitAt(c.st, s, chars, runs, max); ok {
				return c.ret(c.stringList(ts))
			}
		}
		// any other text: up to 4 parts one by one, or more
		how := Lit(c.name)
		if max > 0 {
			how = Lit(fmt.Sprintf("%s,%d", c.name, max))
		}
		n := IApp("splitn", b1, maxLen, how, Lit(chars), s)
		c.st.assume(x, Le(n, AddK(s.ln, 1)))
		if max > 0 {
			c.st.assume(x, Le(n, Int(max)))
		}
		part := func(i int64) *Term {
			p := QApp("splitpart", IApp("splitlen", b0, maxLen, how, Lit(chars), s, Int(i)), how, Lit(chars), s, Int(i))
			c.st.assume(x, Le(p.ln, s.ln))
			return p
		}
		var ts []*Term
		for i := int64(0); i < 4; i++ {
			ts = append(ts, part(i))
		}
		yml := isQApp(s, "yaml") && len(s.args) > 3 && (chars == " \t" || c.name == "strings.Fields")
		var try func(c *ectx, k int64) []Outcome
		try = func(c *ectx, k int64) []Outcome {
			if k > 4 {
				c.st.assume(x, Lt(Int(4), n))
				return c.ret(x.symSlice(c.st, x.fresh("split"), types.Typ[types.String], n))
			}
			return c.fork(Eq(n, Int(k)), func(c *ectx, is bool) []Outcome {
				if is {
					if yml {
						// two or more lines "key: value" have a part that ends a key
						if k < 3 {
							return nil
						}
						ts[1] = Cat(ts[1], Lit(":"))
					}
					return c.ret(c.stringList(ts[:k]))
				}
				return try(c, k+1)
			})
		}
		return try(c, 1)
	}
	E["(*regexp.Regexp).Split"] = func(c *ectx) []Outcome {
		r, k := c.x.ghostKind(c.st, c.args[0])
		if k != "regexp" {
			unsup("regexp")
		}
		re := c.st.abs(r).f["re"].(*Term)
		chars, runs := "", false
		switch re.name {
		case "[ \\t]+":
			chars, runs = " \t", true
		case "[ \\t]":
			chars = " \t"
		}
		n, ok := c.term(2).ConstI()
		if !ok {
			n = 1
		}
		return split(c, c.bytes(1), chars, runs, n, true)
	}
	E["strings.Fields"] = func(c *ectx) []Outcome { return split(c, c.bytes(0), "", true, 0, false) }
	E["strings.Split"] = func(c *ectx) []Outcome {
		sep := c.bytes(1)
		if sep.op == OLit && len(sep.name) == 1 {
			return split(c, c.bytes(0), sep.name, false, -1, true)
		}
		return split(c, c.bytes(0), "", false, 0, true)
	}

	// ---- files
	fail := func(c *ectx, what string, k func(c *ectx) []Outcome, bad func(c *ectx, e Iface) []Outcome) []Outcome {
		return c.choose(what, func(c *ectx, ok bool) []Outcome {
			if ok {
				return k(c)
			}
			return c.hooked("file.fail", []Value{Lit(what)}, func(c *ectx) []Outcome {
				return bad(c, errIface(ISym(c.x.fresh("err:"+what), errLo, nil)))
			})
		})
	}
	rf := func(c *ectx) []Outcome {
		fn := c.bytes(0)
		return fail(c, "readfile", func(c *ectx) []Outcome {
			return c.hooked("file.open", []Value{fn}, func(c *ectx) []Outcome { return c.ret(c.mkBytes(c.st.norm(fileTerm(fn))), nilErr) })
		}, func(c *ectx, e Iface) []Outcome { return c.ret(nilSlice(), e) })
	}
	E["io/ioutil.ReadFile"] = rf
	E["os.ReadFile"] = rf
	E["os.Open"] = func(c *ectx) []Outcome {
		fn := c.bytes(0)
		return fail(c, "open", func(c *ectx) []Outcome {
			x := c.x
			f := x.newAbs(c.st, "file", map[string]Value{"name": fn, "src": c.st.norm(fileTerm(fn)), "pos": Int(0), "end": ISym(x.fresh("err:fileend"), errLo, nil), "closed": Int(0)})
			return c.hooked("file.open", []Value{fn}, func(c *ectx) []Outcome { return c.ret(Ptr{obj: f.obj}, nilErr) })
		}, func(c *ectx, e Iface) []Outcome { return c.ret(Ptr{}, e) })
	}
	file := func(c *ectx) (AbsRef, *Abs) {
		r, k := c.x.ghostKind(c.st, c.args[0])
		if k != "file" {
			if p, ok := c.args[0].(Ptr); ok && p.obj == 0 {
				c.must("nil file", False)
			}
			unsup("%s of %s", c.name, k)
		}
		return r, c.st.abs(r)
	}
	E["(*os.File).Name"] = func(c *ectx) []Outcome {
		_, a := file(c)
		return c.ret(a.f["name"])
	}
	E["(*os.File).Close"] = func(c *ectx) []Outcome {
		r, a := file(c)
		c.x.absSet(c.st, r, "closed", AddK(a.f["closed"].(*Term), 1))
		return c.choose("close", func(c *ectx, ok bool) []Outcome {
			if ok {
				return c.ret(nilErr)
			}
			return c.ret(errIface(ISym(c.x.fresh("err:close"), errLo, nil)))
		})
	}
	E["(*os.File).Stat"] = func(c *ectx) []Outcome {
		_, a := file(c)
		src := a.f["src"].(*Term)
		return fail(c, "stat", func(c *ectx) []Outcome {
			// a file has its size, or (pipes, devices, /proc) none
			return c.choose("sized", func(c *ectx, yes bool) []Outcome {
				n := src.ln
				if !yes {
					n = Int(0)
				}
				return c.ret(Iface{v: c.x.newAbs(c.st, "fileinfo", map[string]Value{"size": n, "sized": Bool(yes)})}, nilErr)
			})
		}, func(c *ectx, e Iface) []Outcome { return c.ret(nilIface(), e) })
	}
	absMethods["fileinfo.Size"] = func(c *ectx, r AbsRef) []Outcome { return c.ret(c.st.abs(r).f["size"]) }
	absMethods["file.Write"] = nil
	delete(absMethods, "file.Write")

	// the loop of mmap.Reader is executed; a mapping holds the file's bytes at that place
	const mm = "(*github.com/opencoff/go-mmap.Mmap)."
	E[mm+"mmap"] = func(c *ectx) []Outcome {
		x := c.x
		p := c.args[0].(Ptr)
		r, k := x.ghostKind(c.st, x.get(c.st, p.obj, p.field(0)))
		if k != "file" {
			unsup("mmap of %s", k)
		}
		src := c.st.abs(r).f["src"].(*Term)
		sz, off := c.term(1), c.term(2)
		return fail(c, "mmap", func(c *ectx) []Outcome {
			c.must("mapping beyond the end of the file", And(Le(Int(0), off), Le(Add(off, sz), src.ln)))
			t := x.namedType("github.com/opencoff/go-mmap", "Mapping")
			v := x.zero(t).(*StructV)
			v.f[fieldIdx(t, "buf")] = c.mkBytes(x.slice(c.st, c.st.norm(src), off, sz, true))
			return c.ret(Ptr{obj: x.newObj(c.st, "mapping", t, v)}, nilErr)
		}, func(c *ectx, e Iface) []Outcome { return c.ret(Ptr{}, e) })
	}
	E["(*github.com/opencoff/go-mmap.Mapping).unmap"] = func(c *ectx) []Outcome { return c.ret(nilErr) }

	// ---- go-fio's SafeFile: a temporary file that Close renames to the requested name
	const sf = "github.com/opencoff/go-fio."
	E[sf+"NewSafeFile"] = func(c *ectx) []Outcome {
		x := c.x
		fn, opts, flag, mode := c.bytes(0), c.term(1), c.term(2), c.term(3)
		return fail(c, "create", func(c *ectx) []Outcome {
			f := x.newAbs(c.st, "safefile", map[string]Value{"name": fn, "mode": Lit("fail"), "log": Empty, "failed": False,
				"closed": Int(0), "state": Int(0), "err": Int(0), "flag": flag})
			ow := Eq(ModK(opts, B(2)), Int(1))
			return c.hooked("file.new", []Value{fn, ow, mode, flag}, func(c *ectx) []Outcome { return c.ret(Ptr{obj: f.obj}, nilErr) })
		}, func(c *ectx, e Iface) []Outcome { return c.ret(Ptr{}, e) })
	}
	safe := func(c *ectx) (AbsRef, bool) {
		r, k := c.x.ghostKind(c.st, c.args[0])
		if k != "safefile" {
			if p, ok := c.args[0].(Ptr); ok && p.obj == 0 {
				c.must("nil file", False)
				return r, false
			}
			unsup("%s of %s", c.name, k)
		}
		return r, true
	}
	abort := func(c *ectx, r AbsRef, k func(c *ectx) []Outcome) []Outcome {
		a := c.st.abs(r)
		if !a.f["state"].(*Term).isK(0) {
			return k(c)
		}
		c.x.absSet(c.st, r, "state", Int(-1))
		return c.hooked("file.abort", []Value{a.f["name"]}, k)
	}
	sfWrite := func(c *ectx, r AbsRef, d *Term) []Outcome {
		x := c.x
		a := c.st.abs(r)
		e := a.f["err"].(*Term)
		return c.fork(Eq(e, Int(0)), func(c *ectx, good bool) []Outcome {
			if !good {
				return c.ret(Int(0), errIface(e))
			}
			if !a.f["state"].(*Term).isK(0) {
				return c.ret(Int(0), extErr("safefile: not open"))
			}
			return fail(c, "write", func(c *ectx) []Outcome {
				x.absSet(c.st, r, "log", Cat(c.st.abs(r).f["log"].(*Term), d))
				return c.hooked("file.write", []Value{d, nilErr}, func(c *ectx) []Outcome { return c.ret(d.ln, nilErr) })
			}, func(c *ectx, e Iface) []Outcome {
				n := ISym(x.fresh("nwritten"), b0, maxLen)
				c.st.assume(x, Le(n, d.ln))
				p := x.slice(c.st, d, Int(0), n, false)
				x.absSet(c.st, r, "log", Cat(c.st.abs(r).f["log"].(*Term), p))
				x.absSet(c.st, r, "err", e.err)
				x.absSet(c.st, r, "failed", True)
				return c.hooked("file.write", []Value{p, e}, func(c *ectx) []Outcome { return c.ret(n, e) })
			})
		})
	}
	sfClose := func(c *ectx, r AbsRef) []Outcome {
		x := c.x
		a := c.st.abs(r)
		e := a.f["err"].(*Term)
		return c.fork(Eq(e, Int(0)), func(c *ectx, good bool) []Outcome {
			if !good {
				return abort(c, r, func(c *ectx) []Outcome { return c.ret(errIface(e)) })
			}
			s := a.f["state"].(*Term)
			switch {
			case s.isK(0):
			case s.isK(-1):
				return c.ret(extErr("safefile: aborted"))
			default:
				return c.ret(nilErr)
			}
			x.absSet(c.st, r, "state", Int(1))
			return fail(c, "commit", func(c *ectx) []Outcome {
				return c.hooked("file.commit", []Value{a.f["name"], c.st.norm(a.f["log"].(*Term))}, func(c *ectx) []Outcome { return c.ret(nilErr) })
			}, func(c *ectx, e Iface) []Outcome {
				x.absSet(c.st, r, "err", e.err)
				return c.hooked("file.abort", []Value{a.f["name"]}, func(c *ectx) []Outcome { return c.ret(e) })
			})
		})
	}
	E["(*"+sf+"SafeFile).Write"] = func(c *ectx) []Outcome {
		r, ok := safe(c)
		if !ok {
			return nil
		}
		return sfWrite(c, r, c.bytes(1))
	}
	E["(*"+sf+"SafeFile).Close"] = func(c *ectx) []Outcome {
		r, ok := safe(c)
		if !ok {
			return nil
		}
		return sfClose(c, r)
	}
	E["(*"+sf+"SafeFile).Abort"] = func(c *ectx) []Outcome {
		r, ok := safe(c)
		if !ok {
			return nil
		}
		return abort(c, r, func(c *ectx) []Outcome { return c.ret() })
	}
	absMethods["safefile.Write"] = func(c *ectx, r AbsRef) []Outcome { return sfWrite(c, r, c.bytes(0)) }
	absMethods["safefile.Close"] = func(c *ectx, r AbsRef) []Outcome { return sfClose(c, r) }

	// ---- big.Int
	E["(*math/big.Int).Bytes"] = func(c *ectx) []Outcome {
		x := c.x
		v := c.big(0)
		// by length
		var try func(c *ectx, k int64) []Outcome
		try = func(c *ectx, k int64) []Outcome {
			if k > 64 {
				unsup("big.Int of more than 64 bytes")
			}
			return c.fork(Lt(v, BigI(pow2(uint(8*k)))), func(c *ectx, ok bool) []Outcome {
				if !ok {
					return try(c, k+1)
				}
				if k == 0 {
					c.st.assume(x, Eq(v, Int(0)))
				}
				return c.ret(c.mkBytes(QInt(v, k, true)))
			})
		}
		return try(c, 0)
	}
	E["(*math/big.Int).FillBytes"] = func(c *ectx) []Outcome {
		b, ok := c.args[1].(Slice)
		n, isk := b.ln.ConstI()
		if !ok || !isk {
			return nil
		}
		v := c.big(0)
		c.must("math/big: buffer too small to fit value", And(Le(Int(0), v), Lt(v, BigI(pow2(uint(8*n))))))
		c.x.writeBytes(c.st, b, Int(0), QInt(v, n, true))
		return c.ret(b)
	}
	I := intrinsics
	// the birational map by its formula: little-endian (1+y)/(1-y) mod 2^255-19, 1/0 = 0
	I["vMontgomery"] = func(c *ectx) []Outcome {
		p := new(big.Int).Sub(pow2(255), B(19))
		b := c.bytes(0)
		y := Un(Cat(QSub(b, Int(0), Int(31)), QByte(ModK(At(b, Int(31)), B(128)))), false)
		u := bigMod(Mul(AddK(y, 1), modInv(Sub(Int(1), y), p)), p)
		return c.ret(QInt(u, 32, false))
	}
	I["vFileText"] = func(c *ectx) []Outcome { return c.ret(fileTerm(c.bytes(0))) }
	I["vNoBlank"] = func(c *ectx) []Outcome { return c.ret(BApp("noblank", c.bytes(0))) }
	I["vOneLine"] = func(c *ectx) []Outcome { return c.ret(BApp("oneline", c.bytes(0))) }
	I["vPem"] = func(c *ectx) []Outcome {
		t, b := c.bytes(0), c.bytes(1)
		return c.ret(QApp("pem", IApp("pemlen", b1, maxLen, t, b), t, b))
	}
	// the text of a YAML key: yaml(tag, value, ...); values are strings or ints
	I["vYaml"] = func(c *ectx) []Outcome {
		var as []*Term
		for _, v := range c.variadic(0) {
			if i, ok := v.(Iface); ok {
				v = i.v
			}
			t, ok := v.(*Term)
			if !ok {
				unsup("vYaml: %T", v)
			}
			as = append(as, c.st.norm(t))
		}
		return c.ret(yamlTerm(as))
	}
	I["vYamlGet"] = func(c *ectx) []Outcome {
		d := c.bytes(0)
		if !isQApp(d, "yaml") {
			unsup("vYamlGet of %s", d)
		}
		v := yamlGet(d, c.lit(1))
		if v == nil {
			return c.ret(Empty, False)
		}
		return c.ret(v, True)
	}
	I["vYamlInt"] = func(c *ectx) []Outcome {
		d := c.bytes(0)
		if !isQApp(d, "yaml") {
			unsup("vYamlInt of %s", d)
		}
		v := yamlGet(d, c.lit(1))
		if v == nil {
			return c.ret(Int(0), False)
		}
		return c.ret(v, True)
	}
	I["vIsYaml"] = func(c *ectx) []Outcome { return c.ret(Bool(isQApp(c.bytes(0), "yaml"))) }
	I["vBcrypt"] = func(c *ectx) []Outcome {
		return c.ret(QApp("bcryptpbkdf", c.term(3), c.bytes(0), c.bytes(1), c.term(2)))
	}
	I["vCtr"] = func(c *ectx) []Outcome { return c.ret(ctrXor(c.bytes(0), c.bytes(1), c.bytes(2))) }
	I["vCbcDec"] = func(c *ectx) []Outcome { return c.ret(cbcDec(c.bytes(0), c.bytes(1), c.bytes(2))) }
	I["vNoYaml"] = func(c *ectx) []Outcome { return c.ret(BApp("notyaml", c.bytes(0))) }
	// a CBC ciphertext, of whole blocks
	I["vCbcEnc"] = func(c *ectx) []Outcome {
		return c.ret(QApp("cbcenc", c.bytes(2).ln, c.bytes(0), c.bytes(1), c.bytes(2)))
	}
}

func modInv(v *Term, m *big.Int) *Term {
	return IApp("modinv", b0, new(big.Int).Sub(m, b1), v, BigI(m))
}

// the remainder of a product is kept as such
func bigMod(v *Term, m *big.Int) *Term {
	if hasMul(v) {
		return IApp("bigmod", b0, new(big.Int).Sub(m, b1), v, BigI(m))
	}
	return ModK(v, m)
}

func hasMul(v *Term) bool {
	if v.op == OMul {
		return true
	}
	if v.op == OLin {
		for _, a := range v.args {
			if a.op == OMul {
				return true
			}
		}
	}
	return false
}

// the big-endian number of bytes; a text taken byte by byte from its end is a little-endian number
func unBytes(s *Term) *Term {
	gs := segs(s)
	if len(gs) < 2 {
		return Un(s, true)
	}
	r := make([]*Term, len(gs))
	for i, g := range gs {
		if !g.ln.isK(1) {
			return Un(s, true)
		}
		r[len(gs)-1-i] = g
	}
	return Un(Cat(r...), false)
}
