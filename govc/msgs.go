package main

// Protocol messages: their layout, and the contracts of the generated
// Size, Encode and Decode methods.

import (
	"bufio"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

type FieldDef struct {
	Name, Kind string
	Lo, Hi     int
}

const verMin, verMax = -32768, 32767

type Schema struct {
	types map[string][]FieldDef
	order []string
}

func loadSchema(path string) (*Schema, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	s := &Schema{types: map[string][]FieldDef{}}
	cur := ""
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		ln := sc.Text()
		if k := strings.Index(ln, "#"); k >= 0 {
			ln = ln[:k]
		}
		p := strings.Fields(ln)
		if len(p) == 0 {
			continue
		}
		if p[0] == "message" {
			cur = p[1]
			s.types[cur] = nil
			s.order = append(s.order, cur)
			continue
		}
		fd := FieldDef{Name: p[0], Kind: p[1], Lo: verMin, Hi: verMax}
		if strings.HasPrefix(fd.Kind, "[]") {
			fd.Kind = "msgarr:" + fd.Kind[2:]
		}
		if p[2] != "all" {
			ab := strings.Split(p[2], "..")
			if ab[0] != "" {
				fmt.Sscan(ab[0], &fd.Lo)
			}
			if ab[1] != "" {
				fmt.Sscan(ab[1], &fd.Hi)
			}
		}
		s.types[cur] = append(s.types[cur], fd)
	}
	return s, sc.Err()
}

// regions partitions the versions so that the layout of T is constant in each.
func (s *Schema) regions(T string) [][2]int {
	cut := map[int]bool{verMin: true}
	for _, f := range s.types[T] {
		cut[f.Lo] = true
		if f.Hi < verMax {
			cut[f.Hi+1] = true
		}
	}
	var cs []int
	for k := range cut {
		cs = append(cs, k)
	}
	sort.Ints(cs)
	var out [][2]int
	for i, a := range cs {
		b := verMax
		if i+1 < len(cs) {
			b = cs[i+1] - 1
		}
		out = append(out, [2]int{a, b})
	}
	return out
}
func (s *Schema) carried(T string, r [2]int) []FieldDef {
	var out []FieldDef
	for _, f := range s.types[T] {
		if f.Lo <= r[0] && r[1] <= f.Hi {
			out = append(out, f)
		}
	}
	return out
}

var minBytes = map[string]int64{"i8": 1, "bool": 1, "i16": 2, "i32": 4, "i64": 8, "str": 2}

// minSize is the least size of T over the versions of r.
func (s *Schema) minSize(T string, r [2]int) int64 {
	best := int64(-1)
	for _, q := range s.regions(T) {
		if q[1] < r[0] || q[0] > r[1] {
			continue
		}
		n := int64(0)
		for _, f := range s.carried(T, q) {
			if b, ok := minBytes[f.Kind]; ok {
				n += b
			} else {
				n += 4
			}
		}
		if best < 0 || n < best {
			best = n
		}
	}
	return best
}

// MsgCtx is the message being verified.
type MsgCtx struct {
	sch    *Schema
	T      string
	region [2]int
	pkg    *types.Package
}

func (m *MsgCtx) typ(T string) types.Type { return m.pkg.Scope().Lookup(T).Type() }

func fieldIndex(t types.Type, name string) int {
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (m *MsgCtx) fieldVal(x *Exec, st *State, v Val, name string) Val {
	sv, ok := v.(*StructV)
	if !ok {
		panic("message value")
	}
	i := fieldIndex(sv.typ, name)
	if i < 0 {
		panic("spec: no field " + name + " in " + typeName(sv.typ))
	}
	return x.field(st, sv, i)
}

func (m *MsgCtx) size(x *Exec, st *State, v Val, ver *Term) *Term {
	s := x.c.Int(0)
	for _, f := range m.sch.carried(m.T, m.region) {
		s = x.c.Add(s, x.szField(st, f.Kind, m.fieldVal(x, st, v, f.Name), ver))
	}
	return s
}
func (m *MsgCtx) enc(x *Exec, st *State, a, o *Term, v Val, ver *Term) *Term {
	var cs []*Term
	for _, f := range m.sch.carried(m.T, m.region) {
		fv := m.fieldVal(x, st, v, f.Name)
		cs = append(cs, x.encField(st, f.Kind, a, o, fv, ver))
		o = x.c.Add(o, x.szField(st, f.Kind, fv, ver))
	}
	return x.c.And(cs...)
}
func (m *MsgCtx) eqv(x *Exec, sa *State, a Val, sb *State, b Val, ver *Term) *Term {
	var cs []*Term
	for _, f := range m.sch.carried(m.T, m.region) {
		cs = append(cs, x.eqField(sa, m.fieldVal(x, sa, a, f.Name), sb, m.fieldVal(x, sb, b, f.Name), f.Kind, ver))
	}
	return x.c.And(cs...)
}
func (m *MsgCtx) dom(x *Exec, st *State, v Val, ver *Term) *Term {
	var cs []*Term
	for _, f := range m.sch.carried(m.T, m.region) {
		cs = append(cs, x.domField(st, f.Kind, m.fieldVal(x, st, v, f.Name), ver))
	}
	return x.c.And(cs...)
}
func (m *MsgCtx) untouched(x *Exec, init, end *State, a, b Val) *Term {
	c := map[string]bool{}
	for _, f := range m.sch.carried(m.T, m.region) {
		c[f.Name] = true
	}
	u := under(m.typ(m.T)).(*types.Struct)
	var cs []*Term
	for i := 0; i < u.NumFields(); i++ {
		n := u.Field(i).Name()
		if !c[n] {
			cs = append(cs, x.c.Eq(x.reify(init, m.fieldVal(x, init, a, n), u.Field(i).Type()), x.reify(end, m.fieldVal(x, end, b, n), u.Field(i).Type())))
		}
	}
	return x.c.And(cs...)
}

// install makes the sizes of nested messages known to be at least their
// minimum in this region.
func (m *MsgCtx) install(x *Exec) {
	x.opts["elemmin1"] = true
	for _, f := range m.sch.carried(m.T, m.region) {
		if strings.HasPrefix(f.Kind, "msgarr:") && m.sch.minSize(f.Kind[7:], m.region) < 1 {
			delete(x.opts, "elemmin1")
		}
	}
	x.extra["minsize"] = func(T string, t, v *Term) *Term {
		if n := m.sch.minSize(T, m.region); n > 0 {
			return x.c.Le(x.c.Int(n), t)
		}
		return x.c.True
	}
}

func tv(e *Env, n string) *Term { return e.vars[n].(*Term) }
func (e *Env) msgTerm(n string) *Term {
	v := e.vars[n]
	if p, ok := v.(*PtrV); ok {
		v = e.x.load(e.st, p)
	}
	return e.x.reify(e.st, v, nil)
}

// message contracts ---------------------------------------------------

func msgMethod(name string) (T, method string) {
	s := strings.TrimPrefix(name, "message.")
	s = strings.Replace(strings.Replace(s, "(*", "", 1), ")", "", 1)
	k := strings.Index(s, ".")
	if k < 0 {
		return "", ""
	}
	return s[:k], s[k+1:]
}

var allMsg = []string{"C01", "C02", "C03", "C08", "C10", "C11"}

// msgContract builds the contract of a generated method. m is nil for the
// contract used at call sites.
func msgContract(specs *SpecSet, name string, m *MsgCtx) *Contract {
	T, method := msgMethod(name)
	mk := func(n string, props []string, text string, f func(e *Env) *Term) *Clause {
		return &Clause{name: n, props: props, text: text, eval: f}
	}
	parsed := func(word, n string, props []string, text string) *Clause {
		nd := parseExpr(text)
		return mk(n, props, text, func(e *Env) *Term { return e.evalBool(specs, nd) })
	}
	mods := func(ct *Contract, text string) {
		for _, p := range splitTop(text) {
			nd := parseExpr(p)
			ct.modText = append(ct.modText, p)
			ct.modifies = append(ct.modifies, func(e *Env) []*Loc { return e.locs(specs, nd) })
		}
	}
	size := func(e *Env, n string) *Term {
		if m != nil {
			v := e.vars[n]
			st := e.old
			if p, ok := v.(*PtrV); ok {
				v = e.x.load(e.st, p)
				st = e.st
			}
			return m.size(e.x, st, v, tv(e, "version"))
		}
		return e.x.msgSize(T, e.msgTerm(n), tv(e, "version"))
	}
	ct := &Contract{name: name}
	if m != nil {
		ct.setup = func(x *Exec, st *State, vars map[string]Val) {
			v := vars["version"].(*Term)
			x.extra["version"] = v
			x.assume(st, x.c.And(x.c.Le(x.c.Int(int64(m.region[0])), v), x.c.Le(v, x.c.Int(int64(m.region[1])))))
			m.install(x)
		}
	}
	switch method {
	case "Size":
		ct.params = []string{"t", "version"}
		ct.ensures = []*Clause{mk("size", []string{"C01", "C03", "C10"}, "result == w32(sz("+T+", t, version))", func(e *Env) *Term {
			return e.x.c.Eq(tv(e, "result"), e.x.w32(size(e, "t")))
		})}
	case "Encode":
		ct.params = []string{"t", "e", "version"}
		ct.requires = []*Clause{parsed("requires", "inv", nil, "encInv(e)")}
		mods(ct, "except(e, target), pos(e.target), failed(e.target), first(e.target)")
		ct.ensures = []*Clause{
			// the lower bound that others assume of the size of this type
			mk("minsize", []string{"C01", "C02", "C03", "C08", "C10", "C11"}, "minSize("+T+") <= sz("+T+", t, version)", func(e *Env) *Term {
				if m == nil {
					return e.x.c.True
				}
				return e.x.c.Le(e.x.c.Int(m.sch.minSize(T, m.region)), size(e, "t"))
			}),
			parsed("ensures", "inv", []string{"C09"}, "encInv(e)"),
			parsed("ensures", "sticky", []string{"C09"}, "old(failed(e.target)) ==> failed(e.target) && e.err == old(e.err) && pos(e.target) == old(pos(e.target))"),
			mk("advance", []string{"C01", "C02", "C03", "C08", "C10", "C11"}, "!failed(e.target) ==> !old(failed(e.target)) && pos(e.target) == old(pos(e.target)) + sz("+T+", t, version)", func(e *Env) *Term {
				c := e.x.c
				f, fo := e.failed(specs), e.with(e.old).failed(specs)
				p, po := e.pos(specs), e.with(e.old).pos(specs)
				return c.Imp(c.Not(f), c.And(c.Not(fo), c.Eq(p, c.Add(po, size(e, "t")))))
			}),
			mk("content", []string{"C02", "C03", "C08", "C10", "C11"}, "!failed(e.target) ==> F(e.target) holds the fields of "+T+" at old(pos(e.target))", func(e *Env) *Term {
				c := e.x.c
				po := e.with(e.old).pos(specs)
				F := e.strF(specs)
				var body *Term
				if m != nil {
					body = m.enc(e.x, e.old, F, po, e.vars["t"], tv(e, "version"))
				} else {
					body = e.x.encElem("msg:"+T, F, po, e.msgTerm("t"), []*Term{tv(e, "version")})
				}
				return c.Imp(c.Not(e.failed(specs)), body)
			}),
		}
	case "Decode":
		ct.params = []string{"t", "d", "version"}
		ct.requires = []*Clause{parsed("requires", "inv", nil, "dinv(d)")}
		mods(ct, "*t, except(d, raw, length)")
		ct.ensures = []*Clause{parsed("ensures", "safe", []string{"C07"}, "dinv(d) && d.offset >= old(d.offset)")}
		b := &Behavior{name: "rt"}
		R, O := parseExpr("R(d)"), parseExpr("O(d)")
		off := parseExpr("d.offset")
		lim := parseExpr("d.length")
		b.when = []*Clause{mk("encoded", nil, "R(d) holds x at O(d)", func(e *Env) *Term {
			a, o := e.evalInt(specs, R), e.evalInt(specs, O)
			xv := e.vars["x"]
			if m != nil {
				return m.enc(e.x, e.st, a, o, xv, tv(e, "version"))
			}
			return e.x.encElem("msg:"+T, a, o, xv.(*Term), []*Term{tv(e, "version")})
		}), mk("domain", nil, "x is encodable", func(e *Env) *Term {
			if m != nil {
				return m.dom(e.x, e.st, e.vars["x"], tv(e, "version"))
			}
			return e.x.domElem("msg:"+T, e.vars["x"].(*Term), []*Term{tv(e, "version")})
		})}
		xsize := func(e *Env) *Term {
			if m != nil {
				return m.size(e.x, e.old, e.vars["x"], tv(e, "version"))
			}
			return e.x.msgSize(T, e.vars["x"].(*Term), tv(e, "version"))
		}
		fits := func(e *Env) *Term {
			o := e.with(e.old)
			return e.x.c.Le(e.x.c.Add(o.evalInt(specs, off), xsize(e)), o.evalInt(specs, lim))
		}
		b.ensures = []*Clause{
			mk("value", []string{"C02", "C03", "C11"}, "old(fits(d, sz(x))) ==> result == nil && *t equals x in every carried field && d.offset == old(d.offset) + sz(x)", func(e *Env) *Term {
				x, c := e.x, e.x.c
				t := x.load(e.st, e.vars["t"].(*PtrV))
				var eq *Term
				if m != nil {
					eq = m.eqv(x, e.st, t, e.old, e.vars["x"], tv(e, "version"))
				} else {
					eq = x.eqElem("msg:"+T, x.reify(e.st, t, nil), e.vars["x"].(*Term), []*Term{tv(e, "version")})
				}
				return c.Imp(fits(e), c.And(e.equal(e.vars["result"], NilPtr{}), eq,
					c.Eq(e.evalInt(specs, off), c.Add(e.with(e.old).evalInt(specs, off), xsize(e)))))
			}),
			mk("trunc", []string{"C02", "C08", "C11"}, "!old(fits(d, sz(x))) ==> result != nil && short(result)", func(e *Env) *Term {
				c := e.x.c
				r := e.vars["result"]
				return c.Imp(c.Not(fits(e)), c.And(c.Not(e.equal(r, NilPtr{})), specFuns["short"](e, []Val{r}).(*Term)))
			}),
		}
		if m != nil {
			b.ensures = append(b.ensures, mk("untouched", []string{"C02"}, "fields the version does not carry are unchanged", func(e *Env) *Term {
				p := e.vars["t"].(*PtrV)
				return m.untouched(e.x, e.old, e.st, e.x.load(e.old, p), e.x.load(e.st, p))
			}))
			b.ghost = func(x *Exec, st *State, vars map[string]Val) {
				t := m.typ(T)
				vars["x"] = x.unreify(st, x.c.Var("ghost:x", sortOf(t)), t)
				if sv, ok := vars["x"].(*StructV); ok && len(sv.fields) == 0 {
					vars["x"] = x.zero(t)
				}
			}
		}
		b.match = func(x *Exec, st *State, env *Env) []map[string]Val {
			a, o := env.evalInt(specs, R), env.evalInt(specs, O)
			var out, rest []map[string]Val
			for _, t := range x.findApps(st, "enc:"+T) {
				if t.args[0] != a {
					continue
				}
				g := map[string]Val{"x": t.args[2]}
				if t.args[1] == o {
					out = append(out, g)
				} else if x.valid(st, x.c.Eq(t.args[1], o)) {
					rest = append(rest, g)
				}
			}
			return append(out, rest...)
		}
		ct.behav = []*Behavior{b}
	default:
		return nil
	}
	return ct
}

var failedE, posE, fE = parseExpr("failed(e.target)"), parseExpr("pos(e.target)"), parseExpr("F(e.target)")

func (e *Env) failed(s *SpecSet) *Term { return e.evalBool(s, failedE) }
func (e *Env) pos(s *SpecSet) *Term    { return e.evalInt(s, posE) }
func (e *Env) strF(s *SpecSet) *Term   { return e.eval(s, fE).(*Term) }

// isMsgMethod reports whether name is a generated method of a schema type.
func (s *Schema) isMsgMethod(name string) bool {
	if !strings.HasPrefix(name, "message.") {
		return false
	}
	T, m := msgMethod(name)
	if _, ok := s.types[T]; !ok {
		return false
	}
	return m == "Size" || m == "Encode" || m == "Decode"
}
