package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// filterMon judges the character filters of xstring (C31): the code points of
// the argument reach the result in order, each once, except those to remove.
//
// Of the pass over the argument that is under way, "seen" counts the code
// points delivered, and all since number "from" are to be removed. An output
// knows the number "upto" of code points it accounts for: a code point may be
// written to it when all between "upto" and that one are to be removed.
type filterMon struct {
	classMon
	rm bool // the character to remove is the second argument
}

func newFilterMon(fn *ssa.Function) *filterMon {
	m := &filterMon{rm: fn.Name() == "RemoveChar"}
	m.entry = fn
	m.spec = classSpec{every: "ldo"}
	m.self = m
	return m
}

func (m *filterMon) Entry(c *Ctx, fn *ssa.Function) {
	m.classMon.Entry(c, fn)
	if m.rm {
		c.s.gv["rm"] = c.s.gv["p:"+fn.Params[1].Name()]
	}
}

// deliver makes the code point number n.
func (m *filterMon) deliver(c *Ctx, y VSym, n Lin) Val {
	x, s := c.x, c.s
	if m.rm {
		d := s.nonneg()
		x.must(s, d.neg().addc(0x10FFFF))
		clean := m.holds(c, y)
		e := d.sub(s.gv["rm"].(VInt).E)
		switch {
		case clean:
			if x.decideEq(s, e) {
				x.stop()
			}
			m.seen(c, n, d, false)
		case x.decideEq(s, n.sub(s.syms[y.id].attrs["wi"])):
			s.mutSym(y.id).facts["met"] = true
			if !s.assumeEq(e) {
				x.stop()
			}
			m.seen(c, n, d, true)
		default:
			m.seen(c, n, d, x.decideEq(s, e))
		}
		return VInt{d}
	}
	v := m.classMon.deliver(c, y, n)
	if v == nil {
		return nil
	}
	kind, _ := asStr(s.gv["rune0"].(VStruct).f[1])
	m.seen(c, n, v.(VInt).E, kind == "s")
	return v
}

func (m *filterMon) num(c *Ctx, k string) Lin {
	if v, ok := c.s.gv[k].(VInt); ok {
		return v.E
	}
	return lc(0)
}

func (m *filterMon) seen(c *Ctx, n, d Lin, drop bool) {
	s := c.s
	if s.num.entailsEq(n) { // another pass
		s.gv["from"], s.gv["seen"] = vint(0), vint(0)
		delete(s.gh, "skipped")
	}
	if !s.num.entailsEq(n.sub(m.num(c, "seen"))) {
		s.gh["skipped"] = "1"
	}
	s.gv["cur"] = VInt{d}
	s.gh["drop"] = ""
	s.gv["at"] = VInt{n}
	s.gv["seen"] = VInt{n.addc(1)}
	if drop {
		s.gh["drop"] = "1"
	} else {
		s.gv["from0"] = VInt{m.num(c, "from")}
		s.gv["from"] = VInt{n.addc(1)}
	}
}

// emit: the value v is appended to an output that accounts for upto.
func (m *filterMon) emit(c *Ctx, upto Lin, v Val) Lin {
	s := c.s
	i, ok := v.(VInt)
	cur, has := s.gv["cur"].(VInt)
	switch {
	case !ok || !has || !s.num.entailsEq(i.E.sub(cur.E)):
		c.fail("filter", "something else than the code point at hand is written to the result")
	case s.gh["drop"] != "":
		c.fail("filter", "a code point that should be removed is written to the result")
	case s.gh["skipped"] != "" || !s.num.entails(upto.sub(m.num(c, "from0"))):
		c.fail("filter", "a code point before this one is missing in the result")
	case !s.num.entails(m.num(c, "at").sub(upto)):
		c.fail("filter", "a code point is written to the result more than once")
	}
	c.ok("written")
	return m.num(c, "at").addc(1)
}

func (m *filterMon) Ext(c *Ctx, what string, args ...Val) {
	if !strings.HasPrefix(what, "builder.") {
		return
	}
	obj, k := c.place(args[0])
	key := "upto" + k
	upto := lc(0)
	if v, ok := c.s.heap[obj].gv[key]; ok {
		upto = v.(VInt).E
	}
	switch what[8:] {
	case "grow":
	case "reset":
		delete(c.s.mut(obj).gv, key)
	case "rune":
		n := m.emit(c, upto, args[1])
		c.s.mut(obj).gv[key] = VInt{n}
	case "str":
		if t, ok := asStr(args[1]); ok && t == "" {
			return
		}
		if y, ok := args[1].(VSym); ok && c.s.syms[y.id].tag == "string" && len(c.s.syms[y.id].org) > 0 {
			n := m.emit(c, upto, c.s.syms[y.id].org[0])
			c.s.mut(obj).gv[key] = VInt{n}
			return
		}
		c.fail("undecided", "a string of unknown origin is written to the result")
	case "byte":
		// a code point below 0x80 is its own encoding
		if i, ok := args[1].(VInt); ok && c.s.num.entails(i.E.neg().addc(0x7F)) {
			n := m.emit(c, upto, args[1])
			c.s.mut(obj).gv[key] = VInt{n}
			return
		}
		c.fail("undecided", "a byte of unknown origin is written to the result")
	default:
		c.fail("undecided", "bytes of unknown origin are written to the result")
	}
}

func (m *filterMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name == "builder.String" {
		obj, k := c.place(args[0])
		r := c.x.freshStr(c, "out")
		c.s.assumeEq(c.x.strLen(c, r).sub(c.bldLen(args[0])))
		upto := lc(0)
		if v, ok := c.s.heap[obj].gv["upto"+k]; ok {
			upto = v.(VInt).E
		}
		c.s.mutSym(r.id).attrs["upto"] = upto
		return r
	}
	return m.classMon.Intrinsic(c, name, args)
}

func runeSlice(o *Obj) bool {
	b, ok := o.T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32 && o.kind == oArr
}

func (m *filterMon) WriteElem(c *Ctx, obj int, idx Lin, v Val) {
	o := c.s.heap[obj]
	if !runeSlice(o) || o.hasN && c.s.num.norm(o.n).isConst() { // the list of arguments of append
		return
	}
	cnt, upto := lc(0), lc(0)
	if w, ok := o.gv["cnt"]; ok {
		cnt, upto = w.(VInt).E, o.gv["upto"].(VInt).E
	}
	if !c.s.num.entailsEq(idx.sub(cnt)) {
		if o.elemT != "runesOf" { // some scratch array
			return
		}
		c.fail("undecided", "code points are not written one after the other")
	}
	if i, ok := v.(VInt); ok {
		if cur, ok := c.s.gv["cur"].(VInt); !ok || !c.s.num.entailsEq(i.E.sub(cur.E)) {
			return
		}
	}
	n := m.emit(c, upto, v)
	k := c.s.mut(obj)
	k.gv["cnt"], k.gv["upto"] = VInt{cnt.addc(1)}, VInt{n}
}

func (m *filterMon) CopyInto(c *Ctx, obj, src int, shift Lin) {
	if o := c.s.heap[src]; runeSlice(o) && o.gv["cnt"] != nil && c.s.num.entailsEq(shift) {
		k := c.s.mut(obj)
		k.gv["cnt"], k.gv["upto"] = o.gv["cnt"], o.gv["upto"]
	}
}

func (m *filterMon) Model(c *Ctx, name string, args []Val) (Val, bool) {
	x, s := c.x, c.s
	subj := s.gv["subj"]
	mine := len(args) > 0 && valKey(args[0]) == valKey(subj)
	switch name {
	case "strings.Fields":
		if mine && !m.rm {
			l := s.newSym(types.NewSlice(types.Typ[types.String]), "fields", subj)
			s.mutSym(l.id).nn = true
			return l, true
		}
	case "strings.Join":
		if y, ok := args[0].(VSym); ok && s.syms[y.id].tag == "fields" {
			if t, ok := asStr(args[1]); ok && t == "" {
				r := x.freshStr(c, "out")
				s.mutSym(r.id).facts["complete"] = true
				return r, true
			}
		}
	case "strings.IndexRune", "strings.ContainsRune":
		if mine && m.rm && s.num.entailsEq(args[1].(VInt).E.sub(s.gv["rm"].(VInt).E)) {
			found := false
			if x.strLenPositive(c, subj) {
				found = !m.holds(c, subj)
			}
			if name == "strings.ContainsRune" {
				return vbool(found), true
			}
			if !found {
				return vint(-1), true
			}
			i := s.nonneg()
			x.must(s, x.strLen(c, subj).sub(i).addc(-1))
			return VInt{i}, true
		}
	}
	return m.classMon.Model(c, name, args)
}

func (x *Exec) strLenPositive(c *Ctx, v Val) bool { return x.decide(c.s, x.strLen(c, v).addc(-1)) }

func (m *filterMon) Return(c *Ctx, f *Frame, res []Val, p *panicInfo) {
	if f.fn != m.entry || len(c.s.cur().frames) > 1 {
		return
	}
	if p != nil {
		c.x.stop() // C29
	}
	m.prune(c)
	s := c.s
	subj := s.gv["subj"]
	if !c.x.strLenPositive(c, subj) {
		if !s.num.entailsEq(c.x.strLen(c, res[0])) {
			c.flag("filter", "something is made of the empty string")
			return
		}
		c.ok("result")
		return
	}
	if valKey(res[0]) == valKey(subj) {
		if !m.holds(c, subj) {
			c.flag("filter", "the string is returned unchanged although something should be removed")
			return
		}
		c.ok("unchanged")
		return
	}
	upto := lc(0)
	switch v := res[0].(type) {
	case VConst:
		if t, ok := asStr(v); !ok || t != "" {
			c.flag("filter", "the result is made of something else than the argument")
			return
		}
	case VSym:
		si := s.syms[v.id]
		if si.facts["complete"] {
			c.ok("result")
			return
		}
		u, ok := si.attrs["upto"]
		if !ok && si.tag == "string" && len(si.org) > 0 {
			if sl, is := si.org[0].(VSlice); is {
				if o := s.heap[sl.obj]; o != nil && s.num.entailsEq(sl.off) {
					if w, has := o.gv["cnt"]; has {
						ok = s.num.entailsEq(w.(VInt).E.sub(sl.len))
						u = o.gv["upto"].(VInt).E
					} else {
						ok = s.num.entailsEq(sl.len)
					}
				}
			}
		}
		if !ok {
			c.flag("undecided", "where the result comes from is not known")
			return
		}
		upto = u
	}
	if y, ok := subj.(VSym); ok {
		// decoded to the end
		if cur, has := s.syms[y.id].attrs["cur"]; has && s.num.entailsEq(cur.sub(c.x.strLen(c, y))) {
			s.assumeEq(c.x.strRunes(c, y).sub(s.syms[y.id].attrs["curn"]))
		}
	}
	done := s.num.entails(m.num(c, "seen").sub(c.x.strRunes(c, subj)))
	if s.gh["skipped"] != "" || !done || !s.num.entails(upto.sub(m.num(c, "from"))) {
		c.flag("filter", "a code point that should be kept is missing in the result")
		return
	}
	c.ok("result")
}

func init() {
	register("C31", nil, func(r *Run) {
		n := 0
		for _, f := range r.exported(modPath + "/xstring") {
			if f.Name() == "RemoveChar" || f.Name() == "DeleteWhitespace" {
				n++
				r.exploreFn(f, newFilterMon(f), func(x *Exec) { x.maxDisj = 10 })
			}
		}
		r.need("function", n, 2)
		r.need("result", r.w.obl["result"], 2)
		r.need("written", r.w.obl["written"], 2)
	})
}
