package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// text follows the content of strings and builders as a list of parts. The
// part J stands for "everything joined so far".
type text struct {
	match func(c *Ctx, parts []Val) (Val, bool) // collapses a complete list
}

func (m *text) flatten(c *Ctx, v Val) []Val {
	switch v := v.(type) {
	case VConst:
		if s, ok := asStr(v); ok && s == "" {
			return nil
		}
		return []Val{v}
	case VSym:
		if si := c.s.syms[v.id]; si != nil && si.tag == "concat" {
			return append(m.flatten(c, si.org[0]), m.flatten(c, si.org[1])...)
		}
	}
	return []Val{v}
}

func sameParts(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if valKey(a[i]) != valKey(b[i]) {
			return false
		}
	}
	return true
}

func (m *text) concat(c *Ctx, v Val) Val {
	if j, ok := m.match(c, m.flatten(c, v)); ok {
		return j
	}
	return v
}

// parts of a builder.
func (m *text) parts(c *Ctx, p Val) []Val {
	obj, k := c.place(p)
	if v, ok := c.s.heap[obj].gv["parts"+k]; ok {
		return v.(VStruct).f
	}
	return nil
}

// builder handles a write event; part is the written text.
func (m *text) builder(c *Ctx, what string, p, part Val) {
	obj, k := c.place(p)
	switch what {
	case "builder.reset":
		delete(c.s.mut(obj).gv, "parts"+k)
		return
	case "builder.grow":
		return
	}
	ps := append(append([]Val(nil), m.parts(c, p)...), m.flatten(c, part)...)
	if j, ok := m.match(c, ps); ok {
		ps = m.flatten(c, j)
	}
	if len(ps) > 8 {
		ps = append(ps[:7:7], c.x.freshStr(c, "more"))
	}
	c.s.mut(obj).gv["parts"+k] = VStruct{ps}
}

// built is the string a builder holds.
func (m *text) built(c *Ctx, p Val) Val {
	ps := m.parts(c, p)
	var r Val = vstr("")
	for _, q := range ps {
		r = c.x.concat(c, r, q, types.Typ[types.String])
	}
	c.s.assumeEq(c.x.strLen(c, r).sub(c.bldLen(p)))
	return r
}

// joinMon judges xstring.Joiner (C32).
type joinMon struct {
	NoMon
	t text
}

func newJoinMon() *joinMon {
	m := &joinMon{}
	m.t.match = m.match
	return m
}

func (m *joinMon) Entry(c *Ctx, fn *ssa.Function) {
	c.s.gv["J"] = vstr("")
}

// expected is the content after the pending element.
func (m *joinMon) expected(c *Ctx) []Val {
	s := c.s
	ps := m.t.flatten(c, s.gv["J"])
	if s.gh["n"] != "" {
		ps = append(ps, m.t.flatten(c, s.gv["p:step"])...)
	}
	return append(ps, m.t.flatten(c, s.gv["E"])...)
}

func (m *joinMon) match(c *Ctx, ps []Val) (Val, bool) {
	s := c.s
	if s.gh["pend"] == "" || !sameParts(ps, m.expected(c)) {
		return nil, false
	}
	s.gh["pend"] = ""
	s.gh["n"] = "1"
	j := c.x.freshStr(c, "J")
	n := lc(0)
	for _, p := range ps {
		n = n.add(c.x.strLen(c, p))
	}
	s.assumeEq(c.x.strLen(c, j).sub(n))
	s.gv["J"] = j
	delete(s.gv, "E")
	delete(s.gv, "raw")
	return j, true
}

func (m *joinMon) Concat(c *Ctx, v Val) Val { return m.t.concat(c, v) }

func (m *joinMon) Ext(c *Ctx, what string, args ...Val) {
	if !strings.HasPrefix(what, "builder.") {
		return
	}
	v := args[1]
	if c.s.gh["pend"] != "" && v != nil && what != "builder.str" {
		if r, ok := c.s.gv["raw"]; ok && sameBytes(c, r, v) && sameKind(c, strings.TrimPrefix(what, "builder."), v) {
			v = c.s.gv["E"]
			c.s.assumeEq(c.x.strLen(c, v).sub(args[2].(VInt).E))
		}
	}
	if v != nil && what != "builder.str" {
		if _, ok := asStr(v); ok {
		} else if _, ok := v.(VSym); !ok {
			y := c.x.freshStr(c, "raw")
			c.s.assumeEq(c.x.strLen(c, y).sub(args[2].(VInt).E))
			v = y
		} else if y := v.(VSym); !isString(c.s.syms[y.id].T) {
			v = c.x.freshStr(c, "raw")
		}
	}
	m.t.builder(c, what, args[0], v)
}

// sameKind: the written kind encodes v as the element's kind does.
func sameKind(c *Ctx, kind string, v Val) bool {
	if c.s.gh["kind"] == kind {
		return true
	}
	i, ok := v.(VInt)
	return ok && kind != "bytes" && c.s.num.entails(i.E) && c.s.num.entails(i.E.neg().addc(0x7f))
}

// sameBytes: a and b are the same byte, rune or slice.
func sameBytes(c *Ctx, a, b Val) bool {
	ia, ok1 := a.(VInt)
	ib, ok2 := b.(VInt)
	if ok1 && ok2 {
		return c.s.num.entailsEq(ia.E.sub(ib.E))
	}
	sa, ok1 := a.(VSlice)
	sb, ok2 := b.(VSlice)
	if ok1 && ok2 {
		return sa.obj == sb.obj && c.s.num.entailsEq(sa.off.sub(sb.off)) && c.s.num.entailsEq(sa.len.sub(sb.len))
	}
	return valKey(a) == valKey(b)
}

// Convert recognises string(elem).
func (m *joinMon) Convert(c *Ctx, v Val, from, to types.Type) Val {
	if isString(to) && !isString(from) && c.s.gh["pend"] != "" {
		if r, ok := c.s.gv["raw"]; ok && sameBytes(c, r, v) {
			kind := "bytes"
			if _, ok := from.Underlying().(*types.Basic); ok {
				kind = "rune"
			}
			if !sameKind(c, kind, v) {
				return nil
			}
			return c.s.gv["E"]
		}
	}
	return nil
}

func (m *joinMon) Materialize(c *Ctx, v VSym, by Val) {
	if r, ok := c.s.gv["raw"]; ok && valKey(r) == valKey(v) {
		c.s.gv["raw"] = by
	}
}

func (m *joinMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	s := c.s
	switch name {
	case "builder.String":
		return m.t.built(c, args[0])
	case "Mark":
	default:
		return nil
	}
	what, vs := c.marks(args)
	switch what {
	case "elem":
		s.gh["pend"] = "1"
		if y, ok := vs[0].(VSym); ok && isString(s.syms[y.id].T) {
			s.gv["E"] = y
			break
		}
		s.gv["E"] = c.x.freshStr(c, "E")
		s.gh["kind"] = map[string]string{"uint8": "byte", "byte": "byte", "int32": "rune", "rune": "rune"}[typeStr(c.markIface(args, 0).(VIface).T)]
		if s.gh["kind"] == "" {
			s.gh["kind"] = "bytes"
		}
		s.gv["raw"] = vs[0]
	case "wrote":
		if s.gh["pend"] != "" {
			// an empty element and delimiter leave no trace
			if !sameParts(m.expected(c), m.t.flatten(c, s.gv["J"])) {
				c.flag("delimiter", "writing an element does not append exactly the delimiter (unless it is the first one) and the element")
				c.x.stop()
			}
			s.gh["pend"] = ""
			s.gh["n"] = "1"
			delete(s.gv, "E")
			delete(s.gv, "raw")
		}
		c.ok("delimiter")
	case "reset":
		s.gh["n"] = ""
		s.gv["J"] = vstr("")
	case "string":
		want := append(m.t.flatten(c, s.gv["p:prefix"]), m.t.flatten(c, s.gv["J"])...)
		want = append(want, m.t.flatten(c, s.gv["p:suffix"])...)
		if got := m.t.flatten(c, vs[0]); !sameParts(got, want) {
			c.flag("content", "String is not the prefix, the joined elements and the suffix (%s instead of %s)", s.shows(got), s.shows(want))
			c.x.stop()
		}
		c.ok("content")
	}
	return unit()
}

// batchMon judges xerror.BatchError (C26).
type batchMon struct {
	NoMon
	nonNilElems
	t text
}

func newBatchMon() *batchMon {
	m := &batchMon{}
	m.t.match = m.match
	return m
}

func (m *batchMon) Entry(c *Ctx, fn *ssa.Function) {
	c.s.gv["J"] = vstr("")
	c.s.gv["cnt"] = vint(0)
	c.s.gv["m"] = vint(0)
}

// posOf is the position of an error or its text among the non-nil errors added.
func (m *batchMon) posOf(c *Ctx, v Val) (Lin, bool) {
	y, ok := v.(VSym)
	if !ok {
		return Lin{}, false
	}
	si := c.s.syms[y.id]
	if e, ok := si.attrs["~pos"]; ok {
		return e, true
	}
	if si.tag == "errtext" {
		return m.posOf(c, si.org[0])
	}
	return Lin{}, false
}

// match collapses J "\n" t when t is the text of the next error.
func (m *batchMon) match(c *Ctx, ps []Val) (Val, bool) {
	s := c.s
	j := m.t.flatten(c, s.gv["J"])
	if len(ps) == 0 || len(ps) != len(j)+1 && len(ps) != len(j)+2 || !sameParts(ps[:len(j)], j) {
		return nil, false
	}
	rest := ps[len(j):]
	cnt := s.gv["cnt"].(VInt).E
	first := s.gh["some"] == ""
	t := rest[len(rest)-1]
	p, ok := m.posOf(c, t)
	if y, isSym := t.(VSym); !ok || !isSym || !isString(s.syms[y.id].T) || !s.num.entailsEq(p.sub(cnt)) {
		return nil, false
	}
	if first != (len(rest) == 1) {
		return nil, false
	}
	if len(rest) == 2 {
		if sep, ok := asStr(rest[0]); !ok || sep != "\n" {
			return nil, false
		}
	}
	s.gv["cnt"] = VInt{cnt.addc(1)}
	s.gh["some"] = "1"
	y := c.x.freshStr(c, "J")
	n := lc(0)
	for _, q := range ps {
		n = n.add(c.x.strLen(c, q))
	}
	s.assumeEq(c.x.strLen(c, y).sub(n))
	s.gv["J"] = y
	return y, true
}

func (m *batchMon) Concat(c *Ctx, v Val) Val { return m.t.concat(c, v) }

func (m *batchMon) Ext(c *Ctx, what string, args ...Val) {
	if !strings.HasPrefix(what, "builder.") {
		return
	}
	v := args[1]
	switch what {
	case "builder.byte", "builder.rune":
		if i, ok := v.(VInt); ok && c.s.num.entailsEq(i.E.addc(-'\n')) {
			v = vstr("\n")
		} else {
			v = c.x.freshStr(c, "raw")
		}
	case "builder.bytes":
		v = c.x.freshStr(c, "raw")
	}
	m.t.builder(c, what, args[0], v)
}

// WriteElem: error slices hold the added errors in order, text slices their texts.
func (m *batchMon) WriteElem(c *Ctx, obj int, idx Lin, v Val) {
	m.write(c, obj, v)
	if c.x.isSmall(c.s, c.s.heap[obj]) && c.s.num.norm(idx).isConst() {
		return
	}
	T := typeStr(c.s.heap[obj].T)
	if !types.IsInterface(c.s.heap[obj].T) && !isString(c.s.heap[obj].T) {
		return
	}
	p, ok := m.posOf(c, v)
	if !ok || !c.s.num.entailsEq(p.sub(idx)) {
		c.s.gh["mixed:"+T] = "1"
	} else if isString(c.s.heap[obj].T) {
		c.s.gh["texts"] = "1"
	}
}

// CopyInto: a shifted copy breaks the order.
func (m *batchMon) CopyInto(c *Ctx, obj, src int, shift Lin) {
	if !c.s.num.entailsEq(shift) {
		c.s.gh["mixed:"+typeStr(c.s.heap[obj].T)] = "1"
	}
}

func (m *batchMon) FreshElem(c *Ctx, obj int, idx Lin) Val {
	o := c.s.heap[obj]
	T := typeStr(o.T)
	if c.s.gh["mixed:"+T] != "" {
		return nil
	}
	if isString(o.T) && c.s.gh["texts"] != "" {
		y := c.x.freshStr(c, "text")
		c.s.mutSym(y.id).attrs["~pos"] = idx
		return y
	}
	if v := m.fresh(c, obj, "added"); v != nil {
		c.s.mutSym(v.(VSym).id).attrs["~pos"] = idx
		return v
	}
	return nil
}

func (m *batchMon) Invoke(c *Ctx, mt VMeth, args []Val) (Val, bool) {
	if mt.m.FullName() == "(error).Error" {
		return c.x.freshStr(c, "errtext", mt.recv), true
	}
	return nil, false
}

func (m *batchMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	s := c.s
	switch name {
	case "builder.String":
		return m.t.built(c, args[0])
	case "Mark":
	default:
		return nil
	}
	what, vs := c.marks(args)
	switch what {
	case "add":
		if c.x.equal(c, vs[0], VNil{}, nil) {
			break
		}
		n := s.gv["m"].(VInt).E
		y := vs[0].(VSym)
		si := s.mutSym(y.id)
		si.attrs["~pos"] = n
		s.gv["m"] = VInt{n.addc(1)}
		if s.gh["D"] == "" && c.x.choose(s, 2) == 1 {
			s.gh["D"] = "1"
			s.gv["D"] = y
			s.mutSym(y.id).tag = "D"
		}
	case "notnil":
		b := c.x.cond(c, vs[0])
		n := s.gv["m"].(VInt).E
		if b && !s.num.entails(n.addc(-1)) || !b && !s.num.entailsEq(n) {
			c.flag("notnil", "NotNil does not tell whether a non-nil error was added")
			c.x.stop()
		}
		c.ok("notnil")
	case "err":
		vs[0] = c.markIface(args, 0)
		n := s.gv["m"].(VInt).E
		if c.x.equal(c, vs[0], VNil{}, nil) {
			if !s.num.entailsEq(n) {
				c.flag("nil", "Err is nil although a non-nil error was added")
			} else {
				c.ok("nil")
			}
			c.s.node.exit = true
			c.x.stop()
		}
		if !c.x.decide(s, n.addc(-1)) {
			c.flag("nil", "Err is not nil although no non-nil error was added")
			c.x.stop()
		}
		if !c.x.decide(s, n.addc(-2)) {
			// exactly one
			if p, ok := m.posOf(c, vs[0]); !ok || !s.num.entailsEq(p) {
				c.flag("single", "with one error added, Err is not that very error")
				c.x.stop()
			}
			c.ok("single")
			c.s.node.exit = true
			c.x.stop()
		}
		if s.gh["D"] != "" {
			if !c.derives(vs[0], sameVal(s.gv["D"])) {
				c.flag("lost", "an added error is not part of the batch's error")
				c.x.stop()
			}
			c.ok("lost")
		}
	case "text":
		if got := m.t.flatten(c, vs[0]); !sameParts(got, m.t.flatten(c, s.gv["J"])) || !s.num.entailsEq(s.gv["cnt"].(VInt).E.sub(s.gv["m"].(VInt).E)) {
			c.flag("text", "the error text is not the text of every added error, in order, one per line (%s instead of %s)", s.shows(got), s.show(s.gv["J"]))
			c.x.stop()
		}
		c.ok("text")
	}
	return unit()
}

func init() {
	register("C32", []string{"hjoin"}, func(r *Run) {
		for _, e := range []string{"Joiner", "JoinerParts"} {
			r.explore("hjoin", e, newJoinMon(), nil)
		}
		r.need("delimiter", r.w.obl["delimiter"], 8)
		r.need("content", r.w.obl["content"], 8)
	})
	register("C26", []string{"hjoin"}, func(r *Run) {
		r.explore("hjoin", "Batch", newBatchMon(), func(x *Exec) { x.trackFn = trackTag("D") })
		for _, k := range []string{"notnil", "nil", "single", "lost", "text"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
