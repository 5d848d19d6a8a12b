package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- strings ---

func (x *Exec) strLen(c *Ctx, v Val) Lin {
	switch v := v.(type) {
	case VConst:
		return lc(int64(len(constant.StringVal(v.V))))
	case VSym:
		n := c.s.attr(v, "len")
		if x.ovf {
			c.s.assume(addLin(ld(dimMax), -8, n))
		}
		return n
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (x *Exec) strRunes(c *Ctx, v Val) Lin {
	switch v := v.(type) {
	case VConst:
		return lc(int64(len([]rune(constant.StringVal(v.V)))))
	case VSym:
		_, had := c.s.syms[v.id].attrs["runes"]
		r := c.s.attr(v, "runes")
		if !had {
			l := x.strLen(c, v)
			c.s.assume(l.sub(r))
			c.s.assume(r.mul(4).sub(l))
		}
		return r
	}
	panic(fmt.Sprintf("strRunes %T", v))
}

func (x *Exec) strByte(c *Ctx, v Val, i Lin) Val {
	if t, ok := asStr(v); ok {
		if e := c.s.num.norm(i); e.isConst() && e.c >= 0 && int(e.c) < len(t) {
			return vint(int64(t[e.c]))
		}
	}
	if x.mon != nil {
		if r := x.mon.StrByte(c, v, i); r != nil {
			return r
		}
	}
	return x.fresh(c, types.Typ[types.Uint8], "byte")
}

func (x *Exec) freshStr(c *Ctx, tag string, org ...Val) VSym {
	return c.s.newSym(types.Typ[types.String], tag, org...)
}

func (x *Exec) concat(c *Ctx, a, b Val, T types.Type) Val {
	sa, oka := asStr(a)
	sb, okb := asStr(b)
	if oka && okb {
		return VConst{T, constant.MakeString(sa + sb)}
	}
	var r Val
	switch {
	case oka && sa == "":
		r = b
	case okb && sb == "":
		r = a
	default:
		r = x.freshStr(c, "concat", a, b)
		c.s.assumeEq(x.strLen(c, r).sub(x.strLen(c, a)).sub(x.strLen(c, b)))
	}
	if m, ok := x.mon.(Concatter); ok {
		return m.Concat(c, r)
	}
	return r
}

// Slicer is implemented by monitors that follow parts of strings.
type Slicer interface {
	Substr(c *Ctx, r VSym, v Val, lo, hi Lin)
}

// Modeler is implemented by monitors with models of their own.
type Modeler interface {
	Model(c *Ctx, name string, args []Val) (Val, bool)
}

func (x *Exec) substr(c *Ctx, v Val, lo, hi Lin) Val {
	if t, ok := asStr(v); ok {
		l, h := c.s.num.norm(lo), c.s.num.norm(hi)
		if l.isConst() && h.isConst() && 0 <= l.c && l.c <= h.c && int(h.c) <= len(t) {
			return vstr(t[l.c:h.c])
		}
	}
	n := x.strLen(c, v)
	if c.s.num.entailsEq(lo) && c.s.num.entailsEq(hi.sub(n)) {
		return v
	}
	r := x.freshStr(c, "substr", v)
	c.s.assumeEq(x.strLen(c, r).sub(hi).add(lo))
	if m, ok := x.mon.(Slicer); ok {
		m.Substr(c, r, v, lo, hi)
	}
	return r
}

func (x *Exec) slice(c *Ctx, in *ssa.Slice) Val {
	s := c.s
	v := x.val(s, in.X)
	get := func(e ssa.Value, d Lin) Lin {
		if e == nil {
			return d
		}
		return x.val(s, e).(VInt).E
	}
	defer x.excuse(c, v)()
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		n := x.strLen(c, v)
		lo := get(in.Low, lc(0))
		hi := get(in.High, n)
		c.need(lo, "slice bound may be negative")
		c.need(hi.sub(lo), "slice bounds may be inverted")
		c.need(n.sub(hi), "slice bound may exceed the string length")
		return x.substr(c, v, lo, hi)
	}
	if y, ok := v.(VSym); ok {
		v = x.materialize(c, y, in.X.Type())
	}
	var obj int
	var off, ln, cp Lin
	switch v := v.(type) {
	case VNil:
		lo, hi := get(in.Low, lc(0)), get(in.High, lc(0))
		c.need(lo, "slice bound may be negative")
		c.need(hi.sub(lo), "slice bounds may be inverted")
		c.need(hi.neg(), "slice bound exceeds a nil slice")
		return v
	case VSlice:
		obj, off, ln, cp = v.obj, v.off, v.len, v.cap
	case VAddr:
		o := s.heap[v.obj]
		obj, off, ln, cp = v.obj, lc(0), o.n, o.n
	default:
		panic(fmt.Sprintf("slice %T", v))
	}
	lo := get(in.Low, lc(0))
	hi := get(in.High, ln)
	mx := get(in.Max, cp)
	c.need(lo, "slice bound may be negative")
	c.need(hi.sub(lo), "slice bounds may be inverted")
	c.need(mx.sub(hi), "slice bound may exceed the capacity")
	if in.Max != nil {
		c.need(cp.sub(mx), "slice bound may exceed the capacity")
	}
	return VSlice{obj, off.add(lo), hi.sub(lo), mx.sub(lo)}
}

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) convert(c *Ctx, v Val, from, to types.Type) Val {
	s := c.s
	if x.mon != nil {
		if r := x.mon.Convert(c, v, from, to); r != nil {
			return r
		}
	}
	if i, ok := v.(VInt); ok && isInteger(to) {
		if lo, hi, ok := intBounds(to); ok {
			if s.num.entails(i.E.addc(-lo)) && s.num.entails(i.E.neg().addc(hi)) {
				return v
			}
			if n := s.num.norm(i.E); n.isConst() && hi > 0 {
				w := (n.c - lo) % (hi - lo + 1)
				if w < 0 {
					w += hi - lo + 1
				}
				return vint(lo + w)
			}
			return x.opaqueInt(c, to, "trunc", i)
		}
		if isUnsigned(to) && !isUnsigned(from) {
			if x.decide(s, i.E) {
				return v
			}
			return x.opaqueInt(c, to, "trunc", i)
		}
		return v
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			n := x.strLen(c, v)
			tag := "bytesOf"
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				n = x.strRunes(c, v)
				tag = "runesOf"
			}
			if e := s.num.norm(n); e.isConst() && e.c == 0 {
				id := s.newObj(&Obj{kind: oArr, T: sl.Elem(), site: tag, n: lc(0), hasN: true, gh: map[string]string{}, gv: map[string]Val{}})
				if x.mon != nil {
					x.mon.StrToSlice(c, v, id)
				}
				return VSlice{id, lc(0), lc(0), lc(0)}
			}
			cp := s.newDim()
			s.assume(cp.sub(n))
			o := &Obj{kind: oArr, T: sl.Elem(), site: tag, n: cp, hasN: true, elemT: tag, v: v}
			id := s.newObj(o)
			if x.mon != nil {
				x.mon.StrToSlice(c, v, id)
			}
			return VSlice{id, lc(0), n, cp}
		}
		return v
	}
	if isString(to) {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if y, ok := v.(VSym); ok {
				v = x.materialize(c, y, from)
			}
			if isNil(v) {
				return vstr("")
			}
			vs := v.(VSlice)
			r := x.freshStr(c, "string", v)
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				s.assumeEq(x.strRunes(c, r).sub(vs.len))
			} else {
				s.assumeEq(x.strLen(c, r).sub(vs.len))
			}
			return r
		}
		if isInteger(from) {
			r := x.freshStr(c, "string", v)
			s.assume(x.strLen(c, r).addc(-1))
			s.assume(x.strLen(c, r).neg().addc(4))
			return r
		}
		return v
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Kind() != types.UnsafePointer && tb.Kind() != types.UnsafePointer {
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 && fb.Kind() == tb.Kind() {
			return v
		}
		return x.fresh(c, to, "conv", v)
	}
	// pointer conversions keep the value
	if y, ok := v.(VSym); ok {
		_ = y
		return v
	}
	return v
}

func (x *Exec) typeAssert(c *Ctx, in *ssa.TypeAssert) {
	s := c.s
	v := x.val(s, in.X)
	var res Val
	ok := false
	iface := types.IsInterface(in.AssertedType)
	switch v := v.(type) {
	case VNil:
	case VIface:
		if iface {
			ok = types.AssertableTo(in.AssertedType.Underlying().(*types.Interface), v.T) && types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface))
			res = v
		} else {
			ok = types.Identical(v.T, in.AssertedType)
			res = v.v
		}
	case VSym:
		si := s.syms[v.id]
		if iface && in.AssertedType.Underlying().(*types.Interface).NumMethods() == 0 {
			// any non-nil value satisfies interface{}
			ok = !x.equal(c, v, VNil{}, nil)
			res = v
			break
		}
		k := "is:" + typeStr(in.AssertedType)
		f, known := si.facts[k]
		if !known && si.dyn != nil && !iface {
			f, known = types.Identical(si.dyn, in.AssertedType), true
		}
		if !known {
			f = x.choose(s, 2) == 0
			n := s.mutSym(v.id)
			n.facts[k] = f
			if f {
				n.nn = true
				if !iface {
					n.dyn = in.AssertedType
				}
			}
		}
		ok = f
		if ok {
			if iface {
				res = v
			} else {
				// the symbol is now known to hold this type
				inner := x.fresh(c, in.AssertedType, si.tag, v)
				if x.mon != nil {
					if r := x.mon.Unbox(c, v, in.AssertedType); r != nil {
						inner = r
					}
				}
				if y, isSym := inner.(VSym); isSym {
					_ = y
				}
				res = inner
			}
		}
	default:
		panic(fmt.Sprintf("typeAssert %T", v))
	}
	if !ok {
		if !in.CommaOk {
			x.rtPanic(c, "type assertion fails")
		}
		x.set(s, in, VTuple{[]Val{zeroVal(in.AssertedType), vbool(false)}})
		return
	}
	if in.CommaOk {
		x.set(s, in, VTuple{[]Val{res, vbool(true)}})
	} else {
		x.set(s, in, res)
	}
}

// --- maps ---

func (x *Exec) mapLookup(c *Ctx, v Val, T types.Type, key Val) (Val, bool) {
	s := c.s
	et := T.Underlying().(*types.Map).Elem()
	if y, ok := v.(VSym); ok {
		if x.mon != nil {
			if r, ok2, done := x.mon.MapLookup(c, y, key, et); done {
				return r, ok2
			}
		}
		v = x.materialize(c, y, T)
	}
	if isNil(v) {
		return zeroVal(et), false
	}
	id := v.(VRef).obj
	for i := range s.heap[id].elems {
		if x.equal(c, key, s.heap[id].elems[i].key, nil) {
			e := s.heap[id].elems[i]
			if e.v == nil {
				return zeroVal(et), false
			}
			return e.v, true
		}
	}
	o := s.heap[id]
	if o.zero || (!o.ext && x.mon != nil && x.mon.TrackKey(c, id, key, nil)) {
		return zeroVal(et), false
	}
	if x.choose(s, 2) == 0 {
		if x.mon != nil {
			if r := x.mon.FreshMapVal(c, id, key); r != nil {
				return r, true
			}
		}
		return x.fresh(c, et, "mapval:"+o.elemT), true
	}
	return zeroVal(et), false
}

func (x *Exec) mapUpdate(c *Ctx, v Val, T types.Type, key, val Val) {
	s := c.s
	if y, ok := v.(VSym); ok {
		v = x.materialize(c, y, T)
	}
	if isNil(v) {
		x.rtPanic(c, "assignment to entry in nil map")
	}
	id := v.(VRef).obj
	hit := -1
	for i := range s.heap[id].elems {
		if x.equal(c, key, s.heap[id].elems[i].key, nil) {
			hit = i
			break
		}
	}
	if x.mon != nil {
		x.mon.MapUpdate(c, id, key, val, hit)
	}
	n := s.mut(id)
	if hit >= 0 {
		n.elems[hit].v = val
		return
	}
	if x.mon != nil && x.mon.TrackKey(c, id, key, val) {
		n.elems = append(n.elems, Elem{key: key, v: val})
		if x.interleave {
			// the order of the keys does not matter
			sort.SliceStable(n.elems, func(i, j int) bool { return valKey(n.elems[i].key) < valKey(n.elems[j].key) })
		}
		return
	}
	n.zero = false
}

func (x *Exec) mapDelete(c *Ctx, v Val, T types.Type, key Val) {
	s := c.s
	if y, ok := v.(VSym); ok {
		v = x.materialize(c, y, T)
	}
	if isNil(v) {
		return
	}
	id := v.(VRef).obj
	hit := -1
	for i := range s.heap[id].elems {
		if x.equal(c, key, s.heap[id].elems[i].key, nil) {
			hit = i
			break
		}
	}
	if x.mon != nil {
		x.mon.MapDelete(c, id, key, hit)
	}
	if hit >= 0 {
		n := s.mut(id)
		n.elems[hit].v = nil
		if x.interleave && n.zero {
			n.elems = append(n.elems[:hit], n.elems[hit+1:]...)
		}
	}
}

func (x *Exec) next(c *Ctx, in *ssa.Next) {
	s := c.s
	it := x.val(s, in.Iter).(VIter)
	o := s.heap[it.obj]
	if in.IsString {
		n := x.strRunes(c, o.v)
		cnt := o.n
		if !x.decide(s, n.sub(cnt).addc(-1)) {
			x.iterEnd(c, it)
			x.set(s, in, VTuple{[]Val{vbool(false), vint(0), vint(0)}})
			return
		}
		k := s.nonneg()
		s.assume(x.strLen(c, o.v).sub(k).addc(-1))
		var r Val
		if x.mon != nil {
			r = x.mon.NextRune(c, it.obj, o.v)
		}
		if r == nil {
			d := s.nonneg()
			s.assume(d.neg().addc(0x10FFFF))
			r = VInt{d}
		}
		m := s.mut(it.obj)
		m.n = cnt.addc(1)
		x.set(s, in, VTuple{[]Val{vbool(true), VInt{k}, r}})
		return
	}
	mt := o.T.Underlying().(*types.Map)
	end := func() {
		x.iterEnd(c, it)
		x.set(s, in, VTuple{[]Val{vbool(false), zeroVal(mt.Key()), zeroVal(mt.Elem())}})
	}
	mv := o.v
	if y, ok := mv.(VSym); ok {
		if x.mon != nil {
			if k, v, more, done := x.mon.MapNext(c, it.obj, y, mt); done {
				if !more {
					end()
					return
				}
				x.set(s, in, VTuple{[]Val{vbool(true), k, v}})
				return
			}
		}
		mv = x.materialize(c, y, o.T)
		o = s.heap[it.obj]
	}
	if isNil(mv) {
		end()
		return
	}
	m := s.heap[mv.(VRef).obj]
	var cand []Elem
	for _, e := range m.elems {
		if e.v == nil {
			continue
		}
		seen := false
		for _, v := range o.elems {
			if valKey(v.key) == valKey(e.key) {
				seen = true
			}
		}
		if !seen {
			cand = append(cand, e)
		}
	}
	opts := len(cand)
	if !m.zero {
		opts++ // another element
	}
	if len(cand) == 0 {
		opts++ // the end
	}
	ch := x.choose(s, opts)
	switch {
	case ch < len(cand):
		e := cand[ch]
		io := s.mut(it.obj)
		io.elems = append(io.elems, Elem{key: e.key})
		x.set(s, in, VTuple{[]Val{vbool(true), e.key, e.v}})
	case !m.zero && ch == len(cand):
		tag := "rangekey:" + m.elemT
		k := x.fresh(c, mt.Key(), tag)
		for _, e := range m.elems {
			s.neq[neqKey(k, e.key)] = neqFact{k, e.key}
		}
		var v Val
		if x.mon != nil {
			v = x.mon.FreshMapVal(c, mv.(VRef).obj, k)
		}
		if v == nil {
			v = x.fresh(c, mt.Elem(), "mapval:"+m.elemT)
		}
		x.set(s, in, VTuple{[]Val{vbool(true), k, v}})
	default:
		end()
	}
}

func (x *Exec) iterEnd(c *Ctx, it VIter) {
	if x.mon != nil {
		x.mon.IterEnd(c, it.obj)
	}
}

// --- channels ---

func (x *Exec) chanOf(c *Ctx, v Val, T types.Type) int {
	if y, ok := v.(VSym); ok {
		if c.s.syms[y.id].T != nil {
			T = c.s.syms[y.id].T
		}
		v = x.materialize(c, y, T)
	}
	switch v := v.(type) {
	case VRef:
		return v.obj
	case VNil:
		return -1
	}
	panic(fmt.Sprintf("chanOf %T", v))
}

func (x *Exec) yield(why string) { panic(yieldSig{why: why}) }

// yieldRecv blocks the current thread in a receive; senders on an unbuffered
// channel that waited for a receiver may go on.
func (x *Exec) yieldRecv(s *State, why string, ids ...int) {
	panic(yieldSig{why, ids})
}

// receiverWaits: some thread is blocked receiving from the unbuffered channel.
func (x *Exec) receiverWaits(s *State, id int) bool {
	o := s.heap[id]
	if !o.hasN || o.gh["hand"] != "" {
		return false
	}
	if e := s.num.norm(o.n); !e.isConst() || e.c != 0 {
		return false
	}
	for i, t := range s.threads {
		if i == len(s.threads)-1 || t.block != "receive" && !strings.HasPrefix(t.block, "select") {
			continue
		}
		for _, r := range t.waits(x) {
			if r == id {
				return true
			}
		}
	}
	return false
}

// waits lists the channels a blocked thread could receive from.
func (t *Thread) waits(x *Exec) (ids []int) {
	f := t.frames[len(t.frames)-1]
	get := func(v ssa.Value) {
		if r, ok := f.info.num[v]; ok {
			if ch, ok := f.regs[r].(VRef); ok {
				ids = append(ids, ch.obj)
			}
		}
	}
	switch in := f.fn.Blocks[f.block].Instrs[f.pc].(type) {
	case *ssa.UnOp:
		get(in.X)
	case *ssa.Select:
		for _, st := range in.States {
			if st.Dir == types.RecvOnly {
				get(st.Chan)
			}
		}
	}
	return
}

// othersRun: another thread could run.
func (s *State) othersRun() bool {
	for _, t := range s.threads[:len(s.threads)-1] {
		if t.block == "" {
			return true
		}
	}
	return false
}

// sendable: a full channel whose reader is outside of the analysed code.
func (x *Exec) sendable(c *Ctx, id int) bool {
	if x.mon == nil {
		return false
	}
	if m, ok := x.mon.(interface {
		SelSend(c *Ctx, id int) bool
	}); ok {
		return m.SelSend(c, id)
	}
	return true
}

func zeroSize(T types.Type) bool {
	st, ok := T.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func (x *Exec) send(c *Ctx, chv, v Val) {
	s := c.s
	id := x.chanOf(c, chv, nil)
	if id < 0 {
		x.yield("!send on nil channel")
	}
	if !x.sendOne(c, id, v, false) {
		x.yield("send")
	}
	s.wake()
}

// sendOne performs a send; false means it would block.
func (x *Exec) sendOne(c *Ctx, id int, v Val, inSelect bool) bool {
	s := c.s
	o := s.heap[id]
	closed := o.gh["closed"] == "1"
	full, hand := false, false
	if !closed && !o.ext {
		full = !x.decide(s, o.n.sub(o.occ).addc(-1))
	}
	if full && x.receiverWaits(s, id) {
		full, hand = false, true
	}
	if full && x.mon != nil && !x.mon.FullSend(c, id, v, inSelect) {
		return false
	}
	if x.mon != nil {
		x.mon.Send(c, id, v)
	}
	if closed {
		x.throw(panicInfo{val: s.newSym(types.Universe.Lookup("error").Type(), "rterr"), why: "send on closed channel"})
	}
	if o.ext {
		return true
	}
	n := s.mut(id)
	if full {
		n.gh["consumed"] = "1"
		n.elems = nil
		return true
	}
	n.occ = n.occ.add(lc(1))
	if hand {
		n.gh["hand"] = "1"
	}
	et := n.T.Underlying().(*types.Chan).Elem()
	if !zeroSize(et) && n.gh["lost"] == "" {
		if len(n.elems) < 2 {
			n.elems = append(n.elems, Elem{v: v})
		} else {
			n.elems = nil
			n.gh["lost"] = "1"
		}
	}
	return true
}

func (x *Exec) recv(c *Ctx, chv Val, T types.Type) (Val, bool) {
	s := c.s
	id := x.chanOf(c, chv, T)
	if id < 0 {
		x.yield("!receive from nil channel")
	}
	v, ok, ready := x.recvOne(c, id)
	if !ready {
		x.yieldRecv(s, "receive", id)
	}
	s.wake()
	return v, ok
}

func (x *Exec) recvOne(c *Ctx, id int) (v Val, ok, ready bool) {
	s := c.s
	o := s.heap[id]
	et := o.T.Underlying().(*types.Chan).Elem()
	if o.ext {
		if x.mon != nil {
			if v, ok, done := x.mon.RecvExt(c, id); done {
				return v, ok, true
			}
		}
		if o.gh["closed"] == "1" || o.gh["ctx"] != "" || x.choose(s, 2) == 1 {
			s.mut(id).gh["closed"] = "1"
			return zeroVal(et), false, true
		}
		return x.fresh(c, et, "recv"), true, true
	}
	if x.decide(s, o.occ.addc(-1)) {
		n := s.mut(id)
		n.occ = n.occ.addc(-1)
		n.gh["hand"] = ""
		var r Val
		if len(n.elems) > 0 {
			r = n.elems[0].v
			n.elems = n.elems[1:]
		} else if zeroSize(et) {
			r = zeroVal(et)
		} else {
			r = x.fresh(c, et, "queued")
		}
		if x.mon != nil {
			x.mon.Recv(c, id, r)
		}
		return r, true, true
	}
	if o.gh["closed"] == "1" {
		s.mut(id).gh["drained"] = "1"
		return zeroVal(et), false, true
	}
	return nil, false, false
}

func (x *Exec) sel(c *Ctx, in *ssa.Select) {
	s := c.s
	type opt struct {
		i   int
		id  int
		ext bool
	}
	var opts []opt
	sure, read := false, false
	forced := -1
	var recvs []int
	for i, st := range in.States {
		chv := x.val(s, st.Chan)
		id := x.chanOf(c, chv, st.Chan.Type())
		if id < 0 {
			continue
		}
		o := s.heap[id]
		switch {
		case o.ext:
			if st.Dir == types.RecvOnly && o.gh["closed"] == "1" {
				sure = true
			}
			if x.mon != nil && !x.mon.SelectReady(c, id, st.Dir) {
				continue
			}
			opts = append(opts, opt{i, id, true})
		case st.Dir == types.SendOnly:
			if o.gh["closed"] == "1" {
				sure = true
				opts = append(opts, opt{i, id, false})
			} else if x.decide(s, o.n.sub(o.occ).addc(-1)) || x.receiverWaits(s, id) {
				sure = true
				opts = append(opts, opt{i, id, false})
			} else if x.sendable(c, id) {
				read = true // the reader outside will make room
				opts = append(opts, opt{i, id, true})
			}
		default:
			recvs = append(recvs, id)
			if o.gh["hand"] != "" {
				forced = len(opts)
			}
			if o.gh["closed"] == "1" || x.decide(s, o.occ.addc(-1)) {
				sure = true
				opts = append(opts, opt{i, id, false})
			}
		}
	}
	if !in.Blocking && !sure {
		opts = append(opts, opt{-1, 0, false})
	}
	if forced >= 0 {
		opts = opts[forced : forced+1]
	}
	if len(opts) == 0 {
		x.yieldRecv(s, "select", recvs...)
	}
	n := len(opts)
	if in.Blocking && !sure && !read && s.othersRun() {
		n++ // wait for something else to happen
	}
	pick := x.choose(s, n)
	if pick == len(opts) {
		x.yieldRecv(s, "select?", recvs...)
	}
	ch := opts[pick]
	if x.mon != nil {
		x.mon.Select(c, in, ch.i, ch.id)
	}
	res := []Val{vint(int64(ch.i)), vbool(false)}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			var v Val
			if i == ch.i {
				var ok, ready bool
				v, ok, ready = x.recvOne(c, ch.id)
				if !ready {
					x.stop()
				}
				res[1] = vbool(ok)
			} else {
				v = zeroVal(st.Chan.Type().Underlying().(*types.Chan).Elem())
			}
			res = append(res, v)
		} else if i == ch.i {
			if !x.sendOne(c, ch.id, x.val(s, st.Send), true) {
				x.stop()
			}
		}
	}
	x.set(s, in, VTuple{res})
	if ch.i >= 0 {
		s.wake()
	}
}

func (x *Exec) closeChan(c *Ctx, v Val, T types.Type) {
	s := c.s
	id := x.chanOf(c, v, T)
	if id < 0 {
		x.rtPanic(c, "close of nil channel")
	}
	if x.mon != nil {
		x.mon.Close(c, id)
	}
	if s.heap[id].gh["closed"] == "1" {
		x.throw(panicInfo{val: s.newSym(types.Universe.Lookup("error").Type(), "rterr"), why: "close of closed channel"})
	}
	s.mut(id).gh["closed"] = "1"
	s.wake()
}

// --- calls ---

func (x *Exec) callee(c *Ctx, call *ssa.CallCommon) (Val, []Val) {
	s := c.s
	var args []Val
	if call.IsInvoke() {
		r := x.val(s, call.Value)
		for _, a := range call.Args {
			args = append(args, x.val(s, a))
		}
		switch v := r.(type) {
		case VNil:
			x.rtPanic(c, "method call on a nil interface")
		case VIface:
			fn := x.w.prog.LookupMethod(v.T, call.Method.Pkg(), call.Method.Name())
			return VFunc{fn: fn}, append([]Val{v.v}, args...)
		case VSym:
			return VMeth{v, call.Method}, args
		}
		panic(fmt.Sprintf("invoke on %T", r))
	}
	for _, a := range call.Args {
		args = append(args, x.val(s, a))
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return VBuiltin{b.Name()}, args
	}
	return x.val(s, call.Value), args
}

// call performs a call. When it returns true a frame was pushed and the
// result will be assigned on return; otherwise assign has been called.
func (x *Exec) call(c *Ctx, fn Val, call *ssa.CallCommon, args []Val, assign func(Val)) bool {
	s := c.s
	switch f := fn.(type) {
	case VBuiltin:
		assign(x.builtin(c, f.name, call, args))
		return false
	case VNil:
		x.rtPanic(c, "call of a nil function")
	case VMeth:
		v := x.invoke(c, f, args)
		assign(v)
		return false
	case VSym:
		si := s.syms[f.id]
		if !si.nn {
			if x.equal(c, f, VNil{}, nil) {
				x.rtPanic(c, "call of a nil function")
			}
		}
		sig := call.Signature()
		assign(x.callback(c, f, sig, args))
		return false
	case VFunc:
		name := f.fn.String()
		if m, ok := x.mon.(Modeler); ok {
			if v, done := m.Model(c, name, args); done {
				assign(v)
				return false
			}
		}
		if m, ok := models[name]; ok {
			before := len(s.cur().frames)
			v := m(c, args, f.fn)
			if _, ok := v.(vHandled); ok || len(s.cur().frames) > before {
				return true
			}
			if v == nil {
				v = VTuple{}
			}
			assign(v)
			return false
		}
		if x.mon != nil {
			if v, done := x.mon.Call(c, f.fn, args); done {
				if sh, ok := v.(vShim); ok {
					x.pushFrame(s, x.w.shims[sh.name], args, nil)
					return true
				}
				assign(v)
				return false
			}
		}
		if sh := x.w.shims[name]; sh != nil {
			x.pushFrame(s, sh, args, nil)
			return true
		}
		if f.fn.Name() == "init" && !inRepo(pkgOf(f.fn)) && f.fn.Signature.Recv() == nil {
			assign(VTuple{})
			return false
		}
		if f.fn.Blocks != nil && x.w.isRepo(f.fn) {
			n := 0
			for _, fr := range s.cur().frames {
				if fr.fn == f.fn {
					n++
				}
			}
			if n >= 1 && !strings.Contains(name, "$bound") {
				assign(x.recursive(c, f.fn, args))
				return false
			}
			x.pushFrame(s, f.fn, args, f.b)
			return true
		}
		assign(x.external(c, f.fn, args))
		return false
	}
	panic(fmt.Sprintf("call of %T", fn))
}

// recursive approximates a recursive call by an arbitrary result.
func (x *Exec) recursive(c *Ctx, fn *ssa.Function, args []Val) Val {
	return x.results(c, fn.Signature, "rec:"+fn.Name())
}

func (x *Exec) results(c *Ctx, sig *types.Signature, tag string, org ...Val) Val {
	switch sig.Results().Len() {
	case 0:
		return VTuple{}
	case 1:
		return x.fresh(c, sig.Results().At(0).Type(), tag, org...)
	}
	return x.fresh(c, sig.Results(), tag, org...)
}

// callback models a call of a user-supplied function.
func (x *Exec) callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	var r Val
	if x.mon != nil {
		r = x.mon.Callback(c, f, sig, args)
	}
	if x.cbPanic && (x.cbPanicIf == nil || x.cbPanicIf(c, f)) && x.choose(c.s, 2) == 1 {
		y := c.s.newSym(types.Universe.Lookup("error").Type(), "userpanic")
		c.s.mutSym(y.id).nn = true
		if x.mon != nil {
			x.mon.CallbackPanic(c, f)
		}
		x.throw(panicInfo{val: y, why: "callback", user: true})
	}
	if r == nil {
		r = x.results(c, sig, "cb:"+c.s.syms[f.id].tag)
	}
	return r
}

func (x *Exec) builtin(c *Ctx, name string, call *ssa.CallCommon, args []Val) Val {
	s := c.s
	switch name {
	case "len", "cap":
		v := args[0]
		T := call.Args[0].Type()
		if isString(T) {
			return VInt{x.strLen(c, v)}
		}
		switch T.Underlying().(type) {
		case *types.Map:
			if x.mon != nil {
				if r := x.mon.MapLen(c, v); r != nil {
					return r
				}
			}
			if y, ok := v.(VSym); ok {
				return VInt{s.attr(y, "len")}
			}
			if r, ok := v.(VRef); ok {
				o := s.heap[r.obj]
				if o.hasN {
					return VInt{o.n}
				}
				n := s.nonneg()
				cnt := int64(0)
				for _, e := range o.elems {
					if e.v != nil {
						cnt++
					}
				}
				if o.zero {
					s.assumeEq(n.addc(-cnt))
				} else {
					s.assume(n.addc(-cnt))
				}
				return VInt{n}
			}
			return vint(0)
		case *types.Chan:
			id := x.chanOf(c, v, T)
			if id < 0 {
				return vint(0)
			}
			o := s.heap[id]
			if name == "cap" {
				if o.hasN {
					return VInt{o.n}
				}
				n := s.nonneg()
				m := s.mut(id)
				m.n, m.hasN = n, true
				return VInt{n}
			}
			if o.ext || o.gh["consumed"] != "" {
				n := s.nonneg()
				if o.hasN {
					s.assume(o.n.sub(n))
				}
				return VInt{n}
			}
			return VInt{o.occ}
		case *types.Array:
			return vint(T.Underlying().(*types.Array).Len())
		case *types.Pointer:
			return vint(T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
		if y, ok := v.(VSym); ok {
			if name == "len" {
				n := s.attr(y, "len")
				if x.ovf {
					s.assume(addLin(ld(dimMax), -8, n))
				}
				return VInt{n}
			}
			v = x.materialize(c, y, T)
		}
		switch v := v.(type) {
		case VNil:
			return vint(0)
		case VSlice:
			if name == "len" {
				return VInt{v.len}
			}
			return VInt{v.cap}
		}
		panic(fmt.Sprintf("len of %T", v))
	case "append":
		return x.appendSlice(c, args, call)
	case "copy":
		return x.copySlice(c, args, call)
	case "close":
		T := types.Type(nil)
		if call != nil {
			T = call.Args[0].Type()
		}
		x.closeChan(c, args[0], T)
		return VTuple{}
	case "delete":
		x.mapDelete(c, args[0], call.Args[0].Type(), args[1])
		return VTuple{}
	case "panic":
		x.throw(panicInfo{val: args[0], why: "explicit"})
	case "print", "println":
		return VTuple{}
	case "recover":
		t := s.cur()
		n := len(t.frames)
		if n >= 2 && t.frames[n-1].isDefer {
			cf := t.frames[n-2]
			if cf.panic != nil {
				v := cf.panic.val
				cf.panic = nil
				cf.recov = true
				if x.mon != nil {
					x.mon.Recovered(c)
				}
				return v
			}
		}
		return VNil{}
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			ia, ib := r.(VInt), a.(VInt)
			le := x.decide(s, ib.E.sub(ia.E))
			if le != (name == "min") {
				r = a
			}
		}
		return r
	}
	panic("builtin " + name)
}

func (x *Exec) appendSlice(c *Ctx, args []Val, call *ssa.CallCommon) Val {
	s := c.s
	T := call.Args[0].Type()
	et := T.Underlying().(*types.Slice).Elem()
	dst := args[0]
	if y, ok := dst.(VSym); ok {
		dst = x.materialize(c, y, T)
	}
	src := args[1]
	var srcLen Lin
	var srcSl VSlice
	hasSrc := false
	switch v := src.(type) {
	case VNil:
		return dst
	case VSlice:
		srcLen, srcSl, hasSrc = v.len, v, true
	case VSym:
		if isString(call.Args[1].Type()) {
			srcLen = x.strLen(c, v)
		} else {
			m := x.materialize(c, v, call.Args[1].Type())
			if isNil(m) {
				return dst
			}
			srcSl, hasSrc = m.(VSlice), true
			srcLen = srcSl.len
		}
	case VConst:
		srcLen = x.strLen(c, v)
	}
	if e := s.num.norm(srcLen); e.isConst() && e.c == 0 {
		return dst
	}
	var old VSlice
	if d, ok := dst.(VSlice); ok {
		old = d
		if x.decide(s, d.cap.sub(d.len).sub(srcLen)) {
			// in place
			if x.mon != nil {
				x.mon.WriteRange(c, d.obj, d.off.add(d.len), srcLen)
			}
			x.copyInto(c, d.obj, d.off.add(d.len), srcSl, hasSrc, srcLen)
			return VSlice{d.obj, d.off, d.len.add(srcLen), d.cap}
		}
	}
	cp := s.newDim()
	n := lc(0)
	zero := true
	var elems []Elem
	var elemT string
	if _, ok := dst.(VSlice); ok {
		n = old.len
		oo := s.heap[old.obj]
		zero = oo.zero
		elemT = oo.elemT
		for _, e := range oo.elems {
			// keep the elements inside the old slice
			if x.decide(s, e.idx.sub(old.off)) && x.decide(s, old.off.add(old.len).sub(e.idx).addc(-1)) {
				elems = append(elems, Elem{idx: e.idx.sub(old.off), v: e.v})
			}
		}
	}
	s.assume(cp.sub(n).sub(srcLen))
	id := s.newObj(&Obj{kind: oArr, T: et, site: "append:" + shortFn(s.top().fn), zero: zero, n: cp, hasN: true, elems: elems, elemT: elemT})
	if _, ok := dst.(VSlice); ok && x.mon != nil {
		x.mon.CopyInto(c, id, old.obj, old.off.neg())
	}
	x.copyInto(c, id, n, srcSl, hasSrc, srcLen)
	return VSlice{id, lc(0), n.add(srcLen), cp}
}

// copyInto writes the elements of src at position at of obj.
func (x *Exec) copyInto(c *Ctx, obj int, at Lin, src VSlice, hasSrc bool, n Lin) {
	s := c.s
	if hasSrc {
		if e := s.num.norm(n); e.isConst() && e.c <= 4 {
			for i := int64(0); i < e.c; i++ {
				v := x.readElem(c, src.obj, src.off.addc(i))
				x.writeElem(c, obj, at.addc(i), v)
			}
			return
		}
		so := s.heap[src.obj]
		// overwritten entries of the destination disappear
		var keep []Elem
		for _, e := range s.heap[obj].elems {
			if !x.decide(s, e.idx.sub(at)) || x.decide(s, e.idx.sub(at).sub(n)) {
				keep = append(keep, e)
			}
		}
		for _, e := range so.elems {
			if x.decide(s, e.idx.sub(src.off)) && x.decide(s, src.off.add(n).sub(e.idx).addc(-1)) {
				keep = append(keep, Elem{idx: e.idx.sub(src.off).add(at), v: e.v})
			}
		}
		m := s.mut(obj)
		m.elems = keep
		if !so.zero {
			m.zero = false
		}
		if x.mon != nil {
			x.mon.CopyInto(c, obj, src.obj, at.sub(src.off))
		}
		return
	}
	m := s.mut(obj)
	m.zero = false
	m.elems = nil
}

func (x *Exec) copySlice(c *Ctx, args []Val, call *ssa.CallCommon) Val {
	s := c.s
	sl := func(i int) (VSlice, Lin, bool) {
		v := args[i]
		T := call.Args[i].Type()
		if isString(T) {
			return VSlice{}, x.strLen(c, v), false
		}
		if y, ok := v.(VSym); ok {
			v = x.materialize(c, y, T)
		}
		if isNil(v) {
			return VSlice{}, lc(0), false
		}
		return v.(VSlice), v.(VSlice).len, true
	}
	d, dn, dok := sl(0)
	src, sn, sok := sl(1)
	n := sn
	if !x.decide(s, dn.sub(sn)) {
		n = dn
	}
	if dok {
		if e := s.num.norm(n); !(e.isConst() && e.c == 0) {
			if x.mon != nil {
				x.mon.WriteRange(c, d.obj, d.off, n)
			}
			x.copyInto(c, d.obj, d.off, src, sok, n)
		}
	}
	return VInt{n}
}
