package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// instr executes one instruction in place; nil means the path ended.
func (x *Exec) instr(s *State, in ssa.Instruction) *State {
	f := s.top()
	c := &Ctx{x, s, in}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		T := in.Type().(*types.Pointer).Elem()
		site := shortFn(f.fn) + ":" + in.Comment
		var o *Obj
		if a, ok := T.Underlying().(*types.Array); ok {
			o = &Obj{kind: oArr, T: a.Elem(), site: site, zero: true, n: lc(a.Len()), hasN: true}
		} else {
			o = &Obj{kind: oCell, T: T, site: site, v: zeroVal(T)}
		}
		x.set(s, in, VAddr{obj: s.newObj(o)})
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range in.Bindings {
			b = append(b, x.val(s, v))
		}
		x.set(s, in, VFunc{in.Fn.(*ssa.Function), b})
	case *ssa.MakeInterface:
		x.set(s, in, VIface{in.X.Type(), x.val(s, in.X)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var v ssa.Value
		if ci, ok := in.(*ssa.ChangeInterface); ok {
			v = ci.X
		} else {
			v = in.(*ssa.ChangeType).X
		}
		x.set(s, in.(ssa.Value), x.val(s, v))
	case *ssa.Extract:
		t, ok := x.val(s, in.Tuple).(VTuple)
		if !ok {
			panic(fmt.Sprintf("extract from %T in %s", x.val(s, in.Tuple), f.fn))
		}
		x.set(s, in, t.f[in.Index])
	case *ssa.Phi:
		panic("phi")
	case *ssa.Jump:
		return x.gotoBlock(s, 0)
	case *ssa.If:
		b := x.cond(c, x.val(s, in.Cond))
		if b {
			return x.gotoBlock(s, 0)
		}
		return x.gotoBlock(s, 1)
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, x.val(s, r))
		}
		x.ret(s, res)
		return s
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.callDeferred(s, d)
			return s
		}
	case *ssa.Panic:
		v := x.val(s, in.X)
		if x.mon != nil {
			x.mon.Panic(c, v)
		}
		x.throw(panicInfo{val: v, why: "explicit"})
	case *ssa.UnOp:
		x.unop(c, in)
	case *ssa.BinOp:
		x.set(s, in, x.binop(c, in.Op, x.val(s, in.X), x.val(s, in.Y), in.X.Type(), in.Y.Type(), in.Type()))
	case *ssa.Store:
		a := x.val(s, in.Addr)
		v := x.val(s, in.Val)
		x.store(c, a, v)
	case *ssa.FieldAddr:
		a := x.addrOf(c, x.val(s, in.X), in.X.Type())
		a.path = append(append([]int(nil), a.path...), in.Field)
		x.set(s, in, a)
	case *ssa.Field:
		v := x.val(s, in.X)
		st, ok := v.(VStruct)
		if !ok {
			st = x.expand(c, v, in.X.Type()).(VStruct)
		}
		x.set(s, in, st.f[in.Field])
	case *ssa.IndexAddr:
		x.set(s, in, x.indexAddr(c, x.val(s, in.X), in.X.Type(), x.val(s, in.Index)))
	case *ssa.Index:
		v := x.val(s, in.X)
		i := x.val(s, in.Index).(VInt).E
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			func() {
				defer x.excuse(c, v)()
				c.inRange(i, x.strLen(c, v), "string index")
			}()
			x.set(s, in, x.strByte(c, v, i))
			break
		}
		x.set(s, in, x.fresh(c, in.Type(), "elem"))
	case *ssa.Lookup:
		v := x.val(s, in.X)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i := x.val(s, in.Index).(VInt).E
			func() {
				defer x.excuse(c, v)()
				c.inRange(i, x.strLen(c, v), "string index")
			}()
			x.set(s, in, x.strByte(c, v, i))
			break
		}
		r, ok := x.mapLookup(c, v, in.X.Type(), x.val(s, in.Index))
		if in.CommaOk {
			x.set(s, in, VTuple{[]Val{r, vbool(ok)}})
		} else {
			x.set(s, in, r)
		}
	case *ssa.MapUpdate:
		x.mapUpdate(c, x.val(s, in.Map), in.Map.Type(), x.val(s, in.Key), x.val(s, in.Value))
	case *ssa.MakeMap:
		o := &Obj{kind: oMap, T: in.Type(), site: shortFn(f.fn), zero: true}
		id := s.newObj(o)
		if x.mon != nil {
			x.mon.MakeMap(c, id)
		}
		x.set(s, in, VRef{id})
	case *ssa.MakeChan:
		n := x.val(s, in.Size).(VInt).E
		if !x.decide(s, n) {
			x.rtPanic(c, "makechan: negative size")
		}
		o := &Obj{kind: oChan, T: in.Type(), site: shortFn(f.fn), n: n, hasN: true, occ: lc(0)}
		id := s.newObj(o)
		if x.mon != nil {
			x.mon.MakeChan(c, id)
		}
		x.set(s, in, VRef{id})
	case *ssa.MakeSlice:
		n := x.val(s, in.Len).(VInt).E
		cp := x.val(s, in.Cap).(VInt).E
		if !x.decide(s, n) {
			x.rtPanic(c, "makeslice: negative length")
		}
		if !x.decide(s, cp.sub(n)) {
			x.rtPanic(c, "makeslice: cap out of range")
		}
		o := &Obj{kind: oArr, T: in.Type().Underlying().(*types.Slice).Elem(), site: shortFn(f.fn), zero: true, n: cp, hasN: true}
		id := s.newObj(o)
		if x.mon != nil {
			x.mon.MakeSlice(c, id, n, cp)
		}
		x.set(s, in, VSlice{id, lc(0), n, cp})
	case *ssa.Slice:
		x.set(s, in, x.slice(c, in))
	case *ssa.Convert:
		x.set(s, in, x.convert(c, x.val(s, in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		x.set(s, in.(ssa.Value), x.fresh(c, in.(ssa.Value).Type(), "conv"))
	case *ssa.TypeAssert:
		x.typeAssert(c, in)
	case *ssa.Range:
		v := x.val(s, in.X)
		o := &Obj{kind: oIter, T: in.X.Type(), site: shortFn(f.fn), v: v}
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			o.n, o.hasN = lc(0), true // runes seen
		}
		x.set(s, in, VIter{s.newObj(o)})
	case *ssa.Next:
		x.next(c, in)
	case *ssa.Send:
		x.send(c, x.val(s, in.Chan), x.val(s, in.X))
	case *ssa.Select:
		x.sel(c, in)
	case *ssa.Go:
		fn, args := x.callee(c, &in.Call)
		f.pc++
		x.spawn(c, "go", fn, &in.Call, args)
		return s
	case *ssa.Defer:
		fn, args := x.callee(c, &in.Call)
		f.defers = append(f.defers, deferred{fn: fn, call: &in.Call, args: args, pos: in.Pos()})
	case *ssa.Call:
		fn, args := x.callee(c, &in.Call)
		pushed := x.call(c, fn, &in.Call, args, func(v Val) {
			// results may be assigned while a thread was pushed on top
			fr := f
			fr.regs[fr.info.num[in]] = v
		})
		if pushed {
			return s
		}
	default:
		panic(fmt.Sprintf("unsupported instruction %T", in))
	}
	f.pc++
	return s
}

// cond forks on a boolean.
func (x *Exec) cond(c *Ctx, v Val) bool {
	if b, ok := asBool(v); ok {
		return b
	}
	y, ok := v.(VSym)
	if !ok {
		panic(fmt.Sprintf("condition %T", v))
	}
	b := x.choose(c.s, 2) == 0
	if x.mon != nil {
		x.mon.Cond(c, y, b)
	}
	c.s.substSym(y.id, vbool(b))
	return b
}

// rtPanic raises a run-time panic or reports it when such panics are violations.
func (x *Exec) rtPanic(c *Ctx, why string) {
	if x.checkRT && x.rtHere(c) {
		c.fail("runtime-panic", "%s", why)
	}
	x.throw(panicInfo{val: c.s.newSym(types.Universe.Lookup("error").Type(), "rterr"), why: "runtime: " + why})
}

func (x *Exec) rtHere(c *Ctx) bool {
	return !x.excused && (x.rtWhere == nil || x.rtWhere(c.s.top().fn))
}

// Excuser is implemented by monitors that judge the bounds of some values in
// another analysis.
type Excuser interface {
	Excused(c *Ctx, v Val) bool
}

func (x *Exec) excuse(c *Ctx, v Val) func() {
	if e, ok := x.mon.(Excuser); ok && e.Excused(c, v) {
		x.excused = true
	}
	return func() { x.excused = false }
}

// inRange is the obligation 0 <= i < n.
func (c *Ctx) inRange(i, n Lin, what string) {
	if c.x.checkRT && c.x.rtHere(c) {
		if !c.s.num.entails(i) {
			c.flag("runtime-panic", "%s may be negative", what)
		} else if !c.s.num.entails(n.sub(i).addc(-1)) {
			c.flag("runtime-panic", "%s may be out of range", what)
		} else {
			c.ok("runtime-panic")
		}
	}
	c.x.must(c.s, i)
	c.x.must(c.s, n.sub(i).addc(-1))
	if c.x.ovf {
		c.s.assume(addLin(ld(dimMax), -1, n)) // a length
	}
}

func (c *Ctx) need(e Lin, what string) {
	if c.x.checkRT && c.x.rtHere(c) {
		if !c.s.num.entails(e) {
			c.flag("runtime-panic", "%s", what)
		} else {
			c.ok("runtime-panic")
		}
	}
	c.x.must(c.s, e)
}

// addrOf turns a pointer value into an address, materialising unknown objects.
func (x *Exec) addrOf(c *Ctx, v Val, T types.Type) VAddr {
	switch v := v.(type) {
	case VAddr:
		return v
	case VNil:
		x.rtPanic(c, "nil pointer dereference")
	case VSym:
		return x.materialize(c, v, T).(VAddr)
	}
	panic(fmt.Sprintf("addrOf %T", v))
}

// materialize gives a symbolic pointer, map, channel or slice an object.
func (x *Exec) materialize(c *Ctx, v VSym, T types.Type) Val {
	s := c.s
	si := s.syms[v.id]
	if !si.nn && si.tag != "recv" {
		// may be nil
		if x.choose(s, 2) == 1 {
			s.substSym(v.id, VNil{})
			if s.num.bot {
				x.stop()
			}
			if _, ok := T.Underlying().(*types.Pointer); ok {
				x.rtPanic(c, "nil pointer dereference")
			}
			return VNil{}
		}
	}
	site := "ext:" + si.tag
	var by Val
	if si.tag == "data" {
		return VAddr{obj: si.org[0].(VSlice).obj}
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			by = VAddr{obj: s.newObj(&Obj{kind: oArr, T: a.Elem(), site: site, ext: true, n: lc(a.Len()), hasN: true, elemT: si.tag})}
			break
		}
		content := x.fresh(c, u.Elem(), si.tag+".*", si.org...)
		by = VAddr{obj: s.newObj(&Obj{kind: oCell, T: u.Elem(), site: site, ext: true, v: content})}
	case *types.Map:
		by = VRef{s.newObj(&Obj{kind: oMap, T: T, site: site, ext: true})}
	case *types.Chan:
		by = VRef{s.newObj(&Obj{kind: oChan, T: T, site: site, ext: true})}
	case *types.Slice:
		ln := s.attr(v, "len")
		cp := s.attr(v, "cap")
		s.assume(cp.sub(ln))
		by = VSlice{s.newObj(&Obj{kind: oArr, T: u.Elem(), site: site, ext: true, n: cp, hasN: true, elemT: si.tag}), lc(0), ln, cp}
	default:
		panic(fmt.Sprintf("materialize %s", T))
	}
	if x.mon != nil {
		x.mon.Materialize(c, v, by)
	}
	s.substSym(v.id, by)
	if s.num.bot {
		x.stop()
	}
	return by
}

// expand turns a symbolic struct into its fields.
func (x *Exec) expand(c *Ctx, v Val, T types.Type) Val {
	if y, ok := v.(VSym); ok {
		n := x.fresh(c, T, c.s.syms[y.id].tag, c.s.syms[y.id].org...)
		if _, same := n.(VSym); !same {
			c.s.substSym(y.id, n)
		}
		return n
	}
	return v
}

func (x *Exec) load(c *Ctx, a VAddr) Val {
	s := c.s
	if x.mon != nil {
		if v, ok := x.mon.Load(c, a); ok {
			return v
		}
	}
	return x.loadRaw(c, a, s)
}

func (x *Exec) loadRaw(c *Ctx, a VAddr, s *State) Val {
	o := s.heap[a.obj]
	var v Val
	if o.kind == oArr {
		if a.idx == nil {
			return s.newSym(types.NewArray(o.T, 0), "array")
		}
		v = x.readElem(c, a.obj, *a.idx)
	} else {
		v = o.v
	}
	for i, p := range a.path {
		st, ok := v.(VStruct)
		if !ok && i == len(a.path)-1 {
			return x.header(c, v, p)
		}
		if !ok {
			panic(fmt.Sprintf("load field of %s", s.show(v)))
		}
		v = st.f[p]
	}
	return v
}

func setPath(v Val, path []int, w Val) Val {
	if len(path) == 0 {
		return w
	}
	st := v.(VStruct)
	f := append([]Val(nil), st.f...)
	f[path[0]] = setPath(f[path[0]], path[1:], w)
	return VStruct{f}
}

func (x *Exec) store(c *Ctx, av Val, v Val) {
	a := x.addrOf(c, av, nilType)
	if x.mon != nil {
		x.mon.Store(c, a, v)
	}
	x.storeRaw(c, a, v)
}

var nilType types.Type = types.NewPointer(types.NewInterfaceType(nil, nil))

func (x *Exec) storeRaw(c *Ctx, a VAddr, v Val) {
	s := c.s
	o := s.heap[a.obj]
	if o.kind == oArr {
		if a.idx == nil {
			n := s.mut(a.obj)
			n.elems = nil
			n.zero = false
			return
		}
		if len(a.path) > 0 {
			old := x.readElem(c, a.obj, *a.idx)
			v = setPath(old, a.path, v)
		}
		x.writeElem(c, a.obj, *a.idx, v)
		return
	}
	if _, ok := o.v.(VStruct); !ok && len(a.path) == 1 {
		h := x.headers(c, o.v)
		s.mut(a.obj).v = h
	}
	n := s.mut(a.obj)
	n.v = setPath(n.v, a.path, v)
}

func (x *Exec) readElem(c *Ctx, obj int, idx Lin) Val {
	s := c.s
	o := s.heap[obj]
	for i := range o.elems {
		if x.decideEq(s, idx.sub(s.heap[obj].elems[i].idx)) {
			x.others(s, obj, i)
			return s.heap[obj].elems[i].v
		}
	}
	o = s.heap[obj]
	if o.zero {
		return zeroVal(o.T)
	}
	tag := "elem"
	if o.elemT != "" {
		tag = "elem:" + o.elemT
	}
	if x.mon != nil {
		if v := x.mon.FreshElem(c, obj, idx); v != nil {
			return v
		}
	}
	return x.fresh(c, o.T, tag)
}

// others: tracked elements are at different positions (which a join may have
// forgotten).
func (x *Exec) others(s *State, obj, i int) {
	if !x.distinct {
		return
	}
	at := s.heap[obj].elems[i].idx
	for j := range s.heap[obj].elems {
		if j != i && x.decideEq(s, at.sub(s.heap[obj].elems[j].idx)) {
			s.node.exit = true // no execution is like this
			x.stop()
		}
	}
}

func (x *Exec) track(s *State, v Val) bool {
	return x.trackFn != nil && x.trackFn(x, s, v)
}

// isSmall: every element of the array is kept.
func (x *Exec) isSmall(s *State, o *Obj) bool {
	if !o.hasN {
		return false
	}
	e := s.num.norm(o.n)
	return e.isConst() && e.c <= 16
}

func (x *Exec) writeElem(c *Ctx, obj int, idx Lin, v Val) {
	s := c.s
	if x.mon != nil {
		x.mon.WriteElem(c, obj, idx, v)
	}
	o := s.heap[obj]
	hit := -1
	for i := range o.elems {
		if x.decideEq(s, idx.sub(s.heap[obj].elems[i].idx)) {
			hit = i
			x.others(s, obj, i)
			break
		}
	}
	o = s.heap[obj]
	keep := x.track(s, v) || x.isSmall(s, o) && s.num.norm(idx).isConst()
	n := s.mut(obj)
	if hit >= 0 {
		if keep {
			n.elems[hit].v = v
			return
		}
		n.elems = append(n.elems[:hit], n.elems[hit+1:]...)
		n.zero = false
		return
	}
	if keep {
		n.elems = append(n.elems, Elem{idx: idx, v: v})
		return
	}
	n.zero = false
}

func (x *Exec) indexAddr(c *Ctx, v Val, T types.Type, iv Val) Val {
	s := c.s
	i := iv.(VInt).E
	if y, ok := v.(VSym); ok {
		v = x.materialize(c, y, T)
	}
	switch v := v.(type) {
	case VAddr: // pointer to array
		o := s.heap[v.obj]
		c.inRange(i, o.n, "array index")
		return VAddr{obj: v.obj, idx: &i}
	case VSlice:
		func() {
			defer x.excuse(c, v)()
			c.inRange(i, v.len, "slice index")
		}()
		e := v.off.add(i)
		return VAddr{obj: v.obj, idx: &e}
	case VNil:
		x.rtPanic(c, "index out of range (nil slice)")
	}
	panic(fmt.Sprintf("indexAddr %T", v))
}

func (x *Exec) unop(c *Ctx, in *ssa.UnOp) {
	s := c.s
	v := x.val(s, in.X)
	switch in.Op {
	case token.MUL:
		a := x.addrOf(c, v, in.X.Type())
		x.set(s, in, x.pun(c, x.load(c, a), in.Type()))
	case token.NOT:
		if b, ok := asBool(v); ok {
			x.set(s, in, vbool(!b))
			return
		}
		x.set(s, in, vbool(!x.cond(c, v)))
	case token.SUB:
		if i, ok := v.(VInt); ok {
			x.set(s, in, x.wrapInt(c, i.E.neg(), in.Type()))
			return
		}
		x.set(s, in, x.fresh(c, in.Type(), "neg", v))
	case token.XOR:
		if i, ok := v.(VInt); ok && !isUnsigned(in.Type()) {
			x.set(s, in, VInt{i.E.neg().addc(-1)})
			return
		}
		x.set(s, in, x.opaqueInt(c, in.Type(), "^", v))
	case token.ARROW:
		r, ok := x.recv(c, v, in.X.Type())
		if in.CommaOk {
			x.set(s, in, VTuple{[]Val{r, vbool(ok)}})
		} else {
			x.set(s, in, r)
		}
	default:
		panic("unop " + in.Op.String())
	}
}

func isUnsigned(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) opaqueInt(c *Ctx, T types.Type, op string, args ...Val) Val {
	if x.mon != nil {
		if v := x.mon.IntOp(c, T, op, args); v != nil {
			return v
		}
	}
	return x.fresh(c, T, "int:"+op)
}

// intBounds returns the constant bounds of a small integer type.
func intBounds(T types.Type) (lo, hi int64, ok bool) {
	b, isb := T.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return
}

// wrapInt models the result e of an integer operation of type T.
func (x *Exec) wrapInt(c *Ctx, e Lin, T types.Type) Val {
	s := c.s
	if lo, hi, ok := intBounds(T); ok {
		if s.num.entails(e.addc(-lo)) && s.num.entails(e.neg().addc(hi)) {
			return VInt{e}
		}
		if n := s.num.norm(e); n.isConst() {
			w := (n.c - lo) % (hi - lo + 1)
			if w < 0 {
				w += hi - lo + 1
			}
			return vint(lo + w)
		}
		return x.opaqueInt(c, T, "wrap", VInt{e})
	}
	if isUnsigned(T) {
		if s.num.entails(e) {
			return VInt{e}
		}
		if x.decide(s, e) {
			return VInt{e}
		}
		return x.opaqueInt(c, T, "wrap", VInt{e})
	}
	if x.ovf {
		if s.num.entails(addLin(ld(dimMax), -1, e)) && s.num.entails(addLin(ld(dimMax), 1, e).addc(1)) {
			return VInt{e}
		}
		if !x.decide(s, addLin(ld(dimMax), -1, e)) || !x.decide(s, addLin(ld(dimMax), 1, e).addc(1)) {
			return x.opaqueInt(c, T, "wrap", VInt{e})
		}
	}
	return VInt{e}
}

func (x *Exec) binop(c *Ctx, op token.Token, a, b Val, TA, TB, TR types.Type) Val {
	s := c.s
	ia, oka := a.(VInt)
	ib, okb := b.(VInt)
	if oka && okb {
		switch op {
		case token.ADD:
			return x.wrapInt(c, ia.E.add(ib.E), TR)
		case token.SUB:
			return x.wrapInt(c, ia.E.sub(ib.E), TR)
		case token.MUL:
			na, nb := s.num.norm(ia.E), s.num.norm(ib.E)
			if nb.isConst() {
				return x.wrapInt(c, ia.E.mul(nb.c), TR)
			}
			if na.isConst() {
				return x.wrapInt(c, ib.E.mul(na.c), TR)
			}
			return x.opaqueInt(c, TR, "*", a, b)
		case token.QUO, token.REM:
			return x.divide(c, op, ia.E, ib.E, TR, a, b)
		case token.SHL:
			if n := s.fixed(ib.E); n.isConst() && n.c >= 0 && n.c < 40 {
				if v, ok := x.wrapInt(c, ia.E.mul(1<<uint(n.c)), TR).(VInt); ok && x.mon == nil {
					return v
				} else if r := x.monInt(c, TR, "<<", a, b); r != nil {
					return r
				} else {
					return v
				}
			}
			if !isUnsigned(TB) {
				c.need(ib.E, "shift count may be negative")
			}
			return x.opaqueInt(c, TR, "<<", a, b)
		case token.SHR:
			if r := x.monInt(c, TR, ">>", a, b); r != nil {
				return r
			}
			if n := s.fixed(ib.E); n.isConst() && n.c >= 0 && n.c < 40 && (isUnsigned(TA) || s.num.entails(ia.E)) {
				if lo, hi, ok := s.bounds(ia.E, bitsMax); ok && lo>>uint(n.c) == hi>>uint(n.c) {
					return vint(lo >> uint(n.c))
				}
				q := s.nonneg()
				k := int64(1) << uint(n.c)
				s.assume(ia.E.sub(q.mul(k)))
				s.assume(q.mul(k).addc(k - 1).sub(ia.E))
				return VInt{q}
			}
			if !isUnsigned(TB) {
				c.need(ib.E, "shift count may be negative")
			}
			return x.opaqueInt(c, TR, ">>", a, b)
		case token.AND:
			if r := x.monInt(c, TR, "&", a, b); r != nil {
				return r
			}
			if r, ok := x.bitOp(c, "&", ia.E, ib.E); ok {
				return VInt{r}
			}
			r := x.opaqueInt(c, TR, "&", a, b)
			if ri, ok := r.(VInt); ok {
				for _, e := range []Lin{ia.E, ib.E} {
					if s.num.entails(e) {
						s.assume(ri.E)
						s.assume(e.sub(ri.E))
					}
				}
			}
			return r
		case token.OR, token.XOR, token.AND_NOT:
			if r := x.monInt(c, TR, op.String(), a, b); r != nil {
				return r
			}
			if r, ok := x.bitOp(c, op.String(), ia.E, ib.E); ok {
				return VInt{r}
			}
			return x.opaqueInt(c, TR, op.String(), a, b)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			d := ib.E.sub(ia.E)
			if x.mon != nil {
				if v := x.mon.CmpInt(c, op, a, b); v != nil {
					return v
				}
			}
			switch op {
			case token.EQL:
				return vbool(x.decideEq(s, d))
			case token.NEQ:
				return vbool(!x.decideEq(s, d))
			case token.LSS:
				return vbool(x.decide(s, d.addc(-1)))
			case token.LEQ:
				return vbool(x.decide(s, d))
			case token.GTR:
				return vbool(x.decide(s, d.neg().addc(-1)))
			default:
				return vbool(x.decide(s, d.neg()))
			}
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		if x.mon != nil && isFloat(TA) {
			if v := x.mon.BinOp(c, op, a, b, TR); v != nil {
				return v
			}
		}
		r := x.equal(c, a, b, TA)
		return vbool(r == (op == token.EQL))
	case token.ADD:
		if bt, ok := TR.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return x.concat(c, a, b, TR)
		}
	}
	if ca, ok := a.(VConst); ok {
		if cb, ok := b.(VConst); ok {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return vbool(constant.Compare(ca.V, op, cb.V))
			}
		}
	}
	if x.mon != nil {
		if v := x.mon.BinOp(c, op, a, b, TR); v != nil {
			return v
		}
	}
	return x.fresh(c, TR, "op:"+op.String(), a, b)
}

func (x *Exec) monInt(c *Ctx, T types.Type, op string, a, b Val) Val {
	if x.mon == nil {
		return nil
	}
	return x.mon.IntOp(c, T, op, []Val{a, b})
}

func (x *Exec) divide(c *Ctx, op token.Token, a, b Lin, TR types.Type, av, bv Val) Val {
	s := c.s
	if x.checkRT && x.rtHere(c) {
		if s.num.entails(b.addc(-1)) || s.num.entails(b.neg().addc(-1)) {
			c.ok("runtime-panic")
		} else {
			if !x.decide(s, b.addc(-1)) && !x.decide(s, b.neg().addc(-1)) {
				c.fail("runtime-panic", "division by zero")
			}
		}
	}
	if r := x.monInt(c, TR, op.String(), av, bv); r != nil {
		return r
	}
	nb := s.num.norm(b)
	if op == token.REM && s.num.entails(a) && s.num.entails(b.addc(-1)) && s.num.entails(b.sub(a).addc(-1)) {
		return VInt{a}
	}
	if op == token.REM && !nb.isConst() && s.num.entails(a) && s.num.entails(b.addc(-1)) {
		if r, ok := x.reduce(s, a, b); ok {
			return VInt{r}
		}
	}
	mk := func(q, r Lin) Val {
		if op == token.QUO {
			return VInt{q}
		}
		return VInt{r}
	}
	if nb.isConst() && nb.c >= 1 && s.num.entails(a) {
		// a is a multiple of b and a constant
		q, ok := Lin{}, true
		na := s.num.norm(a)
		for _, t := range na.t {
			if t.k%nb.c != 0 {
				ok = false
				break
			}
			q = q.add(ld(t.d).mul(t.k / nb.c))
		}
		if ok {
			r := (na.c%nb.c + nb.c) % nb.c
			return mk(q.addc((na.c-r)/nb.c), lc(r))
		}
	}
	// |r| < |b|, sign of r follows a
	nonneg := s.num.entails(a)
	if !nonneg && !isUnsigned(TR) {
		nonneg = x.decide(s, a)
	}
	r := s.newDim()
	q := s.newDim()
	if nonneg {
		s.assume(r)
		s.assume(a.sub(r))
	} else {
		s.assume(r.neg())
		s.assume(r.sub(a))
	}
	if nb.isConst() && nb.c != 0 {
		k := nb.c
		ak := k
		if ak < 0 {
			ak = -ak
		}
		s.assumeEq(a.sub(q.mul(k)).sub(r))
		if nonneg {
			s.assume(r.neg().addc(ak - 1))
		} else {
			s.assume(r.addc(ak - 1))
		}
		return mk(q, r)
	}
	if s.num.entails(b.addc(-1)) {
		if nonneg {
			if op == token.REM {
				s.noteMod(r, a, b)
			}
			s.assume(b.sub(r).addc(-1))
			s.assume(q)
			s.assume(a.sub(q))
		} else {
			s.assume(b.add(r).addc(-1))
			s.assume(q.neg())
			s.assume(q.sub(a))
		}
	}
	return mk(q, r)
}

// equal decides a == b, forking when unknown.
func (x *Exec) equal(c *Ctx, a, b Val, T types.Type) bool {
	s := c.s
	r, known := x.equalKnown(c, a, b)
	if known {
		return r
	}
	if ia, ok := a.(VInt); ok {
		if ib, ok := b.(VInt); ok {
			return x.decideEq(s, ia.E.sub(ib.E))
		}
	}
	if sa, ok := a.(VStruct); ok {
		if sb, ok := b.(VStruct); ok {
			for i := range sa.f {
				if !x.equal(c, sa.f[i], sb.f[i], nil) {
					return false
				}
			}
			return true
		}
	}
	if fa, ok := a.(VIface); ok {
		if fb, ok := b.(VIface); ok {
			return x.equal(c, fa.v, fb.v, fa.T)
		}
	}
	ya, oka := a.(VSym)
	yb, okb := b.(VSym)
	k := neqKey(a, b)
	if _, ok := s.neq[k]; ok {
		return false
	}
	eq := x.choose(s, 2) == 0
	if x.mon != nil {
		x.mon.Equal(c, a, b, eq)
	}
	if !eq {
		s.neq[k] = neqFact{a, b}
		if oka {
			if isNil(b) {
				s.mutSym(ya.id).nn = true
			}
			if bs, ok := asStr(b); ok && bs == "" {
				x.must(s, x.strLen(c, a).addc(-1))
			}
		}
		if okb {
			if isNil(a) {
				s.mutSym(yb.id).nn = true
			}
			if as, ok := asStr(a); ok && as == "" {
				x.must(s, x.strLen(c, b).addc(-1))
			}
		}
		return false
	}
	switch {
	case oka:
		s.substSym(ya.id, b)
	case okb:
		s.substSym(yb.id, a)
	}
	if s.num.bot {
		x.stop()
	}
	if s.num.bot {
		x.stop()
	}
	return true
}

func (x *Exec) equalKnown(c *Ctx, a, b Val) (eq, known bool) {
	s := c.s
	if isNil(a) && isNil(b) {
		return true, true
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch v := a.(type) {
		case VAddr, VSlice, VIface, VFunc, VRef:
			return false, true
		case VSym:
			if s.syms[v.id].nn {
				return false, true
			}
		}
		return false, false
	}
	switch va := a.(type) {
	case VConst:
		if vb, ok := b.(VConst); ok {
			return constant.Compare(va.V, token.EQL, vb.V), true
		}
	case VSym:
		if vb, ok := b.(VSym); ok && va.id == vb.id {
			return true, true
		}
	case VRef:
		if vb, ok := b.(VRef); ok {
			return va.obj == vb.obj, true
		}
	case VAddr:
		if vb, ok := b.(VAddr); ok {
			if va.obj != vb.obj {
				return false, true
			}
			if va.idx == nil && vb.idx == nil {
				if len(va.path) != len(vb.path) {
					return false, true
				}
				for i := range va.path {
					if va.path[i] != vb.path[i] {
						return false, true
					}
				}
				return true, true
			}
		}
		if vb, ok := b.(VSym); ok {
			// a fresh local object is not an unknown older value
			if o := s.heap[va.obj]; o != nil && !o.ext && !s.escaped(va.obj) {
				_ = vb
				return false, true
			}
		}
	case VIface:
		switch vb := b.(type) {
		case VIface:
			if !types.Identical(va.T, vb.T) {
				return false, true
			}
		}
	}
	if va, ok := b.(VAddr); ok {
		if _, ok := a.(VSym); ok {
			if o := s.heap[va.obj]; o != nil && !o.ext && !s.escaped(va.obj) {
				return false, true
			}
		}
	}
	return false, false
}

// escaped reports whether unknown code may hold a pointer to the object.
func (s *State) escaped(obj int) bool {
	return s.heap[obj].gh["esc"] != ""
}
