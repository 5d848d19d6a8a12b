package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// shardMon judges xsync.SharedMap (C19): the operations of the maps that are
// its shards are not followed, only which shard they are applied to.
type shardMon struct {
	NoMon
	w *World
}

func (m *shardMon) TrackKey(c *Ctx, id int, key, val Val) bool { return true }

// numbered gives equal results to equal applications of a pure function.
func (c *Ctx) numbered(what string, args []Val, fresh func() Val) Val {
	s := c.s
	norm := func(v Val) string { return valKey(s.normVal(v)) }
	n := 0
	for ; ; n++ {
		e, ok := s.gv[fmt.Sprintf("vn#%d", n)].(VStruct)
		if !ok {
			break
		}
		if w, _ := asStr(e.f[0]); w != what || len(e.f) != len(args)+2 {
			continue
		}
		same := true
		for i, a := range args {
			if norm(a) != norm(e.f[i+1]) {
				same = false
			}
		}
		if same {
			return e.f[len(e.f)-1]
		}
	}
	r := fresh()
	s.gv[fmt.Sprintf("vn#%d", n)] = VStruct{append(append([]Val{vstr(what)}, args...), r)}
	return r
}

func (m *shardMon) IntOp(c *Ctx, T types.Type, op string, args []Val) Val {
	if !strings.HasPrefix(c.x.entry, "Agree") {
		return nil
	}
	known := true
	for _, a := range args {
		i, ok := a.(VInt)
		if !ok {
			return nil
		}
		if lo, hi, ok := c.s.bounds(i.E, bitsMax); !ok || lo != hi {
			known = false
		}
	}
	if known {
		return nil
	}
	return c.numbered(op+typeStr(T), args, func() Val {
		if len(args) == 2 {
			if r, ok := c.x.bitOp(c, op, args[0].(VInt).E, args[1].(VInt).E); ok {
				return VInt{r}
			}
		}
		return c.x.fresh(c, T, "int:"+op)
	})
}

func (m *shardMon) StrByte(c *Ctx, v Val, i Lin) Val {
	if !strings.HasPrefix(c.x.entry, "Agree") {
		return nil
	}
	return c.numbered("byte", []Val{v, VInt{i}}, func() Val { return c.x.fresh(c, types.Typ[types.Uint8], "byte") })
}

// normVal is v with its numbers in normal form.
func (s *State) normVal(v Val) Val {
	switch v := v.(type) {
	case VInt:
		return VInt{s.num.norm(v.E)}
	case VStruct:
		f := make([]Val, len(v.f))
		for i, e := range v.f {
			f[i] = s.normVal(e)
		}
		return VStruct{f}
	case VSlice:
		v.off, v.len, v.cap = s.num.norm(v.off), s.num.norm(v.len), s.num.norm(v.cap)
		return v
	case VIface:
		v.v = s.normVal(v.v)
		return v
	}
	return v
}

func (m *shardMon) FreshElem(c *Ctx, obj int, idx Lin) Val {
	if _, ok := c.s.heap[obj].T.Underlying().(*types.Pointer); !ok {
		return nil
	}
	return c.numbered("elem", []Val{VRef{obj}, VInt{idx}}, func() Val {
		y := c.x.fresh(c, c.s.heap[obj].T, "shard").(VSym)
		c.s.mutSym(y.id).nn = true
		return y
	})
}

// isMapMethod: fn is an exported operation of the concurrent map.
func isMapMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || !fn.Object().Exported() {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/xsync"
}

func (m *shardMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	s := c.s
	if fn.Synthetic == "" && isMapMethod(fn) {
		if c.x.entry == "Stop" || strings.HasPrefix(c.x.entry, "Stop/") {
			if fn.Name() == "Range" {
				return vShim{"some pairs"}, true
			}
		}
		m.applied(c, fn.Name(), args)
		res := fn.Signature.Results()
		if res.Len() == 1 {
			return c.x.fresh(c, res.At(0).Type(), "result"), true
		}
		return c.x.fresh(c, res, "result"), true
	}
	// The range of a shard's index is decided by the Size entries, with everything run.
	if strings.HasPrefix(c.x.entry, "Agree") && m.w.opaque(fn) && m.w.pureFn(fn) && fn.Signature.Results().Len() == 1 {
		known := true
		for _, a := range args {
			i, ok := a.(VInt)
			if !ok {
				known = false
			} else if lo, hi, ok := s.bounds(i.E, bitsMax); !ok || lo != hi {
				known = false
			}
		}
		if known && m.w.isRepo(fn) {
			return nil, false
		}
		return c.numbered(fn.String(), args, func() Val {
			v := c.x.fresh(c, fn.Signature.Results().At(0).Type(), "pure")
			if y, ok := v.(VSym); ok {
				s.mutSym(y.id).nn = true
			}
			return v
		}), true
	}
	return nil, false
}

func (m *shardMon) applied(c *Ctx, name string, args []Val) {
	s := c.s
	if s.gh["whole"] != "" {
		hits, _ := s.gv["hits"].(VTuple)
		for _, h := range hits.f {
			if valKey(h) == valKey(args[0]) {
				return
			}
		}
		s.gv["hits"] = VTuple{append(append([]Val(nil), hits.f...), args[0])}
		return
	}
	if s.gh["keyed"] == "" {
		return
	}
	if len(args) < 2 {
		c.flag("shard", "an operation on one key is applied to a whole shard (%s)", name)
		return
	}
	key := valKey(unbox(args[1]))
	if key != valKey(s.gv["key"]) {
		c.flag("key", "%s is applied to another key than the one given", name)
		return
	}
	var sh Val
	for _, k := range sortedKeys(s.gv) {
		if e, ok := s.gv[k].(VStruct); ok && strings.HasPrefix(k, "shard#") && valKey(e.f[0]) == key {
			sh = e.f[1]
		}
	}
	if sh == nil {
		c.flag("key", "%s is applied to an unknown key", name)
		return
	}
	if valKey(sh) != valKey(args[0]) {
		c.flag("shard", "%s is applied to another shard than the one of the key", name)
		return
	}
	s.gh["reached"] = "1"
	c.ok("shard")
}

func (m *shardMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "emit":
		s.gv["pair"] = VStruct{[]Val{vs[0], vs[1]}}
	case "visit":
		p, _ := s.gv["pair"].(VStruct)
		switch {
		case s.gh["stopped"] != "":
			c.flag("range", "Range goes on after its function asked it to stop")
		case len(p.f) != 2 || valKey(p.f[0]) != valKey(vs[0]) || valKey(p.f[1]) != valKey(vs[1]):
			c.flag("range", "Range passes on something else than a pair of a shard")
		default:
			c.ok("range")
		}
		delete(s.gv, "pair")
	case "stop":
		s.gh["stopped"] = "1"
	case "passed":
		_, skipped := s.gv["pair"]
		more, _ := asBool(vs[0])
		if s.gh["stopped"] == "" && (skipped || !more) {
			c.flag("range", "Range leaves out pairs of a shard")
		}
		delete(s.gv, "pair")
	case "sized":
		n, ok := m.count(s, vs[0])
		if !ok {
			c.fail("count", "the number of shards cannot be determined")
		}
		switch {
		case !n.isConst() || n.c <= 0 || n.c&(n.c-1) != 0:
			c.flag("count", "the number of shards is not a power of two")
		case !s.num.entails(n.sub(vs[1].(VInt).E)):
			c.flag("count", "there are fewer shards than requested")
		default:
			c.ok("count")
		}
		s.gv["n"] = VInt{n}
		if strings.HasPrefix(c.x.entry, "Size") || strings.HasPrefix(c.x.entry, "Default") {
			s.gh["coarse"] = "1"
		}
	case "in":
		c.ok("range")
	case "rejected":
		c.ok("reject")
	case "accepted":
		c.flag("reject", "a shard count that cannot be honoured is accepted")
	case "shard":
		n := 0
		for s.gv[fmt.Sprintf("shard#%d", n)] != nil {
			n++
		}
		s.gv[fmt.Sprintf("shard#%d", n)] = VStruct{[]Val{vs[1], vs[0]}}
	case "keyed":
		s.gh["keyed"], s.gh["reached"] = "1", ""
		s.gv["key"] = vs[0]
	case "done":
		if s.gh["reached"] == "" {
			c.flag("shard", "an operation does not reach the shard of its key")
		}
		s.gh["keyed"] = ""
		delete(s.gv, "key")
	case "whole":
		s.gh["whole"] = "1"
	case "covered":
		hits, _ := s.gv["hits"].(VTuple)
		hit := int64(len(hits.f))
		delete(s.gv, "hits")
		if n, ok := s.gv["n"].(VInt); !ok || !s.num.entailsEq(n.E.addc(-hit)) {
			c.flag("all", "not every shard is reached")
		} else {
			c.ok("all")
		}
		s.gh["whole"] = ""
	}
	return unit()
}

// count is the number of maps the sharded map holds.
func (m *shardMon) count(s *State, v Val) (n Lin, ok bool) {
	for id := range s.reach(v) {
		o := s.heap[id]
		if o.kind != oArr {
			continue
		}
		t := types.Unalias(o.T)
		if p, isP := t.Underlying().(*types.Pointer); isP {
			t = types.Unalias(p.Elem())
		}
		if nm, isN := t.(*types.Named); isN && nm.Obj().Name() == "Map" && o.hasN {
			if lo, hi, ok := s.bounds(o.n, bitsMax); ok && lo == hi {
				return lc(lo), true
			}
			return s.num.norm(o.n), true
		}
	}
	return
}

func (m *shardMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

// opaque: following fn says less than that it is a function of its arguments,
// as it repeats something or asks a library.
func (w *World) opaque(fn *ssa.Function) bool {
	if !w.isRepo(fn) {
		return effectFree[pkgOf(fn)]
	}
	if hasLoop(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.IsInvoke() {
				return true
			}
		}
	}
	return false
}

// hasLoop: some block of fn can reach itself.
func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				return true
			}
		}
	}
	return false
}

var effectFree = map[string]bool{"hash": true, "hash/fnv": true, "hash/crc32": true, "hash/crc64": true, "hash/adler32": true, "math/bits": true,
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "bytes": true, "encoding/binary": true}

// pureFn: what fn returns depends on nothing but its arguments.
func (w *World) pureFn(fn *ssa.Function) bool {
	if w.pure == nil {
		w.pure = map[*ssa.Function]bool{}
	}
	if r, ok := w.pure[fn]; ok {
		return r
	}
	w.pure[fn] = true // recursion adds nothing
	r := w.pureBody(fn)
	w.pure[fn] = r
	return r
}

func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		return localAddr(v.X)
	case *ssa.Slice:
		return localAddr(v.X)
	case *ssa.Convert: // a copy
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	}
	return false
}

func (w *World) pureBody(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return effectFree[pkgOf(fn)]
	}
	if !w.isRepo(fn) {
		return effectFree[pkgOf(fn)]
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr) {
					return false
				}
			case *ssa.UnOp:
				switch in.Op.String() {
				case "<-":
					return false
				case "*":
					if !localAddr(in.X) && !w.frozen(in.X) {
						return false
					}
				}
			case *ssa.Lookup:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					return false
				}
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				switch f := in.Call.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "cap", "append", "copy", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !w.pureFn(f) {
						return false
					}
				default:
					if !in.Call.IsInvoke() || in.Call.Method.Pkg() == nil || !effectFree[in.Call.Method.Pkg().Path()] && in.Call.Method.Pkg().Path() != "io" {
						return false
					}
				}
			}
		}
	}
	return true
}

// frozen: no function but one that just made the object writes what the
// address denotes.
func (w *World) frozen(v ssa.Value) bool {
	var hit func(a ssa.Value) bool
	switch a := v.(type) {
	case *ssa.Global:
		hit = func(b ssa.Value) bool { return b == a }
	case *ssa.FieldAddr:
		hit = func(b ssa.Value) bool {
			f, ok := b.(*ssa.FieldAddr)
			return ok && f.Field == a.Field && types.Identical(f.X.Type(), a.X.Type()) && !localAddr(f.X)
		}
	case *ssa.IndexAddr:
		hit = func(b ssa.Value) bool {
			f, ok := b.(*ssa.IndexAddr)
			return ok && types.Identical(f.X.Type(), a.X.Type()) && !localAddr(f.X)
		}
	default:
		return false
	}
	for fn := range w.allFns() {
		if !w.isRepo(fn) || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && hit(st.Addr) {
					return false
				}
			}
		}
	}
	return true
}

// sharedMon runs the shards too and judges contents (C19).
type sharedMon struct{ cmapMon }

func (m *sharedMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name == "Mark" {
		if what, vs := c.marks(args); what == "endok" {
			m.finish(c, "0", nil, vs[0])
			return unit()
		}
	}
	return m.cmapMon.Intrinsic(c, name, args)
}

func init() {
	register("C19", []string{"hshard"}, func(r *Run) {
		type task struct {
			entry string
			given int
		}
		var ts []task
		ts = append(ts, task{"Sequence", 1}, task{"Stop", 1}, task{"Stop", 2}, task{"Stop", 4}, task{"Agree", 4}, task{"Agree", 64}, task{"Reject", 0}, task{"Default", 0})
		for _, n := range []int{1, 2, 3, 5, 16, 33} {
			ts = append(ts, task{"All", n})
		}
		for h := -1; h < 31; h++ {
			ts = append(ts, task{"Size", h})
		}
		r.parallel(len(ts), func(i int) {
			t := ts[i]
			var m Mon = &shardMon{w: r.w}
			if t.entry == "Sequence" {
				m = &sharedMon{}
			}
			r.explore("hshard", t.entry, m, func(x *Exec) {
				x.given = []int{t.given}
				x.checkRT = t.entry != "Agree"
				x.limit = 300 * time.Second
				x.maxDisj = 200
				switch t.entry {
				case "Sequence":
					x.interleave = true
					x.budget = 4000000
					x.maxDisj = 1000
				case "Agree", "All":
					x.budget = 1000000
					x.maxDisj = 1000
					if t.entry == "All" {
						x.trackFn = func(x *Exec, s *State, v Val) bool { return true }
					}
				}
				x.entry = fmt.Sprintf("%s/%d", t.entry, t.given)
			})
		})
		for _, k := range []string{"count", "range", "reject", "shard", "all", "range", "atomic", "compute"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
