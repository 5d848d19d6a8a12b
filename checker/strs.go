package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// strMon judges xstring (C29): no instruction may panic. Of a list of strings
// one arbitrary element, at the position k, is followed; whatever is derived
// from another element alone is excused, since the analysis with k at that
// element judges it.
type strMon struct {
	NoMon
	list bool
}

func (m *strMon) Entry(c *Ctx, fn *ssa.Function) {
	s := c.s
	n := 0
	for _, p := range fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			n++
		}
	}
	m.list = n == 1
	k := s.nonneg()
	s.gv["k"] = VInt{k}
	s.gv["kv"] = c.x.freshStr(c, "list elem")
}

func (m *strMon) isK(c *Ctx, idx Lin) bool {
	return c.x.decideEq(c.s, idx.sub(c.s.gv["k"].(VInt).E))
}

// isList: a backing store of strings, or of what strings convert to.
func (m *strMon) isList(o *Obj) bool {
	if !m.list || o.kind != oArr {
		return false
	}
	if isString(o.T) {
		return true
	}
	_, ok := o.T.Underlying().(*types.Slice)
	return ok && !o.ext
}

func (m *strMon) FreshElem(c *Ctx, obj int, idx Lin) Val {
	o := c.s.heap[obj]
	if !m.isList(o) {
		return nil
	}
	if o.ext {
		if m.isK(c, idx) {
			return c.s.gv["kv"]
		}
	} else if o.gh["mixed"] != "" || m.isK(c, idx) {
		return nil
	}
	if isString(o.T) {
		v := c.x.freshStr(c, "other")
		m.other(c, v, idx)
		return v
	}
	y := c.s.newSym(o.T, "other")
	c.s.mutSym(y.id).nn = true
	v := c.x.materialize(c, y, o.T)
	if sl, ok := v.(VSlice); ok {
		c.s.mut(sl.obj).gv["at"] = VInt{idx}
	}
	return v
}

func (m *strMon) other(c *Ctx, v VSym, idx Lin) {
	c.s.mutSym(v.id).attrs["at"] = idx
}

// at: the position of the other element that v comes from.
func (m *strMon) at(s *State, v Val) (Lin, bool) {
	switch v := v.(type) {
	case VSym:
		si := s.syms[v.id]
		if si == nil {
			break
		}
		if l, ok := si.attrs["at"]; ok {
			return l, true
		}
		switch si.tag {
		case "lower", "upper", "trim", "substr", "string":
			if len(si.org) > 0 {
				return m.at(s, si.org[0])
			}
		}
	case VSlice:
		if l, ok := s.heap[v.obj].gv["at"]; ok {
			return l.(VInt).E, true
		}
	}
	return Lin{}, false
}

func (m *strMon) mine(s *State, v Val) bool {
	switch v := v.(type) {
	case VSym:
		si := s.syms[v.id]
		if si == nil {
			break
		}
		if si.tag == "list elem" {
			return true
		}
		switch si.tag {
		case "lower", "upper", "trim", "substr", "string":
			if len(si.org) > 0 {
				return m.mine(s, si.org[0])
			}
		}
	case VSlice:
		o := s.heap[v.obj]
		return o != nil && o.gh["mine"] != ""
	}
	return false
}

func (m *strMon) StrToSlice(c *Ctx, v Val, id int) {
	if l, ok := m.at(c.s, v); ok {
		c.s.mut(id).gv["at"] = VInt{l}
	} else if m.mine(c.s, v) {
		c.s.mut(id).gh["mine"] = "1"
	}
}

func (m *strMon) WriteElem(c *Ctx, obj int, idx Lin, v Val) {
	o := c.s.heap[obj]
	if !m.isList(o) {
		return
	}
	if m.isK(c, idx) {
		if m.mine(c.s, v) {
			c.s.mut(obj).gh["has"] = "1"
			return
		}
	} else if l, ok := m.at(c.s, v); ok && c.s.num.entailsEq(l.sub(idx)) {
		return
	}
	c.s.mut(obj).gh["mixed"] = "1"
}

func (m *strMon) CopyInto(c *Ctx, obj, src int, shift Lin) {
	o := c.s.heap[src]
	if !m.isList(o) {
		return
	}
	if !c.s.num.entailsEq(shift) || o.gh["mixed"] != "" {
		c.s.mut(obj).gh["mixed"] = "1"
	} else if o.gh["has"] != "" {
		c.s.mut(obj).gh["has"] = "1"
	}
}

// Excused: v depends on nothing but another element of the list.
func (m *strMon) Excused(c *Ctx, v Val) bool {
	_, ok := m.at(c.s, v)
	return ok
}

func (m *strMon) External(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	if purePkgs[pkgOf(fn)] || fn.Name() == "init" {
		return nil, false
	}
	for _, v := range args {
		if sl, ok := v.(VSlice); ok {
			n := c.s.mut(sl.obj)
			n.elems, n.zero = nil, false
		}
	}
	return c.x.results(c, fn.Signature, "ext:"+fn.String(), args...), true
}

func (m *strMon) Crash(c *Ctx, p *panicInfo) bool {
	if !strings.HasPrefix(p.why, "runtime: ") {
		c.flag("panic", "the call may panic: %s", p.why)
	}
	return true
}

// exported functions of a package, by name.
func (r *Run) exported(path string) []*ssa.Function {
	p := r.w.pkgs[path]
	var fns []*ssa.Function
	if p == nil {
		return nil
	}
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && token.IsExported(f.Name()) && f.Signature.TypeParams() == nil {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	return fns
}

// plain: an argument of this type can be any value.
func plain(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Slice:
		return plain(u.Elem())
	}
	return false
}

func init() {
	register("C29", []string{"hjoin"}, func(r *Run) {
		var fns []*ssa.Function
		for _, f := range r.exported(modPath + "/xstring") {
			ok := f.Name() != "MustReverse"
			for _, p := range f.Params {
				ok = ok && plain(p.Type())
			}
			if ok {
				fns = append(fns, f)
			}
		}
		conf := func(x *Exec) {
			x.checkRT = true
			x.trackFn = func(x *Exec, s *State, v Val) bool { return x.mon.(*strMon).mine(s, v) }
			x.maxDisj = 40
			x.ovf = true
			x.limit = 600 * time.Second
		}
		r.parallel(len(fns)+1, func(i int) {
			if i < len(fns) {
				r.exploreFn(fns[i], &strMon{}, conf)
				return
			}
			r.explore("hjoin", "Joiner", &strMon{}, conf)
		})
		r.need("function", len(fns), 40)
	})
}

// aliasMon judges conversions that do not copy (C33): the memory of a string
// is never written, and nobody else can get at it.
type aliasMon struct {
	NoMon
	exported map[*ssa.Function]bool
}

func shared(o *Obj) bool { return o != nil && (o.gh["ofstr"] != "" || o.gh["instr"] != "") }

// exposed visits the stores that v gives write access to.
func exposed(s *State, v Val, f func(id int)) {
	seen := map[int]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		obj := -1
		switch v := v.(type) {
		case VSlice:
			obj = v.obj
		case VAddr:
			obj = v.obj
		case VRef:
			obj = v.obj
		case VIface:
			visit(v.v)
		case VStruct:
			for _, w := range v.f {
				visit(w)
			}
		case VTuple:
			for _, w := range v.f {
				visit(w)
			}
		case VFunc:
			for _, w := range v.b {
				visit(w)
			}
		case VSym: // a pointer into the memory of a string
			if si := s.syms[v.id]; si != nil && si.tag == "data" {
				visit(si.org[0])
			}
		}
		o := s.heap[obj]
		if obj < 0 || o == nil || seen[obj] {
			return
		}
		seen[obj] = true
		f(obj)
		if o.gh["ofstr"] == "" {
			visit(o.v)
		}
		for _, e := range o.elems {
			visit(e.key)
			visit(e.v)
		}
		for _, k := range sortedKeys(o.gv) {
			visit(o.gv[k])
		}
	}
	visit(v)
}

func (m *aliasMon) Shared(c *Ctx, obj int, fromString bool) {
	c.ok("conversion")
	if fromString {
		return
	}
	o := c.s.heap[obj]
	if o.ext { // fine as long as only this library looks at the string
		c.s.mut(obj).gh["lent"] = "1"
		return
	}
	if o.gh["freed"] != "" {
		c.flag("alias", "a string is made, without copying, from a buffer that was given back")
	}
	for _, id := range sortedInts(c.s.heap) {
		p := c.s.heap[id]
		if p.ext || strings.HasPrefix(p.site, "global") {
			hit := false
			exposed(c.s, p.v, func(i int) { hit = hit || i == obj })
			if hit {
				c.flag("alias", "a string is made, without copying, from bytes that are kept elsewhere")
			}
		}
	}
	c.s.mut(obj).gh["instr"] = "1"
}

func sortedInts(m map[int]*Obj) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func (m *aliasMon) write(c *Ctx, obj int, how string) {
	if shared(c.s.heap[obj]) {
		c.flag("alias", "the memory of a string is %s", how)
	}
}

func (m *aliasMon) gives(c *Ctx, v Val, how string) {
	exposed(c.s, v, func(id int) {
		if shared(c.s.heap[id]) {
			c.flag("alias", "bytes that are the memory of a string are %s", how)
		}
	})
	m.lent(c, v, how)
}

// lent: v holds a string in memory that others can write.
func (m *aliasMon) lent(c *Ctx, v Val, how string) {
	switch v := v.(type) {
	case VIface:
		m.lent(c, v.v, how)
	case VStruct:
		for _, w := range v.f {
			m.lent(c, w, how)
		}
	case VTuple:
		for _, w := range v.f {
			m.lent(c, w, how)
		}
	case VFunc:
		for _, w := range v.b {
			m.lent(c, w, how)
		}
	case VSlice:
		for _, e := range c.s.heap[v.obj].elems {
			m.lent(c, e.v, how)
		}
	case VSym:
		si := c.s.syms[v.id]
		if si == nil || len(si.org) == 0 {
			return
		}
		switch si.tag {
		case "alias":
			if sl, ok := si.org[0].(VSlice); ok {
				if o := c.s.heap[sl.obj]; o != nil && o.gh["lent"] != "" {
					c.flag("alias", "a string made, without copying, from bytes that others hold is %s", how)
				}
			}
		case "substr", "trim":
			m.lent(c, si.org[0], how)
		}
	}
}

func (m *aliasMon) Store(c *Ctx, a VAddr, v Val) {
	o := c.s.heap[a.obj]
	if o.kind == oArr {
		m.write(c, a.obj, "written")
	}
	if o.ext || strings.HasPrefix(o.site, "global") {
		m.gives(c, v, "kept")
	}
}

func (m *aliasMon) WriteElem(c *Ctx, obj int, idx Lin, v Val) { m.write(c, obj, "written") }
func (m *aliasMon) WriteRange(c *Ctx, obj int, at, n Lin)     { m.write(c, obj, "written") }
func (m *aliasMon) CopyInto(c *Ctx, obj, src int, shift Lin)  { m.write(c, obj, "copied into") }

func (m *aliasMon) Return(c *Ctx, f *Frame, res []Val, p *panicInfo) {
	t := c.s.cur()
	if len(t.frames) == 0 || t.frames[0].fn != f.fn || len(t.frames) > 1 || !m.exported[f.fn] {
		return
	}
	for _, v := range res {
		m.gives(c, v, "handed out")
	}
}

// reads: methods that by contract only read their argument.
var reads = map[string]bool{"Write": true, "WriteString": true, "Sum": true, "Equal": true, "Match": true}

func (m *aliasMon) Invoke(c *Ctx, me VMeth, args []Val) (Val, bool) {
	if !reads[me.m.Name()] {
		for _, v := range args {
			m.gives(c, v, "handed to "+me.m.Name())
		}
	}
	return nil, false
}

func (m *aliasMon) Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	for _, v := range args {
		m.gives(c, v, "handed to a function of the caller")
	}
	return nil
}

func (m *aliasMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	switch fn.String() {
	case modPath + "/xbytes.Malloc", modPath + "/xbytes.MallocSize":
		return vShim{"bytes " + fn.Name()}, true
	case modPath + "/xbytes.Free", "(*sync.Pool).Put":
		exposed(c.s, args[len(args)-1], func(id int) {
			if shared(c.s.heap[id]) {
				c.flag("alias", "bytes that are the memory of a string are given back to a pool")
			}
			c.s.mut(id).gh["freed"] = "1"
		})
		return unit(), true
	case "(*bytes.Buffer).Bytes":
		obj, k := c.place(args[0])
		n := c.bldLen(args[0])
		id := c.s.newObj(&Obj{kind: oArr, T: types.Typ[types.Uint8], site: "bytes of a buffer", n: n, hasN: true, ext: c.s.heap[obj].ext || strings.HasPrefix(c.s.heap[obj].site, "global"), gh: map[string]string{}, gv: map[string]Val{}})
		v := VSlice{id, lc(0), n, n}
		c.s.mut(obj).gv["mem"+k] = v
		return v, true
	}
	return nil, false
}

func (m *aliasMon) Ext(c *Ctx, what string, args ...Val) {
	if strings.HasPrefix(what, "builder.") {
		obj, k := c.place(args[0])
		if v, ok := c.s.heap[obj].gv["mem"+k].(VSlice); ok {
			m.write(c, v.obj, "reused by its buffer")
		}
	}
}

func (m *aliasMon) External(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	switch p := pkgOf(fn); {
	case p == "bytes", p == "strings", p == "strconv", p == "unicode/utf8", p == "regexp", p == "fmt", strings.HasPrefix(p, "hash"), strings.HasPrefix(p, "crypto"):
	default:
		for _, v := range args {
			m.gives(c, v, "handed to "+fn.String())
		}
	}
	return c.x.results(c, fn.Signature, "ext:"+fn.String(), args...), true
}

// puns: the function converts between strings, byte slices and their headers
// without copying.
func puns(fn *ssa.Function) bool {
	view := func(T types.Type) bool {
		p, ok := T.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		switch e := p.Elem().Underlying().(type) {
		case *types.Basic:
			return e.Info()&types.IsString != 0 || e.Kind() == types.Uint8
		case *types.Slice:
			return true
		case *types.Array:
			b, ok := e.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		case *types.Struct:
			return strings.HasPrefix(p.Elem().String(), "reflect.S")
		}
		return false
	}
	isUnsafe := func(T types.Type) bool {
		b, ok := T.Underlying().(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cv, ok := in.(*ssa.Convert); ok && (isUnsafe(cv.X.Type()) && view(cv.Type()) || isUnsafe(cv.Type()) && view(cv.X.Type())) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C33", []string{"hjoin"}, func(r *Run) {
		// the functions from which a conversion can be reached
		reach := map[*ssa.Function]bool{}
		sites := map[*ssa.Function]bool{}
		callers := map[*ssa.Function][]*ssa.Function{}
		for fn := range r.w.allFns() {
			if !r.w.isLib(fn) {
				continue
			}
			if puns(fn) {
				sites[fn] = true
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							callers[g] = append(callers[g], fn)
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok {
							g := mc.Fn.(*ssa.Function)
							callers[g] = append(callers[g], fn)
						}
					}
				}
			}
		}
		var mark func(fn *ssa.Function)
		mark = func(fn *ssa.Function) {
			if reach[fn] {
				return
			}
			reach[fn] = true
			for _, g := range callers[fn] {
				mark(g)
			}
			if fn.Parent() != nil {
				mark(fn.Parent())
			}
		}
		for fn := range sites {
			mark(fn)
		}
		m := &aliasMon{exported: map[*ssa.Function]bool{}}
		var entries []*ssa.Function
		for fn := range reach {
			p := pkgOf(fn)
			if fn.Object() == nil || !fn.Object().Exported() || strings.Contains(p, "/internal/") {
				continue
			}
			m.exported[fn] = true
			entries = append(entries, fn)
		}
		sort.Slice(entries, func(i, j int) bool { return entries[i].String() < entries[j].String() })
		conf := func(x *Exec) {
			x.maxDisj = 40
			x.limit = 600 * time.Second
			x.trackFn = func(x *Exec, s *State, v Val) bool {
				hit := false
				exposed(s, v, func(int) { hit = true })
				return hit
			}
		}
		r.parallel(len(entries)+1, func(i int) {
			if i < len(entries) {
				r.exploreFn(entries[i], m, conf)
				return
			}
			r.explore("hjoin", "Joiner", m, conf)
		})
		var ss []string
		for fn := range sites {
			ss = append(ss, shortFn(fn))
		}
		for fn := range reach {
			if !sites[fn] {
				ss = append(ss, "via "+shortFn(fn))
			}
		}
		sort.Strings(ss)
		for _, f := range ss {
			r.samples = append(r.samples, f)
		}
		r.count = map[string]int{"conversions without copying": len(sites), "functions that reach one": len(reach), "exported functions explored": len(entries)}
	})
}
