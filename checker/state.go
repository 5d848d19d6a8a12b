package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Val // function value, or nil when invoke is set
	call *ssa.CallCommon
	args []Val
	pos  token.Pos
}

type panicInfo struct {
	val  Val
	why  string
	user bool // raised by a user callback
}

// Frame is one activation.
type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	block   int
	prev    int
	pc      int
	regs    []Val
	defers  []deferred
	panic   *panicInfo
	recov   bool // recovered, running remaining defers
	isDefer bool // called by the caller's defer processing
	discard bool // result is dropped, caller's pc already set
	onRet   string
	site    ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Val(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

// Thread is a (sequentialised) goroutine.
type Thread struct {
	frames []*Frame
	kind   string // main, go, pool
	gh     map[string]string
	gv     map[string]Val
	block  string // non-empty: blocked for this reason
	site   string
}

func (t *Thread) clone() *Thread {
	n := &Thread{kind: t.kind, block: t.block, site: t.site}
	n.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		n.frames[i] = f.clone()
	}
	n.gh = make(map[string]string, len(t.gh))
	for k, v := range t.gh {
		n.gh[k] = v
	}
	n.gv = make(map[string]Val, len(t.gv))
	for k, v := range t.gv {
		n.gv[k] = v
	}
	return n
}

// State is one abstract configuration.
type State struct {
	threads []*Thread
	heap    map[int]*Obj
	syms    map[int]*SymInfo
	neq     map[[2]string]neqFact
	num     *Poly
	numOwn  bool
	gh      map[string]string
	gv      map[string]Val
	nextID  int
	nextDim Dim

	choices []int // recorded choices for the instruction being executed
	node    *Node // last memoised configuration
}

type neqFact struct{ a, b Val }

func newState() *State {
	s := &State{heap: map[int]*Obj{}, syms: map[int]*SymInfo{}, neq: map[[2]string]neqFact{}, num: newPoly(), numOwn: true,
		gh: map[string]string{}, gv: map[string]Val{}, nextID: 1, nextDim: 1}
	s.num.assume(ld(dimMax).addc(-(1<<31 - 1)))
	return s
}

func (s *State) clone() *State {
	n := &State{nextID: s.nextID, nextDim: s.nextDim, node: s.node, num: s.num}
	s.numOwn = false
	n.threads = make([]*Thread, len(s.threads))
	for i, t := range s.threads {
		n.threads[i] = t.clone()
	}
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.syms = make(map[int]*SymInfo, len(s.syms))
	for k, v := range s.syms {
		n.syms[k] = v
	}
	n.neq = make(map[[2]string]neqFact, len(s.neq))
	for k, v := range s.neq {
		n.neq[k] = v
	}
	n.gh = make(map[string]string, len(s.gh))
	for k, v := range s.gh {
		n.gh[k] = v
	}
	n.gv = make(map[string]Val, len(s.gv))
	for k, v := range s.gv {
		n.gv[k] = v
	}
	n.choices = append([]int(nil), s.choices...)
	return n
}

func (s *State) cur() *Thread { return s.threads[len(s.threads)-1] }
func (s *State) top() *Frame {
	t := s.cur()
	return t.frames[len(t.frames)-1]
}

func (s *State) assume(e Lin) bool {
	if !s.numOwn {
		s.num = s.num.clone()
		s.numOwn = true
	}
	return s.num.assume(e)
}

func (s *State) assumeEq(e Lin) bool {
	if !s.numOwn {
		s.num = s.num.clone()
		s.numOwn = true
	}
	return s.num.assumeEq(e)
}

func (s *State) newDim() Lin {
	d := s.nextDim
	s.nextDim++
	return ld(d)
}

// nonneg returns a fresh dimension >= 0.
func (s *State) nonneg() Lin {
	d := s.newDim()
	s.assume(d)
	return d
}

func (s *State) newObj(o *Obj) int {
	id := s.nextID
	s.nextID++
	s.heap[id] = o
	return id
}

// mut returns a private copy of an object.
func (s *State) mut(id int) *Obj {
	o := s.heap[id].copy()
	s.heap[id] = o
	return o
}

func (s *State) newSym(T types.Type, tag string, org ...Val) VSym {
	id := s.nextID
	s.nextID++
	s.syms[id] = &SymInfo{T: T, tag: tag, org: org}
	return VSym{id}
}

func (s *State) mutSym(id int) *SymInfo {
	si := s.syms[id].copy()
	s.syms[id] = si
	return si
}

// attr returns the numeric attribute of a symbol, creating it non-negative.
func (s *State) attr(v VSym, name string) Lin {
	si := s.syms[v.id]
	if e, ok := si.attrs[name]; ok {
		return e
	}
	e := s.nonneg()
	s.mutSym(v.id).attrs[name] = e
	return e
}

func (s *State) mapAll(f func(Val) Val, g func(Lin) Lin) {
	for _, t := range s.threads {
		for _, fr := range t.frames {
			for i, v := range fr.regs {
				if v != nil {
					fr.regs[i] = mapVal(v, f, g)
				}
			}
			for i := range fr.defers {
				d := &fr.defers[i]
				d.fn = mapVal(d.fn, f, g)
				d.args = mapVals(d.args, f, g)
			}
			if fr.panic != nil {
				p := *fr.panic
				p.val = mapVal(p.val, f, g)
				fr.panic = &p
			}
		}
		for k, v := range t.gv {
			t.gv[k] = mapVal(v, f, g)
		}
	}
	for id, o := range s.heap {
		n := o.copy()
		n.v = mapVal(n.v, f, g)
		for i := range n.elems {
			n.elems[i] = Elem{g(n.elems[i].idx), mapVal(n.elems[i].key, f, g), mapVal(n.elems[i].v, f, g)}
		}
		n.n, n.occ = g(n.n), g(n.occ)
		for k, v := range n.gv {
			n.gv[k] = mapVal(v, f, g)
		}
		s.heap[id] = n
	}
	for id, si := range s.syms {
		if len(si.org) == 0 && len(si.attrs) == 0 {
			continue
		}
		n := si.copy()
		n.org = mapVals(n.org, f, g)
		for k, v := range n.attrs {
			n.attrs[k] = g(v)
		}
		s.syms[id] = n
	}
	nn := make(map[[2]string]neqFact, len(s.neq))
	for _, x := range s.neq {
		a, b := mapVal(x.a, f, g), mapVal(x.b, f, g)
		nn[neqKey(a, b)] = neqFact{a, b}
	}
	s.neq = nn
	for k, v := range s.gv {
		s.gv[k] = mapVal(v, f, g)
	}
}

func idLin(e Lin) Lin { return e }

// substSym replaces a symbol everywhere.
func (s *State) substSym(id int, by Val) {
	// transfer numeric attributes
	if si := s.syms[id]; si != nil {
		if o, ok := by.(VSym); ok {
			for k, v := range si.attrs {
				if strings.HasPrefix(k, "~") { // true of the value, but not a function of it
					if _, has := s.syms[o.id].attrs[k]; !has {
						s.assumeEq(v.sub(s.attr(o, k)))
					}
					continue
				}
				s.assumeEq(v.sub(s.attr(o, k)))
			}
			if len(si.facts) > 0 || si.nn || si.dyn != nil {
				n := s.mutSym(o.id)
				for k, v := range si.facts {
					n.facts[k] = v
				}
				n.nn = n.nn || si.nn
				if n.dyn == nil {
					n.dyn = si.dyn
				}
			}
		}
		if c, ok := asStr(by); ok {
			for k, v := range si.attrs {
				switch k {
				case "len":
					s.assumeEq(v.addc(-int64(len(c))))
				case "runes":
					s.assumeEq(v.addc(-int64(len([]rune(c)))))
				}
			}
		}
		if _, ok := by.(VNil); ok {
			for k, v := range si.attrs {
				if k == "len" || k == "cap" {
					s.assumeEq(v)
				}
			}
		}
	}
	s.mapAll(func(v Val) Val {
		if y, ok := v.(VSym); ok && y.id == id {
			return by
		}
		return v
	}, idLin)
	if o, ok := by.(VSym); !ok || o.id != id {
		delete(s.syms, id)
	}
}

func valKey(v Val) string {
	switch v := v.(type) {
	case VSym:
		return fmt.Sprintf("s%d", v.id)
	case VRef:
		return fmt.Sprintf("r%d", v.obj)
	case VAddr:
		k := fmt.Sprintf("a%d%v", v.obj, v.path)
		if v.idx != nil {
			k += v.idx.String()
		}
		return k
	case VConst:
		return "c" + v.V.ExactString()
	case VNil:
		return "nil"
	case VInt:
		return "i" + v.E.String()
	case VSlice:
		return fmt.Sprintf("l%d,%s,%s", v.obj, v.off, v.len)
	case VIface:
		return "I" + typeStr(v.T) + valKey(v.v)
	case VStruct:
		k := "{"
		for _, f := range v.f {
			k += valKey(f) + ","
		}
		return k + "}"
	case VFunc:
		k := "f" + v.fn.String()
		for _, f := range v.b {
			k += valKey(f) + ","
		}
		return k
	}
	return fmt.Sprintf("%T", v)
}

func neqKey(a, b Val) [2]string {
	x, y := valKey(a), valKey(b)
	if x > y {
		x, y = y, x
	}
	return [2]string{x, y}
}

var typeNames = map[types.Type]string{}

func typeStr(T types.Type) string {
	if T == nil {
		return "-"
	}
	if s, ok := typeNames[T]; ok {
		return s
	}
	s := types.TypeString(T, nil)
	typeNames[T] = s
	return s
}

// --- canonicalisation ---

type canon struct {
	elemIdx []int // which of exps are element indexes
	inObj   bool  // constants in memory are part of the key
	s       *State
	sb      strings.Builder
	objs    map[int]int
	syms    map[int]int
	ordO    []int
	ordS    []int
	exps    []Lin // canonical dimension i+1 = exps[i]
}

func (c *canon) lin(e Lin) Lin {
	c.exps = append(c.exps, e)
	c.sb.WriteString("#")
	if c.inObj {
		if n := c.s.num.norm(e); n.isConst() && n.c >= -16 && n.c <= 16 {
			c.sb.WriteString(fmt.Sprint(n.c))
		}
	}
	return ld(Dim(len(c.exps)))
}

func (c *canon) obj(id int) int {
	n, ok := c.objs[id]
	if !ok {
		n = len(c.ordO) + 1
		c.objs[id] = n
		c.ordO = append(c.ordO, id)
	}
	fmt.Fprintf(&c.sb, "o%d", n)
	return n
}

// sym writes a reference; symbols are described at first discovery.
func (c *canon) sym(id int) int {
	n, ok := c.syms[id]
	if !ok {
		n = len(c.ordS) + 1
		c.syms[id] = n
		c.ordS = append(c.ordS, id)
	}
	fmt.Fprintf(&c.sb, "s%d", n)
	return n
}

func (c *canon) val(v Val) Val {
	w := func(s string) { c.sb.WriteString(s) }
	switch v := v.(type) {
	case nil:
		w("_")
		return nil
	case VConst:
		w("c" + v.V.ExactString())
		return v
	case VInt:
		return VInt{c.lin(v.E)}
	case VNil:
		w("N")
		return v
	case VSym:
		return VSym{c.sym(v.id)}
	case VAddr:
		w("&")
		n := VAddr{obj: c.obj(v.obj), path: v.path}
		if v.idx != nil {
			w("[")
			e := c.lin(*v.idx)
			n.idx = &e
		}
		for _, p := range v.path {
			fmt.Fprintf(&c.sb, ".%d", p)
		}
		return n
	case VSlice:
		w("S")
		return VSlice{c.obj(v.obj), c.lin(v.off), c.lin(v.len), c.lin(v.cap)}
	case VStruct:
		w("{")
		n := VStruct{c.vals(v.f)}
		w("}")
		return n
	case VTuple:
		w("(")
		n := VTuple{c.vals(v.f)}
		w(")")
		return n
	case VIface:
		w("I" + typeStr(v.T) + ":")
		return VIface{v.T, c.val(v.v)}
	case VFunc:
		w("F" + v.fn.String() + "<")
		n := VFunc{v.fn, c.vals(v.b)}
		w(">")
		return n
	case VMeth:
		w("M" + v.m.Name())
		return VMeth{c.val(v.recv), v.m}
	case VBuiltin:
		w("B" + v.name)
		return v
	case VRef:
		w("R")
		return VRef{c.obj(v.obj)}
	case VIter:
		w("T")
		return VIter{c.obj(v.obj)}
	}
	panic(fmt.Sprintf("canon: %T", v))
}

func (c *canon) vals(vs []Val) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = c.val(v)
		c.sb.WriteString(",")
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *canon) ghosts(gh map[string]string, gv map[string]Val) map[string]Val {
	for _, k := range sortedKeys(gh) {
		if gh[k] != "" {
			c.sb.WriteString("|" + k + "=" + gh[k])
		}
	}
	n := make(map[string]Val, len(gv))
	for _, k := range sortedKeys(gv) {
		if _, ok := gv[k].(VRef); ok && strings.HasPrefix(k, "sent") {
			continue // weak: see canonical
		}
		if strings.HasPrefix(k, "mod#") {
			continue // weak: see canonMods
		}
		c.sb.WriteString("|" + k + ":")
		n[k] = c.val(gv[k])
	}
	return n
}

// canonical garbage-collects s, renames everything in discovery order and
// returns the new state with its discrete key. onLost is called for every
// object that became unreachable.
func (s *State) canonical(exact bool, onLost func(s *State, id int)) (*State, string) {
	c := &canon{s: s, objs: map[int]int{}, syms: map[int]int{}}
	n := &State{heap: map[int]*Obj{}, syms: map[int]*SymInfo{}, neq: map[[2]string]neqFact{}, gh: s.gh, node: s.node}
	n.gv = c.ghosts(s.gh, s.gv)
	for _, t := range s.threads {
		c.sb.WriteString("\nT" + t.kind + t.block + t.site)
		nt := &Thread{kind: t.kind, gh: t.gh, block: t.block, site: t.site}
		nt.gv = c.ghosts(t.gh, t.gv)
		for i, f := range t.frames {
			topmost := i == len(t.frames)-1
			fmt.Fprintf(&c.sb, "\n F%s@%d/%d:%d", f.fn.String(), f.block, f.pc, f.prev)
			nf := &Frame{fn: f.fn, info: f.info, block: f.block, pc: f.pc, prev: f.prev, recov: f.recov, isDefer: f.isDefer, discard: f.discard, onRet: f.onRet, site: f.site}
			nf.regs = make([]Val, len(f.regs))
			if f.panic != nil {
				c.sb.WriteString("!P" + f.panic.why)
				p := *f.panic
				p.val = c.val(p.val)
				nf.panic = &p
			}
			if f.recov {
				c.sb.WriteString("!R")
			}
			if f.isDefer {
				c.sb.WriteString("!D")
			}
			if f.discard {
				c.sb.WriteString("!d")
			}
			if f.onRet != "" {
				c.sb.WriteString("!" + f.onRet)
			}
			live := f.info.liveAt(f, topmost)
			for r, v := range f.regs {
				if v == nil || !live[r] {
					continue
				}
				fmt.Fprintf(&c.sb, ";%d=", r)
				nf.regs[r] = c.val(v)
			}
			for _, d := range f.defers {
				c.sb.WriteString(";D")
				nd := deferred{call: d.call, pos: d.pos}
				if d.fn != nil {
					nd.fn = c.val(d.fn)
				}
				fmt.Fprintf(&c.sb, "@%d", d.pos)
				nd.args = c.vals(d.args)
				nf.defers = append(nf.defers, nd)
			}
			nt.frames = append(nt.frames, nf)
		}
		n.threads = append(n.threads, nt)
	}
	oi, si := 0, 0
	for oi < len(c.ordO) || si < len(c.ordS) {
		if oi < len(c.ordO) {
			id := c.ordO[oi]
			oi++
			o := s.heap[id]
			fmt.Fprintf(&c.sb, "\nO%d k%d %s@%s ext%v z%v %s", oi, o.kind, typeStr(o.T), o.site, o.ext, o.zero, o.elemT)
			m := &Obj{kind: o.kind, T: o.T, site: o.site, ext: o.ext, zero: o.zero, elemT: o.elemT, hasN: o.hasN, gh: o.gh}
			c.sb.WriteString(" v=")
			c.inObj = exact
			m.v = c.val(o.v)
			c.inObj = false
			for _, e := range o.elems {
				c.sb.WriteString(" e")
				ne := Elem{}
				if o.kind == oArr {
					ne.idx = c.lin(e.idx)
					c.elemIdx = append(c.elemIdx, len(c.exps)-1)
				}
				ne.key = c.val(e.key)
				c.sb.WriteString("->")
				ne.v = c.val(e.v)
				m.elems = append(m.elems, ne)
			}
			if o.hasN {
				m.n = c.lin(o.n)
			}
			if o.kind == oChan {
				m.occ = c.lin(o.occ)
			}
			c.inObj = exact
			m.gv = c.ghosts(o.gh, o.gv)
			c.inObj = false
			n.heap[oi] = m
			continue
		}
		id := c.ordS[si]
		si++
		y := s.syms[id]
		if y == nil {
			panic(fmt.Sprintf("canon: dangling symbol %d", id))
		}
		fmt.Fprintf(&c.sb, "\nS%d %s %s nn%v %s", si, typeStr(y.T), y.tag, y.nn, typeStr(y.dyn))
		m := &SymInfo{T: y.T, tag: y.tag, nn: y.nn, dyn: y.dyn, facts: y.facts}
		for _, k := range sortedKeys(y.facts) {
			fmt.Fprintf(&c.sb, " %s=%v", k, y.facts[k])
		}
		c.sb.WriteString(" <")
		m.org = c.vals(y.org)
		if len(y.attrs) > 0 {
			m.attrs = map[string]Lin{}
			for _, k := range sortedKeys(y.attrs) {
				c.sb.WriteString(" " + k)
				m.attrs[k] = c.lin(y.attrs[k])
			}
		}
		n.syms[si] = m
	}
	// weak references: the channels a thread sent on
	for i, t := range s.threads {
		var ids []int
		for k, v := range t.gv {
			if r, ok := v.(VRef); ok && strings.HasPrefix(k, "sent") {
				if id, ok := c.objs[r.obj]; ok {
					ids = append(ids, id)
				}
			}
		}
		sort.Ints(ids)
		for j, id := range ids {
			n.threads[i].gv[fmt.Sprintf("sent%d", j)] = VRef{id}
		}
		fmt.Fprintf(&c.sb, "\nsent%v", ids)
	}
	// disequalities between reached values
	var ns []string
	for _, x := range s.neq {
		if !c.reached(x.a) || !c.reached(x.b) {
			continue
		}
		a, b := c.mapReached(x.a), c.mapReached(x.b)
		k := neqKey(a, b)
		n.neq[k] = neqFact{a, b}
		ns = append(ns, k[0]+"!="+k[1])
	}
	sort.Strings(ns)
	c.sb.WriteString("\n" + strings.Join(ns, " "))
	c.canonMods(n)
	if onLost != nil {
		var lost []int
		for id := range s.heap {
			if _, ok := c.objs[id]; !ok {
				lost = append(lost, id)
			}
		}
		sort.Ints(lost)
		for _, id := range lost {
			onLost(s, id)
		}
	}
	// numeric part
	const off = 1 << 20
	p := s.num.rename(func(d Dim) Dim {
		if d == dimMax {
			return d
		}
		return d + off
	})
	ren := func(d Dim) Dim {
		if d == dimMax {
			return d
		}
		return d + off
	}
	for i, e := range c.exps {
		p.assumeEq(ld(Dim(i + 1)).sub(e.rename(ren)))
	}
	p.keep(func(d Dim) bool { return d < off })
	n.num, n.numOwn = p, true
	n.nextID = len(c.ordO) + len(c.ordS) + 2
	if m := len(c.ordO); m >= n.nextID {
		n.nextID = m + 1
	}
	n.nextDim = Dim(len(c.exps) + 1)
	return n, c.sb.String()
}

func (c *canon) reached(v Val) bool {
	ok := true
	mapVal(v, func(v Val) Val {
		switch v := v.(type) {
		case VSym:
			if _, r := c.syms[v.id]; !r {
				ok = false
			}
		case VRef:
			if _, r := c.objs[v.obj]; !r {
				ok = false
			}
		case VAddr:
			if _, r := c.objs[v.obj]; !r || v.idx != nil {
				ok = false
			}
		case VSlice, VIter:
			ok = false
		}
		return v
	}, func(e Lin) Lin { ok = false; return e })
	return ok
}

func (c *canon) mapReached(v Val) Val {
	return mapVal(v, func(v Val) Val {
		switch v := v.(type) {
		case VSym:
			return VSym{c.syms[v.id]}
		case VRef:
			return VRef{c.objs[v.obj]}
		case VAddr:
			return VAddr{obj: c.objs[v.obj], path: v.path}
		}
		return v
	}, idLin)
}
