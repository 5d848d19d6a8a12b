package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// In interleaving mode every order of the visible steps of the goroutines is
// explored. A step is visible when it can affect, or depends on, what another
// goroutine does: synchronisation, atomic and channel operations, marks of
// the harness, and accesses to memory another goroutine can reach unless the
// accessing goroutine holds a lock (that such accesses are guarded is what
// the lock discipline checks decide).

// interleaveStep decides who runs next; done reports that it did.
func (x *Exec) interleaveStep(s *State) (out []*State, done bool) {
	if len(s.threads) < 2 {
		return nil, false
	}
	for _, t := range s.threads {
		if t.kind == "init" {
			return nil, false // the packages are initialised first
		}
	}
	t := s.cur()
	if s.gh["grant"] == "1" && t.block == "" {
		return nil, false // runs its visible step; cleared there
	}
	if t.block == "" && !x.visible(s, t) {
		return nil, false
	}
	ready := 0
	for i := len(s.threads) - 1; i >= 0; i-- {
		o := s.threads[i]
		if o.block != "" {
			continue
		}
		if !x.visible(s, o) {
			n := s.clone()
			n.toTop(i)
			n.gh["grant"] = ""
			return []*State{n}, true
		}
		ready++
	}
	if ready == 0 {
		return nil, false // the scheduler reports the deadlock
	}
	n := s.clone()
	n.gh["grant"] = ""
	sort.SliceStable(n.threads, func(i, j int) bool { return atoi(n.threads[i].gh["id"]) < atoi(n.threads[j].gh["id"]) })
	n.gh["pick"] = "1" // these nodes are not those of the join points
	if n = x.memo(n); n == nil {
		return nil, true
	}
	for i := range n.threads {
		if n.threads[i].block != "" {
			continue
		}
		m := n.clone()
		m.toTop(i)
		m.gh["pick"], m.gh["grant"] = "", "1"
		out = append(out, m)
	}
	return out, true
}

func (s *State) toTop(i int) {
	t := s.threads[i]
	s.threads = append(append(append([]*Thread(nil), s.threads[:i]...), s.threads[i+1:]...), t)
}

// visible reports whether the next step of t is visible.
func (x *Exec) visible(s *State, t *Thread) bool {
	f := t.frames[len(t.frames)-1]
	if f.panic != nil || f.recov {
		return len(f.defers) > 0 && x.visibleDefer(s, f.defers[len(f.defers)-1])
	}
	switch in := f.fn.Blocks[f.block].Instrs[f.pc].(type) {
	case *ssa.RunDefers:
		return len(f.defers) > 0 && x.visibleDefer(s, f.defers[len(f.defers)-1])
	case *ssa.Send, *ssa.Select:
		return true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "delete") {
			if _, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
				return x.visibleMem(s, t, f, in.Call.Args[0])
			}
		}
		return x.visibleCall(&in.Call)
	case *ssa.Next:
		return !in.IsString && x.visibleMem(s, t, f, in.Iter)
	case *ssa.UnOp:
		switch in.Op.String() {
		case "<-":
			return true
		case "*":
			return x.visibleMem(s, t, f, in.X)
		}
	case *ssa.Store:
		return x.visibleMem(s, t, f, in.Addr)
	case *ssa.MapUpdate:
		return x.visibleMem(s, t, f, in.Map)
	case *ssa.Lookup:
		return x.visibleMem(s, t, f, in.X)
	case *ssa.Range:
		return x.visibleMem(s, t, f, in.X)
	}
	return false
}

func (x *Exec) visibleDefer(s *State, d deferred) bool {
	if d.call != nil {
		return x.visibleCall(d.call)
	}
	return false
}

func (x *Exec) visibleCall(call *ssa.CallCommon) bool {
	switch fn := call.Value.(type) {
	case *ssa.Builtin:
		return fn.Name() == "close"
	case *ssa.Function:
		switch pkgOf(fn) {
		case "sync":
			// counting down commutes with everything but the wait it may enable
			return fn.String() != "(*sync.WaitGroup).Done" && fn.String() != "(*sync.WaitGroup).Add"
		case "sync/atomic", "context":
			return true
		}
		if !strings.HasSuffix(pkgOf(fn), "zzverif/vf") {
			return false
		}
		switch fn.Name() {
		case "sfEnter", "sfLeave":
			return true
		}
		return fn.Name() == "Mark" && !x.quiet[markName(call)]
	}
	return false
}

func markName(call *ssa.CallCommon) string {
	if k, ok := call.Args[0].(*ssa.Const); ok {
		s, _ := asStr(constVal(k))
		return s
	}
	return ""
}

func (x *Exec) visibleMem(s *State, t *Thread, f *Frame, p ssa.Value) bool {
	if t.gh["held"] != "" {
		return false
	}
	var v Val
	switch p := p.(type) {
	case *ssa.Global:
		return true
	case *ssa.Alloc:
		if !p.Heap {
			return false
		}
	}
	if r, ok := f.info.num[p]; ok {
		v = f.regs[r]
	}
	obj := -1
	switch v := v.(type) {
	case VAddr:
		obj = v.obj
	case VRef:
		obj = v.obj
	case VSlice:
		obj = v.obj
	case VIter:
		m, ok := s.heap[v.obj].v.(VRef)
		if !ok {
			return false
		}
		obj = m.obj
	default:
		return false
	}
	for _, o := range s.threads {
		if o == t {
			continue
		}
		for _, fr := range o.frames {
			for i, l := range fr.info.liveAt(fr, fr == o.frames[len(o.frames)-1]) {
				if l && fr.regs[i] != nil && s.reach(fr.regs[i])[obj] {
					return true
				}
			}
			for _, d := range fr.defers {
				if d.fn != nil && s.reach(append([]Val{d.fn}, d.args...)...)[obj] {
					return true
				}
			}
		}
	}
	for k, g := range s.gv {
		if strings.HasPrefix(k, "g:") && s.reach(g)[obj] {
			return true
		}
	}
	return false
}

// access is a plain or atomic memory access a goroutine is about to make.
type access struct {
	obj    int
	path   []int
	idx    *Lin
	write  bool
	atomic bool
}

// nextAccess is the memory access of the next step of t, if it is one.
func (x *Exec) nextAccess(s *State, t *Thread) (a access, ok bool) {
	if len(t.frames) == 0 {
		return
	}
	f := t.frames[len(t.frames)-1]
	if f.panic != nil || f.recov || f.pc >= len(f.fn.Blocks[f.block].Instrs) {
		return
	}
	at := func(p ssa.Value) bool {
		var v Val
		switch p := p.(type) {
		case *ssa.Global:
			v = x.val(s, p)
		case *ssa.Const:
			return false
		default:
			r, ok := f.info.num[p]
			if !ok {
				return false
			}
			v = f.regs[r]
		}
		switch v := v.(type) {
		case VAddr:
			a.obj, a.path, a.idx = v.obj, v.path, v.idx
		case VRef:
			a.obj = v.obj
		case VIter:
			m, ok := s.heap[v.obj].v.(VRef)
			if !ok {
				return false
			}
			a.obj = m.obj
		default:
			return false
		}
		return true
	}
	switch in := f.fn.Blocks[f.block].Instrs[f.pc].(type) {
	case *ssa.UnOp:
		return a, in.Op == token.MUL && at(in.X)
	case *ssa.Store:
		a.write = true
		return a, at(in.Addr)
	case *ssa.MapUpdate:
		a.write = true
		return a, at(in.Map)
	case *ssa.Lookup:
		_, isMap := in.X.Type().Underlying().(*types.Map)
		return a, isMap && at(in.X)
	case *ssa.Next:
		return a, !in.IsString && at(in.Iter)
	case *ssa.Call:
		switch fn := in.Call.Value.(type) {
		case *ssa.Builtin:
			if fn.Name() != "len" && fn.Name() != "delete" {
				return
			}
			a.write = fn.Name() == "delete"
			_, isMap := in.Call.Args[0].Type().Underlying().(*types.Map)
			return a, isMap && at(in.Call.Args[0])
		case *ssa.Function:
			if pkgOf(fn) == "sync/atomic" && len(in.Call.Args) > 0 {
				a.atomic = true
				a.write = !strings.Contains(fn.Name(), "Load")
				return a, at(in.Call.Args[0])
			}
		}
	}
	return
}

// races reports the step of the current goroutine if another one is about to
// access the same memory and nothing orders the two.
func (x *Exec) races(s *State) {
	t := s.cur()
	a, ok := x.nextAccess(s, t)
	if !ok {
		return
	}
	for _, o := range s.threads[:len(s.threads)-1] {
		b, ok := x.nextAccess(s, o)
		if !ok || o.block != "" || a.obj != b.obj || !a.write && !b.write || a.atomic && b.atomic || !overlap(a.path, b.path) {
			continue
		}
		if a.idx != nil && b.idx != nil && (s.num.entails(a.idx.sub(*b.idx).addc(-1)) || s.num.entails(b.idx.sub(*a.idx).addc(-1))) {
			continue
		}
		c := &Ctx{x, s, nil}
		f := o.frames[len(o.frames)-1]
		what := "read"
		if b.write {
			what = "written"
		}
		c.flag("race", "memory is accessed here while it is %s at %s with nothing to order the two", what, x.pos(f))
		return
	}
	x.obl["race"]++
}

func overlap(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			break
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
