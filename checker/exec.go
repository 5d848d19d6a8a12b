package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var stepTrace = os.Getenv("VSTEP") != ""

// signals used for control transfer inside one abstract step
type (
	forkSignal struct{ n int }
	stopPath   struct{}
	goPanic    struct{ info panicInfo }
	yieldSig   struct {
		why  string
		recv []int
	}
)

// Node is a memoised configuration (a program point with discrete state).
type Node struct {
	id     int
	polys  []*Poly
	visit  int
	succ   map[*Node]bool
	pos    string
	par    *Node
	exit   bool
	merged bool
}

// Violation is one reported breach of a rule.
type Violation struct {
	Prop, Rule, Construct, Pos, Msg, Entry string
	Stack                                  []string
	Trace                                  []string
	Known                                  string
}

// Exec explores one entry function.
type Exec struct {
	w          *World
	prop       string
	entry      string
	mon        Mon
	nodes      map[string]*Node
	nodeN      int
	root       *Node
	work       []*State
	viol       map[string]*Violation
	ci         int
	steps      int
	states     int
	ends       int
	budget     int
	distinct   bool // tracked elements of an array never share an index
	checkRT    bool
	excused    bool
	ovf        bool // model int overflow
	cbPanic    bool // user callbacks may panic
	cbPanicIf  func(c *Ctx, f VSym) bool
	trackFn    func(x *Exec, s *State, v Val) bool
	fns        map[*ssa.Function]bool
	obl        map[string]int // obligations discharged, by rule
	debug      bool
	maxDisj    int
	alarm      func(v *Violation) bool // v decides the verdict
	found      bool
	interleave bool // explore every order of visible steps
	given      []int
	race       bool            // report conflicting accesses that are not ordered
	quiet      map[string]bool // marks whose order does not matter
	rtWhere    func(fn *ssa.Function) bool
	start      time.Time
	limit      time.Duration
}

// Ctx is the context of one abstract step.
type Ctx struct {
	x  *Exec
	s  *State
	in ssa.Instruction
}

func newExec(w *World, prop, entry string, m Mon) *Exec {
	return &Exec{w: w, prop: prop, entry: entry, mon: m, nodes: map[string]*Node{}, viol: w.viol,
		budget: 400000, start: time.Now(), limit: 150 * time.Second, fns: map[*ssa.Function]bool{}, obl: w.obl, maxDisj: 3, debug: os.Getenv("VDEBUG") != ""}
}

// choose forks the current step n ways.
func (x *Exec) choose(s *State, n int) int {
	if n == 1 {
		return 0
	}
	if x.ci < len(s.choices) {
		x.ci++
		return s.choices[x.ci-1]
	}
	panic(forkSignal{n})
}

func (x *Exec) stop() { panic(stopPath{}) }

// decide forks on e >= 0.
func (x *Exec) decide(s *State, e Lin) bool {
	if s.num.entails(e) {
		return true
	}
	ne := e.neg().addc(-1)
	if s.num.entails(ne) {
		return false
	}
	if x.choose(s, 2) == 0 {
		if !s.assume(e) {
			x.stop()
		}
		return true
	}
	if !s.assume(ne) {
		x.stop()
	}
	return false
}

// decideEq forks on e == 0.
func (x *Exec) decideEq(s *State, e Lin) bool {
	if s.num.entailsEq(e) {
		return true
	}
	if s.num.entails(e.addc(-1)) || s.num.entails(e.neg().addc(-1)) {
		return false
	}
	if os.Getenv("VEQ") != "" {
		fmt.Fprintln(os.Stderr, "EQ?", s.num.norm(e), "under", s.num.ineqs)
	}
	switch x.choose(s, 3) {
	case 0:
		if !s.assumeEq(e) {
			x.stop()
		}
		return true
	case 1:
		if !s.assume(e.addc(-1)) {
			x.stop()
		}
	default:
		if !s.assume(e.neg().addc(-1)) {
			x.stop()
		}
	}
	return false
}

func (x *Exec) must(s *State, e Lin) {
	if !s.assume(e) {
		x.stop()
	}
}

// run explores from the initial states to a fixpoint.
func (x *Exec) run(init *State) {
	x.root = &Node{succ: map[*Node]bool{}, pos: "entry"}
	init.node = x.root
	x.work = append(x.work, init)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		for s != nil {
			x.steps++
			if x.found {
				return
			}
			if x.steps > x.budget || x.steps&63 == 0 && time.Since(x.start) > x.limit {
				x.report("undecided", "analysis", "", x.entry, "exploration budget exceeded", s)
				return
			}
			ns := x.step(s)
			switch len(ns) {
			case 0:
				s = nil
			default:
				s = ns[0]
				x.work = append(x.work, ns[1:]...)
			}
		}
	}
	x.checkProgress()
}

// checkProgress verifies that every reached configuration can still end.
func (x *Exec) checkProgress() {
	rev := map[*Node][]*Node{}
	all := []*Node{x.root}
	for _, k := range sortedKeys(x.nodes) {
		all = append(all, x.nodes[k])
	}
	for _, n := range all {
		for m := range n.succ {
			rev[m] = append(rev[m], n)
		}
	}
	ok := map[*Node]bool{}
	var q []*Node
	for _, n := range all {
		if n.exit {
			ok[n] = true
			q = append(q, n)
		}
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, p := range rev[n] {
			if !ok[p] {
				ok[p] = true
				q = append(q, p)
			}
		}
	}
	var bad *Node
	for _, n := range all {
		if !ok[n] && (bad == nil || n.id < bad.id) {
			bad = n
		}
	}
	if bad != nil {
		x.addViolation(&Violation{Prop: x.prop, Rule: "progress", Construct: bad.pos, Pos: bad.pos, Entry: x.entry,
			Msg: "from this point no execution reaches the end of the operation (endless loop or deadlock)", Trace: trace(bad)})
	}
}

func trace(n *Node) []string {
	var out []string
	for ; n != nil && len(out) < 40; n = n.par {
		if len(out) == 0 || out[len(out)-1] != n.pos {
			out = append(out, n.pos)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) exit(s *State) {
	x.ends++
	s.node.exit = true
}

// memo canonicalises s at a join point and reports whether to continue.
func (x *Exec) memo(s *State) *State {
	n, key := s.canonical(x.interleave, func(s *State, id int) {
		if x.mon != nil {
			x.mon.Lost(&Ctx{x, s, nil}, id)
		}
	})
	if n.num.bot {
		return nil
	}
	text := key
	h := sha256.Sum256([]byte(key))
	key = string(h[:])
	nd := x.nodes[key]
	if nd == nil {
		x.nodeN++
		f := n.top()
		nd = &Node{id: x.nodeN, succ: map[*Node]bool{}, par: s.node, pos: x.pos(f)}
		x.nodes[key] = nd
		if x.debug {
			fmt.Fprintf(os.Stderr, "== node %d at %s\n%s\n%s\n", nd.id, nd.pos, text, n.num)
		}
		x.states++
		if x.states > 60000 && x.states > x.budget/10 {
			x.steps = x.budget
		}
	}
	s.node.succ[nd] = true
	n.node = nd
	for _, p := range nd.polys {
		if n.num.leq(p) {
			return nil
		}
	}
	lim := x.maxDisj
	if n.gh["coarse"] != "" { // the monitor asked for a single polyhedron from here on
		lim = 4
	}
	if n.gh["fine"] != "" { // or many
		lim = 200
	}
	if !nd.merged && len(nd.polys) < lim {
		nd.polys = append(nd.polys, n.num)
		n.numOwn = false
		return n
	}
	// from the first merge on, a node keeps a single polyhedron
	old := nd.polys[0]
	for _, p := range nd.polys[1:] {
		old = join(old, p)
	}
	merged := join(old, n.num)
	nd.merged = true
	nd.visit++
	if nd.visit > 3 {
		merged = widen(old, merged)
	}
	merged.reduce()
	if len(nd.polys) == 1 && merged.leq(old) {
		return nil // the union adds nothing
	}
	if x.debug {
		fmt.Fprintf(os.Stderr, "== merge node %d visit %d: %s\n   + %s\n   -> %s\n", nd.id, nd.visit, old, n.num, merged)
	}
	nd.polys = []*Poly{merged}
	n.num, n.numOwn = merged, false
	return n
}

func (x *Exec) pos(f *Frame) string {
	b := f.fn.Blocks[f.block]
	p := token.NoPos
	for i := f.pc; i < len(b.Instrs) && p == token.NoPos; i++ {
		p = b.Instrs[i].Pos()
	}
	for i := f.pc - 1; i >= 0 && p == token.NoPos; i-- {
		p = b.Instrs[i].Pos()
	}
	if p == token.NoPos {
		p = f.fn.Pos()
	}
	return x.w.posStr(p) + " (" + shortFn(f.fn) + ")"
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/chenquan/go-pkg/", "")
	return s
}

func (x *Exec) addViolation(v *Violation) {
	k := v.Prop + "/" + v.Rule + "/" + v.Construct
	if _, ok := x.viol[k]; !ok {
		x.viol[k] = v
	}
	if x.alarm != nil && x.alarm(v) {
		x.found = true // the verdict is known
	}
}

func (x *Exec) report(rule, construct, pos, entry, msg string, s *State) {
	v := &Violation{Prop: x.prop, Rule: rule, Construct: construct, Pos: pos, Entry: entry, Msg: msg}
	if s != nil {
		v.Stack = x.stack(s)
		v.Trace = trace(s.node)
		if pos == "" && len(v.Stack) > 0 {
			v.Pos = v.Stack[0]
		}
	}
	x.addViolation(v)
}

func (x *Exec) stack(s *State) []string {
	var out []string
	if len(s.threads) == 0 {
		return out
	}
	for ti := len(s.threads) - 1; ti >= 0; ti-- {
		t := s.threads[ti]
		for i := len(t.frames) - 1; i >= 0; i-- {
			out = append(out, x.pos(t.frames[i]))
		}
		if ti > 0 {
			out = append(out, "-- started by --")
		}
	}
	return out
}

// construct names the innermost library function of the state.
func (x *Exec) construct(s *State) string {
	if len(s.threads) > 0 {
		for ti := len(s.threads) - 1; ti >= 0; ti-- {
			t := s.threads[ti]
			for i := len(t.frames) - 1; i >= 0; i-- {
				f := t.frames[i]
				if x.w.isLib(f.fn) {
					return shortFn(f.fn)
				}
			}
		}
	}
	return x.entry
}

// fail reports a violation and abandons the path.
func (c *Ctx) fail(rule, format string, args ...interface{}) {
	c.flag(rule, format, args...)
	c.x.stop()
}

func (c *Ctx) flag(rule, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if c.x.debug {
		fmt.Fprintf(os.Stderr, "VIOLATION %s %s %v\n%s\n", rule, msg, c.x.stack(c.s), c.s.num)
	}
	c.s.node.exit = true // the path ended in a report
	c.x.report(rule, c.x.construct(c.s), "", c.x.entry, msg, c.s)
}

// ok counts a discharged obligation.
func (c *Ctx) ok(rule string) { c.x.obl[rule]++ }

func simpleInstr(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Alloc, *ssa.Jump, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeClosure, *ssa.Extract, *ssa.DebugRef:
		return true
	}
	return false
}

func (x *Exec) step(s *State) (out []*State) {
	if len(s.threads) == 0 {
		return x.guard(s, func(w *State) []*State { return x.finish(w) })
	}
	if x.interleave {
		if out, done := x.interleaveStep(s); done {
			return out
		}
	}
	t := s.cur()
	f := s.top()
	if t.block != "" {
		return x.guard(s, func(w *State) []*State { return x.schedule(w) })
	}
	if f.panic != nil || f.recov {
		return x.guard(s, func(w *State) []*State { x.ungrant(w); x.unwind(w); return []*State{w} })
	}
	if x.race && len(s.threads) > 1 {
		x.races(s)
	}
	in := f.fn.Blocks[f.block].Instrs[f.pc]
	if stepTrace {
		fmt.Fprintf(os.Stderr, "  step T%d %s.%d.%d %s %v\n", len(s.threads), f.fn.Name(), f.block, f.pc, in, s.choices)
	}
	if simpleInstr(in) {
		if r := x.instr(s, in); r == nil {
			return nil
		} else {
			return []*State{r}
		}
	}
	return x.guard(s, func(w *State) []*State {
		x.ungrant(w)
		if r := x.instr(w, in); r != nil {
			return []*State{r}
		}
		return nil
	})
}

func (x *Exec) ungrant(s *State) {
	if x.interleave {
		s.gh["grant"] = ""
	}
}

func (x *Exec) guard(s *State, run func(w *State) []*State) (out []*State) {
	w := s.clone()
	x.ci = 0
	defer func() {
		r := recover()
		if r == nil {
			live := out[:0]
			for _, o := range out {
				o.choices = nil
				if !o.num.bot {
					live = append(live, o)
				}
			}
			out = live
			return
		}
		switch r := r.(type) {
		case forkSignal:
			out = nil
			for i := r.n - 1; i >= 0; i-- {
				n := s.clone()
				n.choices = append(n.choices, i)
				out = append(out, n)
			}
		case stopPath:
			out = nil
		case goPanic:
			w.choices = nil
			p := r.info
			w.top().panic = &p
			w.top().recov = false
			out = []*State{w}
		case yieldSig:
			// undo the step, block the thread
			n := s.clone()
			n.choices = nil
			n.cur().block = r.why
			x.ungrant(n)
			if len(r.recv) > 0 {
				n.wakeSenders(x, r.recv)
			}
			out = []*State{n}
		default:
			panic(r)
		}
	}()
	return run(w)
}

func (x *Exec) throw(info panicInfo) { panic(goPanic{info}) }

// wake lets blocked threads retry.
func (s *State) wake() {
	for _, t := range s.threads {
		if t.block != "" && !strings.HasPrefix(t.block, "!") {
			t.block = ""
		}
	}
	s.gh["idle"] = ""
}

// wakeSenders lets threads blocked sending on one of the unbuffered channels retry.
func (s *State) wakeSenders(x *Exec, ids []int) {
	for _, t := range s.threads[:len(s.threads)-1] {
		if t.block != "send" && !strings.HasPrefix(t.block, "select") {
			continue
		}
		f := t.frames[len(t.frames)-1]
		var chs []ssa.Value
		switch in := f.fn.Blocks[f.block].Instrs[f.pc].(type) {
		case *ssa.Send:
			chs = append(chs, in.Chan)
		case *ssa.Select:
			for _, st := range in.States {
				if st.Dir == types.SendOnly {
					chs = append(chs, st.Chan)
				}
			}
		}
		for _, v := range chs {
			if r, ok := f.info.num[v]; ok {
				if ch, ok := f.regs[r].(VRef); ok {
					for _, id := range ids {
						if id == ch.obj {
							if e := s.num.norm(s.heap[id].n); s.heap[id].hasN && e.isConst() && e.c == 0 {
								t.block = ""
							}
						}
					}
				}
			}
		}
	}
}

// schedule picks another thread when the current one is blocked.
func (x *Exec) schedule(s *State) []*State {
	pick := -1
	for i := len(s.threads) - 1; i >= 0; i-- {
		if s.threads[i].block == "" && (pick < 0 || s.threads[i].kind == "main") {
			pick = i
		}
	}
	if i := pick; i >= 0 {
		{
			t := s.threads[i]
			s.threads = append(append(append([]*Thread(nil), s.threads[:i]...), s.threads[i+1:]...), t)
			return []*State{s}
		}
	}
	if x.mon != nil {
		c := &Ctx{x, s, nil}
		if x.mon.Stuck(c) {
			x.exit(s)
		}
	}
	return nil
}

// threadEnd removes the current thread.
func (x *Exec) threadEnd(s *State, p *panicInfo) {
	t := s.cur()
	c := &Ctx{x, s, nil}
	if p != nil && t.kind == "go" {
		if x.mon == nil || !x.mon.Crash(c, p) {
			x.exit(s)
			x.stop()
		}
	}
	if x.mon != nil {
		x.mon.ThreadEnd(c, t, p)
	}
	if t.kind == "main" {
		s.gh["main"] = "returned"
		if p != nil {
			s.gh["main"] = "panicked"
		}
	}
	s.threads = s.threads[:len(s.threads)-1]
	s.wake()
}

func (x *Exec) finish(s *State) []*State {
	if x.mon != nil {
		x.mon.End(&Ctx{x, s, nil})
	}
	x.exit(s)
	return nil
}

func (x *Exec) unwind(s *State) {
	f := s.top()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.callDeferred(s, d)
		return
	}
	if f.recov {
		f.recov = false
		if f.fn.Recover != nil {
			f.block, f.prev, f.pc = f.fn.Recover.Index, -1, 0
			return
		}
		var res []Val
		for i := 0; i < f.fn.Signature.Results().Len(); i++ {
			res = append(res, zeroVal(f.fn.Signature.Results().At(i).Type()))
		}
		x.ret(s, res)
		return
	}
	p := f.panic
	t := s.cur()
	if x.mon != nil {
		x.mon.Return(&Ctx{x, s, nil}, f, nil, p)
	}
	if len(t.frames) == 1 {
		if t.kind == "pool" {
			p2 := *p
			x.threadEnd(s, &p2)
			return
		}
		x.threadEnd(s, p)
		return
	}
	t.frames = t.frames[:len(t.frames)-1]
	c := s.top()
	c.panic = p
	c.recov = false
}

func (x *Exec) callDeferred(s *State, d deferred) {
	c := &Ctx{x, s, nil}
	n := len(s.cur().frames)
	x.call(c, d.fn, d.call, d.args, func(Val) {})
	if len(s.cur().frames) > n {
		t := s.top()
		t.isDefer = true
		t.discard = true
	}
}

// ret returns from the top frame.
func (x *Exec) ret(s *State, res []Val) {
	t := s.cur()
	f := s.top()
	if x.mon != nil {
		x.mon.Return(&Ctx{x, s, nil}, f, res, nil)
	}
	if len(t.frames) == 1 {
		if t.kind == "main" {
			for i, r := range res {
				s.gv[fmt.Sprintf("ret%d", i)] = r
			}
		}
		x.threadEnd(s, nil)
		return
	}
	t.frames = t.frames[:len(t.frames)-1]
	cf := s.top()
	if f.onRet != "" {
		var v Val = VTuple{res}
		if len(res) == 1 {
			v = res[0]
		}
		v = retHooks[f.onRet](&Ctx{x, s, nil}, v)
		res = []Val{v}
	}
	if f.discard {
		// defer processing: caller resumes at its own pc; a recovered panic ends unwinding
		return
	}
	var v Val
	switch len(res) {
	case 0:
		v = VTuple{}
	case 1:
		v = res[0]
	default:
		v = VTuple{res}
	}
	in := cf.fn.Blocks[cf.block].Instrs[cf.pc]
	if val, ok := in.(ssa.Value); ok {
		cf.regs[cf.info.num[val]] = v
	}
	cf.pc++
}

func (x *Exec) pushFrame(s *State, fn *ssa.Function, args []Val, free []Val) *Frame {
	fi := infoOf(fn)
	x.fns[fn] = true
	f := &Frame{fn: fn, info: fi, regs: make([]Val, len(fi.vals)), prev: -1}
	for i := range fn.Params {
		f.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		f.regs[len(fn.Params)+i] = free[i]
	}
	t := s.cur()
	t.frames = append(t.frames, f)
	if len(t.frames) > 60 {
		x.report("undecided", "analysis", "", x.entry, "call depth exceeded", s)
		x.stop()
	}
	return f
}

func (x *Exec) spawn(c *Ctx, kind string, fn Val, call *ssa.CallCommon, args []Val) {
	s := c.s
	parent := s.cur()
	name := "?"
	if f, ok := fn.(VFunc); ok {
		name = shortFn(f.fn)
	}
	site := parent.site + ">" + name
	if n := strings.Count(site, ">"); n > 5 {
		site = site[:strings.LastIndex(site, ">")] + "+"
		if strings.HasSuffix(site, "++") {
			site = strings.TrimRight(site, "+") + "+"
		}
	}
	t := &Thread{kind: kind, gh: map[string]string{"id": s.freeID()}, gv: map[string]Val{}, site: site}
	if x.mon != nil {
		x.mon.Spawn(c, t, fn, args)
	}
	s.threads = append(s.threads, t)
	var crash *panicInfo
	func() {
		defer func() {
			if len(t.frames) > 0 {
				return
			}
			if e := recover(); e != nil {
				g, ok := e.(goPanic)
				if !ok {
					panic(e)
				}
				crash = &g.info
			}
		}()
		x.call(c, fn, call, args, func(Val) {})
	}()
	if len(t.frames) == 0 {
		// the call was modelled completely
		x.threadEnd(s, crash)
		return
	}
	s.top().discard = true
	if n := len(s.threads); parent.kind == "main" && n < 6 {
		// the entry goroutine runs until it blocks
		s.threads[n-1], s.threads[n-2] = s.threads[n-2], s.threads[n-1]
	}
}

// freeID is the smallest identity no live thread uses.
func (s *State) freeID() string {
	for i := 1; ; i++ {
		id := fmt.Sprint(i)
		used := false
		for _, t := range s.threads {
			if t.gh["id"] == id {
				used = true
			}
		}
		if !used {
			return id
		}
	}
}

// gotoBlock transfers control, evaluating phis.
func (x *Exec) gotoBlock(s *State, succ int) *State {
	f := s.top()
	from := f.fn.Blocks[f.block]
	b := from.Succs[succ]
	to := b.Index
	pi, nth := -1, 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == b {
			nth++
		}
	}
	for i, p := range b.Preds {
		if p == from {
			pi = i
			if nth == 0 {
				break
			}
			nth--
		}
	}
	var vals []Val
	var regs []int
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		vals = append(vals, x.val(s, phi.Edges[pi]))
		regs = append(regs, f.info.num[phi])
	}
	for i, r := range regs {
		f.regs[r] = vals[i]
	}
	f.prev = -1
	f.block = to
	f.pc = n
	if f.info.memo[to] {
		return x.memo(s)
	}
	return s
}

func (x *Exec) set(s *State, v ssa.Value, val Val) {
	f := s.top()
	f.regs[f.info.num[v]] = val
}

// val evaluates an operand.
func (x *Exec) val(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Global:
		return x.global(s, v)
	case *ssa.Builtin:
		return nil
	}
	f := s.top()
	r, ok := f.info.num[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s", v))
	}
	if f.regs[r] == nil {
		panic(fmt.Sprintf("undefined register %s in %s", v.Name(), f.fn))
	}
	return f.regs[r]
}

func (x *Exec) global(s *State, g *ssa.Global) Val {
	k := "g:" + g.String()
	if a, ok := s.gv[k]; ok {
		return a
	}
	T := g.Type().(*types.Pointer).Elem()
	var v Val
	ext := !x.w.isRepoPkg(g.Pkg)
	if ext {
		c := &Ctx{x, s, nil}
		v = x.fresh(c, T, "global:"+g.String())
		if y, ok := v.(VSym); ok {
			s.mutSym(y.id).nn = true
		}
	} else {
		v = zeroVal(T)
	}
	a := VAddr{obj: s.newObj(&Obj{kind: oCell, T: T, site: "global " + g.String(), v: v})}
	s.gv[k] = a
	return a
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool, constant.String:
		return VConst{c.Type(), c.Value}
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return VInt{intConst(c.Value, b)}
		}
		return VConst{c.Type(), constant.ToFloat(c.Value)}
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return VInt{intConst(constant.ToInt(c.Value), b)}
		}
	}
	return VConst{c.Type(), c.Value}
}

// intConst maps integer constants to linear expressions; constants near the
// ends of the int range are expressed relative to MAX.
func intConst(v constant.Value, b *types.Basic) Lin {
	if i, ok := constant.Int64Val(v); ok {
		const big = 1 << 40
		if i > big {
			if i >= 1<<62 {
				return addLin(lc(i-(1<<63-1)), 1, ld(dimMax))
			}
			return lc(i)
		}
		if i < -big && i <= -(1<<62) {
			return addLin(lc(i+(1<<63-1)), -1, ld(dimMax))
		}
		return lc(i)
	}
	// uint64 constants beyond int64
	return addLin(lc(0), 2, ld(dimMax))
}

func zeroVal(T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vbool(false)
		case u.Info()&types.IsInteger != 0:
			return vint(0)
		case u.Info()&types.IsString != 0:
			return vstr("")
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return VNil{}
		default:
			return VConst{T, constant.MakeFloat64(0)}
		}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return VTuple{f}
	}
	return VNil{}
}

// intRange gives the bounds of an integer type; nil bounds mean the int range.
func (x *Exec) constrainInt(s *State, e Lin, b *types.Basic) {
	switch b.Kind() {
	case types.Uint8:
		s.assume(e)
		s.assume(e.neg().addc(255))
	case types.Uint16:
		s.assume(e)
		s.assume(e.neg().addc(65535))
	case types.Uint32:
		s.assume(e)
		s.assume(e.neg().addc(1<<32 - 1))
	case types.Int8:
		s.assume(e.addc(128))
		s.assume(e.neg().addc(127))
	case types.Int16:
		s.assume(e.addc(1 << 15))
		s.assume(e.neg().addc(1<<15 - 1))
	case types.Int32:
		s.assume(e.addc(1 << 31))
		s.assume(e.neg().addc(1<<31 - 1))
	case types.Uint, types.Uint64, types.Uintptr:
		s.assume(e)
	default:
		if x.ovf {
			s.assume(addLin(ld(dimMax), -1, e))
			s.assume(addLin(ld(dimMax), 1, e).addc(1))
		}
	}
}

// fresh makes an unknown value of type T.
func (x *Exec) fresh(c *Ctx, T types.Type, tag string, org ...Val) Val {
	s := c.s
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			d := s.newDim()
			x.constrainInt(s, d, u)
			return VInt{d}
		}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = x.fresh(c, u.Field(i).Type(), tag+"."+u.Field(i).Name(), org...)
		}
		return VStruct{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = x.fresh(c, u.At(i).Type(), tag, org...)
		}
		return VTuple{f}
	}
	return s.newSym(T, tag, org...)
}
