package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// marks returns the arguments of a vf.Mark call.
// The values are as they were before they were boxed.
func (c *Ctx) marks(args []Val) (string, []Val) {
	what, _ := asStr(args[0])
	var vs []Val
	if sl, ok := args[1].(VSlice); ok {
		for _, e := range c.s.heap[sl.obj].elems {
			vs = append(vs, unbox(e.v))
		}
	}
	return what, vs
}

// markIface returns the i-th argument of a vf.Mark call, an interface value.
func (c *Ctx) markIface(args []Val, i int) Val {
	return c.s.heap[args[1].(VSlice).obj].elems[i].v
}

// derives reports whether v was computed from a value accepted by f.
func (c *Ctx) derives(v Val, f func(Val) bool) bool {
	seen := map[string]bool{}
	var rec func(v Val, d int) bool
	rec = func(v Val, d int) bool {
		if v == nil || d > 12 {
			return false
		}
		if f(v) {
			return true
		}
		switch v := v.(type) {
		case VSym, VRef, VAddr, VSlice:
			k := valKey(v)
			if seen[k] {
				return false
			}
			seen[k] = true
		}
		switch v := v.(type) {
		case VSym:
			if si := c.s.syms[v.id]; si != nil {
				for _, o := range si.org {
					if rec(o, d+1) {
						return true
					}
				}
			}
		case VIface:
			return rec(v.v, d+1)
		case VStruct:
			for _, o := range v.f {
				if rec(o, d+1) {
					return true
				}
			}
		case VTuple:
			for _, o := range v.f {
				if rec(o, d+1) {
					return true
				}
			}
		case VAddr:
			if o := c.s.heap[v.obj]; o != nil {
				if rec(o.v, d+1) {
					return true
				}
				for _, e := range o.elems {
					if rec(e.v, d+1) {
						return true
					}
				}
			}
		case VSlice:
			for _, e := range c.s.heap[v.obj].elems {
				if rec(e.v, d+1) {
					return true
				}
			}
		case VRef:
			for _, e := range c.s.heap[v.obj].elems {
				if rec(e.key, d+1) || rec(e.v, d+1) {
					return true
				}
			}
		}
		return false
	}
	return rec(v, 0)
}

func sameVal(a Val) func(Val) bool {
	k := valKey(a)
	return func(v Val) bool { return valKey(v) == k }
}

// ctxEnded: the context's done channel is closed.
func (c *Ctx) ctxEnded(ctx Val) bool {
	return c.s.heap[c.ctxDone(ctx).(VRef).obj].gh["closed"] == "1"
}

func (c *Ctx) endCtx(ctx Val) {
	c.s.mut(c.ctxDone(ctx).(VRef).obj).gh["closed"] = "1"
}

func isParam(c *Ctx, v Val, name string) bool {
	p, ok := c.s.gv["p:"+name]
	return ok && valKey(p) == valKey(v)
}

// taskMon judges xtask.Do and its variants (C07, C08).
type taskMon struct {
	NoMon
	p, e string
}

// context is the context the task runs under.
func (m *taskMon) context(c *Ctx) Val {
	if v := c.s.gv["p:ctx"]; v != nil {
		return v
	}
	return c.s.gv["tctx"]
}

func (m *taskMon) ended(c *Ctx) bool {
	x := m.context(c)
	return x != nil && c.ctxEnded(x)
}

func (m *taskMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "ended":
		c.endCtx(vs[0])
		s.gh["ended"] = "1"
	case "ret":
		s.gh["ret"] = "1"
		if m.p != "C07" {
			return unit()
		}
		m.cleanup(c)
		r := c.markIface(args, 0)
		if d := s.gv["dores"]; d != nil && valKey(d) == valKey(r) {
			c.ok("outcome")
			return unit()
		}
		if s.gh["do"] == "panicked" && !m.ended(c) {
			c.flag("panic", "the task panicked but the caller returns normally")
			return unit()
		}
		if !m.isCtxErr(c, r) {
			c.flag("outcome", "the result is neither the task's own error nor the error of the ended context")
			return unit()
		}
		c.ok("outcome")
	}
	return unit()
}

// isCtxErr: r is the error of the context, which has ended.
func (m *taskMon) isCtxErr(c *Ctx, r Val) bool {
	x := m.context(c)
	if x == nil || !m.ended(c) {
		return false
	}
	y, ok := r.(VSym)
	return ok && c.s.syms[y.id].tag == "ctxerr" && valKey(c.s.syms[y.id].org[0]) == valKey(x)
}

func (m *taskMon) cleanup(c *Ctx) {
	if c.s.gv["p:fin"] == nil {
		return
	}
	if c.s.gh["fin"] != "1" {
		c.flag("cleanup", "the call ends but the cleanup was not run exactly once")
		return
	}
	c.ok("cleanup")
}

func (m *taskMon) Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	s := c.s
	switch {
	case isParam(c, f, "do"):
		if m.p == "C07" {
			switch {
			case s.gh["do"] != "":
				c.flag("at-most-once", "the task is started a second time")
			case s.gh["ended"] != "":
				c.flag("start", "the task is started although the context was done before")
			default:
				c.ok("start")
			}
		}
		s.gh["do"] = "running"
		r := s.newSym(sig.Results().At(0).Type(), "dores")
		s.gv["dores"] = r
		s.gh["do"] = "done"
		return r
	case isParam(c, f, "fin"):
		n := atoi(s.gh["fin"]) + 1
		if n > 2 {
			n = 2
		}
		s.gh["fin"] = fmt.Sprint(n)
		if m.p == "C07" {
			if n > 1 {
				c.flag("cleanup", "the cleanup is run a second time")
			}
			if s.gh["do"] != "done" && s.gh["do"] != "panicked" && !m.ended(c) {
				c.flag("cleanup", "the cleanup is run before the task ended and before the context ended")
			}
		}
		return unit()
	case s.syms[f.id].tag == "cancel":
		s.gh["cancelled"] = "1"
		return unit()
	}
	return nil
}

func (m *taskMon) CallbackPanic(c *Ctx, f VSym) {
	c.s.gh["do"] = "panicked"
	delete(c.s.gv, "dores")
}

func (m *taskMon) Ext(c *Ctx, what string, args ...Val) {
	s := c.s
	switch what {
	case "context.WithTimeout", "context.WithDeadline":
		if s.gv["tctx"] != nil {
			c.flag("undecided", "more than one timed context")
		}
		s.gv["tctx"] = args[0]
		s.gh["timer"] = "1"
		want, ok := s.gv["p:timeout"]
		if !ok {
			return
		}
		if m.p != "C08" {
			return
		}
		good := false
		if what == "context.WithTimeout" {
			got, ok := args[3].(VInt)
			good = ok && s.num.entailsEq(got.E.sub(want.(VInt).E))
		} else {
			good = c.derives(args[3], func(v Val) bool {
				i, ok := v.(VInt)
				return ok && s.num.entailsEq(i.E.sub(want.(VInt).E))
			})
		}
		if !good {
			c.flag("timeout", "the context is not given exactly the requested timeout")
		} else {
			c.ok("timeout")
		}
		if y, ok := args[2].(VSym); !ok || s.syms[y.id].tag != "ctx:background" {
			c.flag("timeout", "the timed context does not derive from the background context")
		}
	case "context.WithCancel":
		if s.gv["p:ctx"] == nil {
			c.flag("undecided", "the task does not run under a timed context")
		}
	}
}

func (m *taskMon) Crash(c *Ctx, p *panicInfo) bool {
	if m.p == "C07" {
		c.flag("panic", "a goroutine dies of an unrecovered panic (%s): the whole process ends", p.why)
	}
	return false
}

func (m *taskMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	s := c.s
	if t.kind != "main" {
		return
	}
	if m.p == "C08" {
		if s.gv["p:timeout"] != nil {
			switch {
			case s.gh["timer"] == "":
				c.flag("timeout", "the task runs without a timeout")
			case s.gh["cancelled"] == "":
				c.flag("timer", "the call ends without releasing its timer")
			default:
				c.ok("timer")
			}
		}
		return
	}
	if p == nil {
		if s.gh["ret"] == "" {
			c.flag("outcome", "no result")
		}
		return
	}
	m.cleanup(c)
	if s.gh["do"] != "panicked" {
		c.flag("panic", "the caller panics (%s) although the task did not", p.why)
		return
	}
	if !c.derives(p.val, func(v Val) bool {
		y, ok := v.(VSym)
		return ok && s.syms[y.id].tag == "userpanic"
	}) {
		c.flag("panic", "the panic raised in the caller does not carry the panic of the task")
		return
	}
	c.ok("panic")
}

// Stuck: no goroutine can go on. A goroutine waiting for the context only
// does not count.
func (m *taskMon) Stuck(c *Ctx) bool {
	s := c.s
	for _, t := range s.threads {
		if t.block == "select?" {
			return false
		}
	}
	for _, t := range s.threads {
		if t.kind == "main" && m.p == "C07" {
			c.flag("hang", "the call never ends: all goroutines are blocked (%s)", t.block)
			return true
		}
		if t.kind != "main" && m.p == "C08" {
			c.flag("blocked", "the goroutine of the task stays blocked (%s) after the caller has gone", t.block)
			return true
		}
	}
	return true
}

func (m *taskMon) End(c *Ctx) {
	if m.p == "C08" {
		c.ok("goroutine-ends")
	}
}

// retryMon judges DoWithRetry (C09).
type retryMon struct {
	NoMon
	def bool
}

func (m *retryMon) Entry(c *Ctx, fn *ssa.Function) {
	c.s.gv["calls"] = vint(0)
}

// limit is the allowed number of retries.
func (m *retryMon) limit(c *Ctx) Lin {
	if m.def {
		return lc(3)
	}
	n := c.s.gv["p:n"].(VInt).E
	if c.x.decide(c.s, n) {
		return n
	}
	return lc(0)
}

func (m *retryMon) Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	s := c.s
	if !isParam(c, f, "fn") {
		return nil
	}
	calls := s.gv["calls"].(VInt).E
	if s.gh["ok"] != "" {
		c.flag("stop", "the function is called again after it succeeded")
	}
	if !s.num.entails(m.limit(c).sub(calls)) {
		c.flag("attempts", "the function may be called more often than the number of retries allows")
		c.x.stop()
	}
	c.ok("attempts")
	s.gv["calls"] = VInt{calls.addc(1)}
	n := 2
	if s.gh["D"] == "" {
		n = 3
	}
	switch c.x.choose(s, n) {
	case 0:
		s.gh["ok"] = "1"
		return VNil{}
	case 1:
		y := s.newSym(sig.Results().At(0).Type(), "failure")
		s.mutSym(y.id).nn = true
		return y
	default:
		y := s.newSym(sig.Results().At(0).Type(), "D")
		s.mutSym(y.id).nn = true
		s.gv["D"] = y
		s.gh["D"] = "1"
		return y
	}
}

func (m *retryMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	r := c.markIface(args, 0)
	if c.x.equal(c, r, VNil{}, nil) {
		if s.gh["ok"] == "" {
			c.flag("result", "success is reported although no attempt succeeded")
		} else {
			c.ok("result")
		}
		return unit()
	}
	if s.gh["ok"] != "" {
		c.flag("result", "an error is reported although an attempt succeeded")
		return unit()
	}
	if !s.num.entailsEq(s.gv["calls"].(VInt).E.sub(m.limit(c)).addc(-1)) {
		c.flag("attempts", "the retries end before all allowed attempts failed")
	} else {
		c.ok("attempts")
	}
	if s.gh["D"] != "" {
		if !c.derives(r, sameVal(s.gv["D"])) {
			c.flag("errors", "the error of a failed attempt is not part of the result")
		} else {
			c.ok("errors")
		}
	}
	return unit()
}

// knownNonNil reports whether v cannot be nil.
func (c *Ctx) knownNonNil(v Val) bool {
	switch v := v.(type) {
	case VSym:
		return c.s.syms[v.id].nn
	case VNil:
		return false
	}
	return true
}

// nonNilElems keeps track of whether every error stored in a slice is non-nil.
type nonNilElems struct{}

func (nonNilElems) write(c *Ctx, obj int, v Val) {
	if types.IsInterface(c.s.heap[obj].T) && !c.knownNonNil(v) {
		c.s.gh["maynil:"+typeStr(c.s.heap[obj].T)] = "1"
	}
}

func (nonNilElems) fresh(c *Ctx, obj int, tag string) Val {
	o := c.s.heap[obj]
	if !types.IsInterface(o.T) || c.s.gh["maynil:"+typeStr(o.T)] != "" {
		return nil
	}
	y := c.s.newSym(o.T, tag)
	c.s.mutSym(y.id).nn = true
	return y
}

func (m *retryMon) WriteElem(c *Ctx, obj int, idx Lin, v Val) { nonNilElems{}.write(c, obj, v) }
func (m *retryMon) FreshElem(c *Ctx, obj int, idx Lin) Val {
	return nonNilElems{}.fresh(c, obj, "failure")
}

// trackTag keeps array elements that hold a symbol with one of the tags.
func trackTag(tags ...string) func(x *Exec, s *State, v Val) bool {
	return func(x *Exec, s *State, v Val) bool {
		if y, ok := unbox(v).(VSym); ok {
			for _, t := range tags {
				if s.syms[y.id].tag == t {
					return true
				}
			}
		}
		return false
	}
}

func init() {
	for _, p := range []string{"C07", "C08"} {
		p := p
		register(p, []string{"htask"}, func(r *Run) {
			for _, e := range []string{"Do", "DoNil", "DoWithoutDefer", "DoWithTimeout", "DoWithTimeoutNil"} {
				r.explore("htask", e, &taskMon{p: p, e: e}, func(x *Exec) {
					x.cbPanic = true
					x.cbPanicIf = func(c *Ctx, f VSym) bool { return isParam(c, f, "do") }
				})
			}
			if p == "C07" {
				r.need("outcome", r.w.obl["outcome"], 10)
				r.need("panic", r.w.obl["panic"], 5)
			} else {
				r.need("goroutine-ends", r.w.obl["goroutine-ends"], 5)
				r.need("timer", r.w.obl["timer"], 2)
			}
		})
	}
	register("C09", []string{"htask"}, func(r *Run) {
		r.explore("htask", "RetryN", &retryMon{}, func(x *Exec) { x.trackFn = trackTag("D"); x.maxDisj = 8 })
		r.explore("htask", "RetryNeg", &retryMon{}, func(x *Exec) { x.trackFn = trackTag("D"); x.maxDisj = 8 })
		r.explore("htask", "RetryDefault", &retryMon{def: true}, func(x *Exec) { x.trackFn = trackTag("D"); x.maxDisj = 8 })
		r.need("result", r.w.obl["result"], 2)
		r.need("errors", r.w.obl["errors"], 2)
	})
}
