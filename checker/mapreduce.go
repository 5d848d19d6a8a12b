package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// mapMon judges xmapreduce (C11). Worker.Run is replaced by its contract
// (C10): the task runs and then its completion callback, in the background.
type mapMon struct {
	NoMon
	share share
	r     *Run
}

func (m *mapMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	s := c.s
	switch fn.String() {
	case modPath + "/xworker.NewWorker":
		n := lc(16)
		if v, ok := s.gv["p:size"].(VInt); ok {
			n = v.E
		}
		if s.gv["worker"] != nil {
			c.flag("size", "more than one worker is used")
		}
		if !s.num.entailsEq(args[0].(VInt).E.sub(n)) {
			c.flag("size", "the worker does not have the configured size")
		} else {
			c.ok("size")
		}
		y := s.newSym(fn.Signature.Results().At(0).Type(), "worker")
		s.mutSym(y.id).nn = true
		s.gv["worker"] = y
		return y, true
	case "(*" + modPath + "/xworker.Worker).Run":
		if w := s.gv["worker"]; w == nil || valKey(w) != valKey(args[0]) {
			c.flag("size", "a mapper runs outside of the worker of the configured size")
		}
		if !isParam(c, args[1], "ctx") {
			c.flag("ctx", "a mapper runs under another context")
		}
		f := c.x.w.pkgs[modPath+"/zzverif/hworker"].Func("Contract")
		c.x.spawn(c, "go", VFunc{fn: f}, nil, args[1:])
		return unit(), true
	}
	return nil, false
}

func (m *mapMon) Spawn(c *Ctx, t *Thread, fn Val, args []Val) { m.share.spawn(c, t, fn, args) }

func (m *mapMon) Store(c *Ctx, a VAddr, v Val) {
	if !m.share.store(c, a) {
		c.flag("shared-variable", "a variable shared with a running goroutine is written without synchronisation")
		c.x.stop()
	}
}

func (m *mapMon) Load(c *Ctx, a VAddr) (Val, bool) {
	if !m.share.load(c, a) {
		c.flag("shared-variable", "a variable written by a running goroutine is read without synchronisation")
		c.x.stop()
	}
	return nil, false
}

func (m *mapMon) Sync(c *Ctx, op string, a VAddr) {
	if t := c.s.cur(); op == "done" && t.gh["cb"] != "" {
		t.gh["cb"] = ""
		c.s.mut(a.obj).gh["unjcb"] = "1"
	}
	if op == "wait" {
		m.share.join(c)
		if c.s.heap[a.obj].gh["unjcb"] != "" {
			c.s.mut(a.obj).gh["unjcb"] = ""
		}
	}
}

// The element type tells the source and result channels from semaphores.
func (m *mapMon) data(c *Ctx, id int) bool {
	return types.IsInterface(c.s.heap[id].T.Underlying().(*types.Chan).Elem())
}

func (m *mapMon) FullSend(c *Ctx, id int, v Val, inSelect bool) bool {
	return c.s.heap[id].gh["out"] == "1"
}

func (m *mapMon) SelSend(c *Ctx, id int) bool { return c.s.heap[id].gh["out"] == "1" }

func (m *mapMon) Send(c *Ctx, id int, v Val) {
	if c.s.heap[id].gh["closed"] == "1" && m.data(c, id) {
		c.flag("send-after-close", "a value is sent on a channel that has been closed")
	}
}

func (m *mapMon) Close(c *Ctx, id int) {
	s := c.s
	o := s.heap[id]
	if !m.data(c, id) {
		return
	}
	if o.gh["closed"] == "1" {
		c.flag("double-close", "a channel is closed twice")
		return
	}
	if o.gh["source"] != "" {
		if s.gh["gend"] == "" {
			c.flag("source", "the generator's channel is closed before the generator ended")
		} else {
			c.ok("source")
		}
		return
	}
	un := s.gh["unjcb"] != ""
	for _, o := range s.heap {
		un = un || o.gh["unjcb"] != ""
	}
	for _, t := range s.threads[:len(s.threads)-1] {
		un = un || t.gh["cb"] != ""
	}
	if un {
		c.flag("join", "the result channel is closed although a mapper was not waited for")
	} else {
		c.ok("join")
	}
}

func (m *mapMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "gen":
		y := vs[0].(VSym)
		s.mutSym(y.id).tag = "gen"
		if s.gh["D"] == "" && c.x.choose(s, 2) == 1 {
			s.gh["D"] = "0"
			s.gv["D"] = y
		}
	case "genend":
		s.gh["gend"] = "1"
		s.gv["source"] = vs[0]
		s.mut(vs[0].(VRef).obj).gh["source"] = "1"
	case "map":
		s.cur().gh["cb"] = "1"
		y, ok := vs[0].(VSym)
		if ok && s.gv["D"] != nil && valKey(s.gv["D"]) == valKey(y) {
			if s.gh["D"] != "0" {
				c.flag("once", "an element is mapped twice")
			}
			s.gh["D"] = "1"
			break
		}
		if !ok || s.syms[y.id].tag != "gen" {
			c.flag("provenance", "the map function is given something that was not generated")
		} else {
			c.ok("provenance")
		}
	case "out":
		s.gv["out"] = vs[0]
		s.mut(vs[0].(VRef).obj).gh["out"] = "1"
	}
	return unit()
}

func (m *mapMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	m.share.end(c, t)
	if t.gh["cb"] != "" {
		c.s.gh["unjcb"] = "never"
	}
}

func (m *mapMon) Crash(c *Ctx, p *panicInfo) bool {
	c.flag("crash", "a goroutine crashes: %s", p.why)
	return false
}

func (m *mapMon) final(c *Ctx, stuck bool) {
	s := c.s
	out, ok := s.gv["out"].(VRef)
	if !ok {
		c.flag("result", "no result channel is returned")
		return
	}
	if s.heap[out.obj].gh["closed"] != "1" {
		c.flag("close", "the result channel is never closed")
		return
	}
	c.ok("close")
	if src, ok := s.gv["source"].(VRef); ok && s.heap[src.obj].gh["closed"] != "1" {
		c.flag("source", "the generator has ended but its channel is never closed")
	}
	if c.ctxEnded(s.gv["p:ctx"]) {
		return
	}
	if stuck {
		c.flag("hang", "all goroutines are blocked (%s) although the context has not ended", s.cur().block)
		return
	}
	switch s.gh["D"] {
	case "0":
		c.flag("once", "a generated element is never mapped although the context has not ended")
	case "1":
		c.ok("once")
	}
}

func (m *mapMon) Stuck(c *Ctx) bool {
	for _, t := range c.s.threads {
		if t.block == "select?" {
			return false
		}
	}
	m.final(c, true)
	return true
}

func (m *mapMon) End(c *Ctx) { m.final(c, false) }

func init() {
	register("C11", []string{"hworker"}, func(r *Run) {
		for _, e := range []string{"Map", "MapDefault", "MapStream"} {
			r.explore("hworker", e, &mapMon{r: r}, nil)
		}
		for _, k := range []string{"size", "provenance", "once", "source", "join", "close"} {
			r.need(k, r.w.obl[k], 3)
		}
	})
}
