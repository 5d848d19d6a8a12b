package main

import (
	"fmt"
	"go/types"
)

// workerMon judges xworker (C10). The slots are the elements, or the free
// places, of a channel whose capacity is the worker's size.
type workerMon struct{ NoMon }

func (m *workerMon) size(c *Ctx) Lin { return c.s.gv["p:size"].(VInt).E }

func (m *workerMon) isSlot(c *Ctx, id int) bool {
	v, ok := c.s.gv["slots"].(VRef)
	return ok && v.obj == id
}

func (m *workerMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "ended":
		c.endCtx(vs[0])
		s.gh["ended"] = "1"
	case "fill":
		slots := -1
		c.derives(vs[0], func(v Val) bool {
			if r, ok := v.(VRef); ok && s.heap[r.obj].kind == oChan && s.heap[r.obj].hasN && s.num.entailsEq(s.heap[r.obj].n.sub(m.size(c))) {
				slots = r.obj
			}
			return false
		})
		if slots < 0 {
			c.flag("slots", "the worker has no channel with exactly as many places as its size")
			c.x.stop()
		}
		c.ok("slots")
		o := s.mut(slots)
		s.gv["slots"] = VRef{slots}
		// k tasks hold a slot
		k := s.nonneg()
		s.assume(m.size(c).sub(k))
		if c.x.decideEq(s, o.occ) {
			s.gh["acq"] = "send"
			o.occ = k
		} else if c.x.decideEq(s, o.occ.sub(m.size(c))) {
			s.gh["acq"] = "recv"
			o.occ = m.size(c).sub(k)
		} else {
			c.flag("slots", "a new worker has neither all slots free nor all tokens available")
			c.x.stop()
		}
		o.elems = nil
	case "accepted":
		if s.gh["taken"] == "" {
			c.flag("acquire", "a task is accepted without taking a slot")
		} else {
			c.ok("acquire")
		}
	}
	return unit()
}

func (m *workerMon) take(c *Ctx) {
	if c.s.gh["taken"] != "" {
		c.flag("acquire", "a task takes a second slot")
	}
	c.s.gh["taken"] = "1"
}

func (m *workerMon) give(c *Ctx) {
	s := c.s
	switch {
	case s.gh["taken"] == "":
		c.flag("release", "a slot is given back before one was taken")
	case s.gh["given"] != "":
		c.flag("release", "a task gives its slot back a second time")
	case s.gh["fin"] != "1":
		c.flag("release", "the slot is given back before the completion callback ran exactly once")
	case s.gh["run"] != "done" && s.gh["run"] != "panicked" && !c.ctxEnded(s.gv["p:ctx"]):
		c.flag("release", "the slot is given back before the task ended and before its context ended")
	default:
		c.ok("release")
	}
	s.gh["given"] = "1"
}

func (m *workerMon) Send(c *Ctx, id int, v Val) {
	if m.isSlot(c, id) {
		if c.s.gh["acq"] == "send" {
			m.take(c)
		} else {
			m.give(c)
		}
	}
}

func (m *workerMon) Recv(c *Ctx, id int, v Val) {
	if m.isSlot(c, id) {
		if c.s.gh["acq"] == "recv" {
			m.take(c)
		} else {
			m.give(c)
		}
	}
}

func (m *workerMon) SelSend(c *Ctx, id int) bool { return false }

func (m *workerMon) Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	s := c.s
	switch {
	case isParam(c, f, "run"):
		switch {
		case s.gh["run"] != "":
			c.flag("once", "the task is run a second time")
		case s.gh["ended"] != "":
			c.flag("ctx", "the task is run although its context had ended")
		case s.gh["taken"] == "":
			c.flag("acquire", "the task is run without holding a slot")
		case s.gh["given"] != "" && !c.ctxEnded(s.gv["p:ctx"]):
			c.flag("acquire", "the task is run after its slot was given back")
		default:
			c.ok("run")
		}
		if c.x.choose(s, 2) == 1 {
			c.x.yield("!the task runs for ever")
		}
		s.gh["run"] = "done"
		return unit()
	case isParam(c, f, "fin"):
		n := atoi(s.gh["fin"]) + 1
		if n > 2 {
			n = 2
		}
		s.gh["fin"] = fmt.Sprint(n)
		if n == 2 {
			c.flag("fin", "the completion callback runs a second time")
		}
		return unit()
	}
	return nil
}

func (m *workerMon) CallbackPanic(c *Ctx, f VSym) {
	if isParam(c, f, "run") {
		c.s.gh["run"] = "panicked"
	}
}

// Crash: the panic of a task ends the process; what was deferred has run.
func (m *workerMon) Crash(c *Ctx, p *panicInfo) bool {
	if c.s.gh["run"] != "panicked" {
		c.flag("crash", "the process crashes (%s) although the task did not panic", p.why)
		return false
	}
	m.final(c)
	return false
}

func (m *workerMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if t.kind == "main" && p != nil {
		c.flag("crash", "Run panics (%s)", p.why)
	}
}

func (m *workerMon) final(c *Ctx) {
	s := c.s
	if s.gh["taken"] == "" {
		return
	}
	switch {
	case s.gh["fin"] != "1":
		c.flag("fin", "an accepted task ends without its completion callback having run exactly once")
	case s.gh["given"] == "":
		c.flag("release", "an accepted task never gives its slot back")
	default:
		c.ok("final")
	}
}

func (m *workerMon) End(c *Ctx) { m.final(c) }

// Stuck: waiting for a slot is fine; a task that runs for ever is released
// by the end of its context.
func (m *workerMon) Stuck(c *Ctx) bool {
	s := c.s
	for _, t := range s.threads {
		if t.block == "select?" {
			return false
		}
	}
	if s.gh["taken"] == "" {
		c.ok("full")
		return true
	}
	m.final(c)
	return true
}

func init() {
	register("C10", []string{"hworker"}, func(r *Run) {
		r.explore("hworker", "Run", &workerMon{}, func(x *Exec) {
			x.cbPanic = true
			x.cbPanicIf = func(c *Ctx, f VSym) bool { return isParam(c, f, "run") }
		})
		for _, k := range []string{"slots", "acquire", "run", "release", "final", "full"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
