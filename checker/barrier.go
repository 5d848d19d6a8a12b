package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// barrierMon judges xbarrier (C12).
type barrierMon struct{ NoMon }

func (m *barrierMon) isChan(c *Ctx, id int) bool { return c.s.heap[id].gh["param"] == "ch" }

// transfer is one value moved through the barrier's channel.
func (m *barrierMon) transfer(c *Ctx, v Val) {
	s := c.s
	if s.gh["ended"] != "" {
		c.flag("ended", "the channel is used although the context had ended before the call")
		c.x.stop()
	}
	if s.gv["val"] != nil {
		c.flag("once", "one call transfers more than one value")
		c.x.stop()
	}
	s.gv["val"] = v
	m.interruptible(c)
}

// interruptible: the running instruction cannot outlast the context.
func (m *barrierMon) interruptible(c *Ctx) {
	f := c.s.top()
	in, ok := f.fn.Blocks[f.block].Instrs[f.pc].(*ssa.Select)
	good := false
	if ok {
		good = !in.Blocking
		for _, st := range in.States {
			if r, ok := c.x.val(c.s, st.Chan).(VRef); ok && st.Dir == types.RecvOnly && r == c.ctxDone(c.s.gv["p:ctx"]).(VRef) {
				good = true
			}
		}
	}
	if !good {
		c.flag("hang", "the call may block on the channel without watching the context")
		c.x.stop()
	}
	c.ok("interruptible")
}

func (m *barrierMon) RecvExt(c *Ctx, id int) (Val, bool, bool) {
	if !m.isChan(c, id) {
		return nil, false, false
	}
	s := c.s
	if s.heap[id].gh["closed"] == "1" || c.x.choose(s, 2) == 1 {
		s.mut(id).gh["closed"] = "1"
		if s.gh["ended"] != "" {
			c.flag("ended", "the channel is used although the context had ended before the call")
			c.x.stop()
		}
		m.interruptible(c)
		return zeroVal(ifaceT()), false, true
	}
	y := s.newSym(ifaceT(), "received")
	m.transfer(c, y)
	return y, true, true
}

func (m *barrierMon) Send(c *Ctx, id int, v Val) {
	if m.isChan(c, id) {
		m.transfer(c, v)
	}
}

func (m *barrierMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "end":
		c.endCtx(vs[0])
	case "begin":
		delete(s.gv, "val")
		s.gh["ended"] = ""
		if c.ctxEnded(s.gv["p:ctx"]) {
			s.gh["ended"] = "1"
		}
	case "done":
		ok := c.x.cond(c, vs[1])
		v := s.gv["val"]
		switch {
		case ok && v == nil:
			c.flag("success", "success is reported although no value was transferred")
		case !ok && v != nil:
			c.flag("success", "failure is reported although a value was transferred")
		case ok && valKey(v) != valKey(c.markIface(args, 0)):
			c.flag("value", "the value transferred is not the one given to or returned by the call")
		case ok:
			c.ok("success")
		default:
			c.ok("failure")
		}
	}
	return unit()
}

func (m *barrierMon) Stuck(c *Ctx) bool {
	c.flag("hang", "the call blocks for ever (%s)", c.s.cur().block)
	return true
}

func (m *barrierMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "the call panics (%s)", p.why)
	}
}

func init() {
	register("C12", []string{"hbarrier"}, func(r *Run) {
		for _, e := range []string{"Read", "Write"} {
			r.explore("hbarrier", e, &barrierMon{}, nil)
			r.need("success "+e, r.w.obl["success"], 1)
			r.need("failure "+e, r.w.obl["failure"], 1)
			r.need("interruptible "+e, r.w.obl["interruptible"], 1)
			r.w.obl["success:"+e], r.w.obl["failure:"+e] = r.w.obl["success"], r.w.obl["failure"]
			r.w.obl["interruptible:"+e] = r.w.obl["interruptible"]
			r.w.obl["success"], r.w.obl["failure"], r.w.obl["interruptible"] = 0, 0, 0
		}
	})
}
