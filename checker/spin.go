package main

// spinMon judges xsync.Spinlock (C14).
type spinMon struct{ NoMon }

const maxSpins = 1 << 16

func (m *spinMon) isLock(c *Ctx, a VAddr) bool {
	l, ok := c.s.gv["lock"].(VAddr)
	return ok && l.obj == a.obj
}

func (m *spinMon) Load(c *Ctx, a VAddr) (Val, bool) {
	if m.isLock(c, a) {
		c.flag("atomic", "the lock word is read non-atomically")
	}
	return nil, false
}

func (m *spinMon) Store(c *Ctx, a VAddr, v Val) {
	if m.isLock(c, a) {
		c.flag("atomic", "the lock word is written non-atomically")
	}
}

func (m *spinMon) Ext(c *Ctx, what string, args ...Val) {
	if what == "runtime.Gosched" && c.s.cur().gh["wait"] != "" {
		t := c.s.cur()
		n, _ := t.gv["spins"].(VInt)
		n.E = n.E.addc(1)
		t.gv["spins"] = n
		if c.s.num.entails(lc(maxSpins).sub(n.E)) {
			c.ok("back-off")
		} else {
			c.flag("back-off", "the pause between two attempts to take the lock is not bounded")
			c.x.stop()
		}
	}
}

func (m *spinMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if len(name) > 6 && name[:6] == "atomic" {
		if a, ok := args[0].(VAddr); ok && m.isLock(c, a) {
			c.ok("atomic")
			c.s.cur().gv["spins"] = vint(0)
		}
		return nil
	}
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "made":
		s.gv["lock"] = vs[0]
	case "waiting":
		s.cur().gh["wait"] = "1"
		s.cur().gv["spins"] = vint(0)
	case "got":
		s.cur().gh["wait"] = ""
		delete(s.cur().gv, "spins")
		if s.gh["released"] == "" {
			c.flag("exclusion", "Lock returns while the lock is held")
		}
		c.ok("acquire")
	case "release":
		s.gh["released"] = "1"
	case "enter":
		if s.gh["in"] != "" {
			c.flag("exclusion", "two goroutines hold the lock at the same time")
			c.x.stop()
		}
		s.gh["in"] = "1"
		c.ok("exclusion")
	case "leave":
		s.gh["in"] = ""
	}
	return unit()
}

func (m *spinMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

func (m *spinMon) Stuck(c *Ctx) bool {
	c.flag("hang", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

func init() {
	register("C14", []string{"hspin"}, func(r *Run) {
		for _, e := range []string{"Contend", "Wait"} {
			r.explore("hspin", e, &spinMon{}, func(x *Exec) {
				x.interleave = true
				x.checkRT = true
				x.maxDisj = 1000
			})
		}
		for _, k := range []string{"exclusion", "acquire", "assert"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
