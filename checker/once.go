package main

// onceMon judges xonce (C13).
type onceMon struct{ NoMon }

// win records the value the cell must hold from now on.
func (m *onceMon) win(c *Ctx, v Val, rule, msg string) {
	if w, ok := c.s.gv["win"]; ok {
		if valKey(w) != valKey(v) {
			c.flag(rule, "%s", msg)
		} else {
			c.ok(rule)
		}
		return
	}
	c.s.gv["win"] = v
}

func (m *onceMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, _ := c.marks(args)
	arg := func(i int) Val {
		v := c.markIface(args, i)
		if i == 0 {
			return v
		}
		return unbox(v)
	}
	switch what {
	case "begin":
		// every value comes from one write only
		s.gv["w"+c.tidOf()] = arg(0)
	case "wrote", "late":
		if b, ok := asBool(arg(1)); !ok {
			c.flag("result", "the result of Write is not decided")
		} else if b {
			if what == "late" || s.gh["won"] != "" {
				c.flag("once", "a second write reports success")
			}
			s.gh["won"] = "1"
			m.win(c, arg(0), "holds", "the value held is not that of the successful write")
			c.ok("once")
		} else {
			c.ok("refused")
		}
	case "joined":
		if s.gh["won"] == "" {
			c.flag("once", "no write succeeds")
		}
	case "unset":
		if !c.x.equal(c, arg(0), VNil{}, nil) {
			c.flag("holds", "a cell that was never written has a value")
		}
	case "reading":
		s.gh["early"] = ""
		if s.gh["won"] == "" {
			s.gh["early"] = "1"
		}
	case "read":
		if s.gh["early"] != "" && isNil(arg(0)) {
			return unit() // not written yet
		}
		m.from(c, arg(0))
		m.win(c, arg(0), "holds", "the value of the cell is not that of the successful write")
	case "recv":
		if b, _ := asBool(arg(1)); !b {
			c.flag("deliver", "the channel is closed without having delivered a value")
			return unit()
		}
		m.from(c, arg(0))
		m.win(c, arg(0), "deliver", "the value delivered is not that of the successful write")
	case "closed":
		if b, _ := asBool(arg(1)); b {
			c.flag("deliver", "the channel delivers a second value")
		} else {
			c.ok("closed")
		}
	}
	return unit()
}

// from checks that a value read is one that was written.
func (m *onceMon) from(c *Ctx, v Val) {
	for k, w := range c.s.gv {
		if len(k) == 2 && k[0] == 'w' && valKey(w) == valKey(v) {
			return
		}
	}
	if w, ok := c.s.gv["win"]; ok && valKey(w) == valKey(v) {
		return
	}
	c.flag("holds", "a value comes out that was never written")
}

func (m *onceMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

func (m *onceMon) Stuck(c *Ctx) bool {
	c.flag("blocked", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

func init() {
	register("C13", []string{"honce"}, func(r *Run) {
		for _, e := range []string{"Value", "ChanAlone", "ChanReader"} {
			r.explore("honce", e, &onceMon{}, func(x *Exec) {
				x.interleave = true
				x.checkRT = true
				x.maxDisj = 1000
				x.quiet = map[string]bool{"begin": true, "recv": true, "closed": true, "unset": true}
			})
		}
		for _, k := range []string{"once", "refused", "holds", "deliver", "closed"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
