package main

// ringMon judges xring (C27).
type ringMon struct {
	NoMon
	g     *guarded
	order bool
}

func (m *ringMon) Load(c *Ctx, a VAddr) (Val, bool) {
	m.g.access(c, a, false)
	return nil, false
}

func (m *ringMon) Store(c *Ctx, a VAddr, v Val)    { m.g.access(c, a, true) }
func (m *ringMon) Sync(c *Ctx, op string, a VAddr) { m.g.sync(c, op, a) }
func (m *ringMon) follow(s *State, v Val) bool {
	y, ok := unbox(v).(VSym)
	return ok && s.syms[y.id].facts["follow"]
}

func (m *ringMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, vs := c.marks(args)
	switch what {
	case "made":
		s.gv["root"] = vs[0]
	case "begin":
		m.g.begin(c)
	case "end":
		m.g.end(c)
	case "accepted":
		c.flag("size", "a size below one is accepted")
	case "follow":
		s.mutSym(vs[0].(VSym).id).facts["follow"] = true
	case "added":
		follow, _ := asBool(vs[0])
		lap(c, follow)
	case "last":
		s.gh["fine"] = "1"
	case "taken":
		size, age := window(c)
		in := age <= size
		n := 0
		if sl, ok := vs[0].(VSlice); ok {
			for _, e := range s.heap[sl.obj].elems {
				if !m.follow(s, e.v) {
					continue
				}
				i := e.idx.sub(sl.off)
				if !s.num.entails(i) || !s.num.entails(sl.len.sub(i).addc(-1)) {
					continue
				}
				n++
				if m.order && !s.num.entailsEq(i.addc(int64(age-size))) {
					c.flag("order", "the items are not returned oldest first")
				}
			}
		}
		switch {
		case in && n == 0:
			c.flag("items", "one of the last n items added is missing from the snapshot")
		case in && n > 1:
			c.flag("items", "an item is in the snapshot twice")
		case !in && n > 0:
			c.flag("items", "an item older than the last n is still in the snapshot")
		case in:
			c.ok("item present")
		default:
			c.ok("item absent")
		}
	case "fresh":
		sl, ok := vs[0].(VSlice)
		if !ok || s.num.entailsEq(sl.cap) {
			return unit()
		}
		if s.reach(s.gv["root"])[sl.obj] {
			c.flag("isolation", "the snapshot shares its elements with the ring")
		}
		for _, k := range sortedKeys(s.gv) {
			if len(k) > 2 && k[:2] == "g:" && s.reach(s.gv[k])[sl.obj] {
				c.flag("isolation", "the snapshot shares its elements with a package variable")
			}
		}
		if o, ok := vs[1].(VSlice); ok && o.obj == sl.obj {
			c.flag("isolation", "two snapshots share their elements")
		}
		c.ok("isolation")
	}
	return unit()
}

func (m *ringMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil && c.x.entry != "Reject" {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

func (m *ringMon) Stuck(c *Ctx) bool {
	c.flag("hang", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

func init() {
	register("C27", []string{"hring"}, func(r *Run) {
		g := &guarded{}
		m := &ringMon{g: g, order: true}
		run := func(e string, conf func(x *Exec)) {
			r.explore("hring", e, m, func(x *Exec) {
				x.checkRT = true
				x.trackFn = func(x *Exec, s *State, v Val) bool { return m.follow(s, v) }
				conf(x)
			})
		}
		for _, e := range []string{"Reject", "Length", "Apart"} {
			run(e, func(*Exec) {})
		}
		for n := 1; n <= tailBound(r); n++ {
			run("Laps", func(x *Exec) { x.given, x.maxDisj = []int{n}, 1 })
		}
		g.judge(r)
		r.need("snapshots with the followed item", r.w.obl["item present"], 1)
		r.need("snapshots without it", r.w.obl["item absent"], 1)
		r.need("isolation", r.w.obl["isolation"], 1)
		r.need("length obligations", r.w.obl["assert"], 1)
		r.need("guarded accesses", g.n, 4)
	})
}
