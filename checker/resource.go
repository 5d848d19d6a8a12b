package main

import (
	"strings"
	"time"
)

// resMon judges xsync.ResourceManager (C20) against the sequential manager.
// gv["cfg"] lists the configurations the manager may be in: the resource
// registered for each key, whether the manager is closed, and one slot per
// goroutine for what its operation has settled on.
type resMon struct{ cmapMon }

const resSlot0 = 3

func (m *resMon) slots(s *State) int { return len(m.cfgs(s)[0].(VTuple).f) - resSlot0 }

func (m *resMon) settle(s *State) {
	work := append([]Val(nil), m.cfgs(s)...)
	seen := map[string]bool{}
	var all []Val
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		k := valKey(VStruct{f.(VTuple).f})
		if seen[k] {
			continue
		}
		seen[k] = true
		all = append(all, f)
		for t := 0; t < cmapSlots; t++ {
			id := string(rune('0' + t))
			slot := resSlot0 + t
			if s.gh["op"+id] == "" || !isNil(f.(VTuple).f[slot]) {
				continue
			}
			k := atoi(s.gh["key"+id])
			closed, _ := asBool(f.(VTuple).f[2])
			switch s.gh["op"+id] {
			case "remove":
				work = append(work, with(with(f, slot, vbool(!isAbsent(f.(VTuple).f[k]))), k, absentVal))
			case "close":
				var taken []Val
				for i := range cmapKeys {
					if r := f.(VTuple).f[i]; !isAbsent(r) {
						taken = append(taken, r)
					}
				}
				g := with(f, slot, VStruct{[]Val{VStruct{taken}, VStruct{}}})
				for i := range cmapKeys {
					g = with(g, i, absentVal)
				}
				work = append(work, with(g, 2, vbool(true)))
			case "get":
				r, ok := s.gv["own"+id]
				if !ok {
					continue
				}
				if closed {
					work = append(work, with(f, slot, VStruct{[]Val{VStruct{[]Val{r}}, VStruct{}}}))
				} else if isAbsent(f.(VTuple).f[k]) {
					work = append(work, with(with(f, k, r), slot, vbool(true)))
				}
			}
		}
	}
	m.set(s, all)
	for t := 0; t < cmapSlots; t++ {
		id := string(rune('0' + t))
		if s.gh["op"+id] != "get" {
			continue
		}
		k := atoi(s.gh["key"+id])
		for _, f := range m.cfgs(s) {
			m.sees(s, id, k, f.(VTuple).f[k])
			if b, _ := asBool(f.(VTuple).f[2]); b {
				s.gh["shut"+id] = "1"
			}
		}
	}
}

func (m *resMon) addErr(s *State, id string, e Val) {
	old, _ := s.gv["errs"+id].(VTuple)
	for _, o := range old.f {
		if valKey(o) == valKey(e) {
			return
		}
	}
	s.gv["errs"+id] = VTuple{append(append([]Val(nil), old.f...), e)}
}

func (m *resMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	s := c.s
	what, _ := c.marks(args)
	arg := func(i int) Val { return c.markIface(args, i) }
	id := c.tidOf()
	if id == "" {
		id = "0"
	}
	others := func(f func(u string)) {
		for t := 0; t < cmapSlots; t++ {
			u := string(rune('0' + t))
			if u != id && s.gh["op"+u] == "get" && s.gh["key"+u] == s.gh["key"+id] {
				f(u)
			}
		}
	}
	switch what {
	case "made":
		f := make([]Val, resSlot0+cmapSlots)
		for i := range f {
			f[i] = VNil{}
		}
		f[0], f[1], f[2] = absentVal, absentVal, vbool(false)
		m.set(s, []Val{VTuple{f}})
	case "begin":
		op, _ := asStr(unbox(arg(0)))
		s.gh["op"+id] = op
		k := keyNo(arg(1))
		if k >= 0 {
			s.gh["key"+id] = string(rune('0' + k))
		}
		if op == "get" {
			others(func(u string) { // it may share what the other one got
				old, _ := s.gv["seen"+u+cmapKeys[k]].(VTuple)
				for _, v := range old.f {
					m.sees(s, id, k, v)
				}
				errs, _ := s.gv["errs"+u].(VTuple)
				for _, e := range errs.f {
					m.addErr(s, id, e)
				}
				if s.gh["rej"+u] != "" {
					s.gh["rej"+id] = "1"
				}
			})
		}
		m.settle(s)
	case "creating":
		k := keyNo(arg(0))
		switch {
		case s.gh["abs"+id+cmapKeys[k]] == "":
			c.flag("create", "a resource is created for a key that has one")
		case s.gh["cr"+cmapKeys[k]] != "":
			c.flag("create", "two resources are being created for one key at the same time")
		default:
			c.ok("create")
		}
		s.gh["cr"+cmapKeys[k]] = "1"
	case "failed", "created":
		delete(s.gh, "cr"+cmapKeys[keyNo(arg(1))])
		if what == "created" {
			s.gv["own"+id] = arg(0)
			m.settle(s)
			break
		}
		s.gv["fail"+id] = arg(0)
		others(func(u string) { m.addErr(s, u, arg(0)) })
		m.addErr(s, id, arg(0))
	case "close":
		m.closes(c, arg(0), arg(1))
	case "end":
		m.finish(c, id, arg)
	case "independent":
		c.ok("independent")
	}
	return unit()
}

// closes judges the closing of r, which fails with e (or nil).
func (m *resMon) closes(c *Ctx, r, e Val) {
	var keep []Val
	for _, f := range m.cfgs(c.s) {
		for t := 0; t < cmapSlots; t++ {
			st, ok := f.(VTuple).f[resSlot0+t].(VStruct)
			if !ok {
				continue
			}
			for i, o := range st.f[0].(VStruct).f {
				if valKey(unbox(o)) != valKey(unbox(r)) {
					continue
				}
				left := append([]Val(nil), st.f[0].(VStruct).f...)
				left = append(left[:i], left[i+1:]...)
				errs := append([]Val(nil), st.f[1].(VStruct).f...)
				if !c.x.equal(c, e, VNil{}, nil) {
					errs = append(errs, e)
				}
				keep = append(keep, with(f, resSlot0+t, VStruct{[]Val{VStruct{left}, VStruct{errs}}}))
				break
			}
		}
	}
	if len(keep) == 0 {
		c.flag("close", "a resource is closed that was closed before, was removed, or is still registered")
		c.x.stop()
	}
	c.ok("close")
	m.set(c.s, keep)
	for t := 0; t < cmapSlots; t++ {
		id := string(rune('0' + t))
		if own, ok := c.s.gv["own"+id]; ok && valKey(unbox(own)) == valKey(unbox(r)) && c.s.gh["shut"+id] != "" {
			// turned down: those that share the call get an error too
			for u := 0; u < cmapSlots; u++ {
				if x := string(rune('0' + u)); c.s.gh["op"+x] == "get" && c.s.gh["key"+x] == c.s.gh["key"+id] {
					c.s.gh["rej"+x] = "1"
				}
			}
		}
	}
}

func (m *resMon) finish(c *Ctx, id string, arg func(int) Val) {
	s := c.s
	op := s.gh["op"+id]
	k := atoi(s.gh["key"+id])
	var keep []Val
	rule, msg := op, ""
	free := func(f Val) Val { return with(f, resSlot0+atoi(id), VNil{}) }
	slot := func(f Val) Val { return f.(VTuple).f[resSlot0+atoi(id)] }
	switch op {
	case "remove":
		msg = "Remove does not tell whether the key was registered"
		for _, f := range m.cfgs(s) {
			if valKey(slot(f)) == valKey(unbox(arg(0))) {
				keep = append(keep, free(f))
			}
		}
	case "close":
		msg = "Close leaves a registered resource open"
		lost := false
		for _, f := range m.cfgs(s) {
			st, ok := slot(f).(VStruct)
			if !ok || len(st.f[0].(VStruct).f) > 0 {
				continue
			}
			errs := st.f[1].(VStruct).f
			good := len(errs) > 0 || c.x.equal(c, arg(0), VNil{}, nil)
			for _, e := range errs {
				if !c.derives(arg(0), sameVal(e)) {
					good = false
				}
			}
			if !good {
				lost = true
				continue
			}
			keep = append(keep, free(f))
		}
		if lost && len(keep) == 0 {
			rule, msg = "report", "Close does not report the failure of a resource it closed"
		}
	case "get":
		own, mine := s.gv["own"+id]
		if c.x.equal(c, arg(1), VNil{}, nil) {
			msg = "Get does not return the resource that is registered for the key"
			if s.gv["fail"+id] != nil {
				rule, msg = "report", "Get succeeds although the creation failed"
				break
			}
			for _, f := range m.cfgs(s) {
				if mine && valKey(slot(f)) != valKey(vbool(true)) || !mine && !isNil(slot(f)) {
					continue
				}
				if mine && valKey(unbox(own)) == valKey(unbox(arg(0))) || !mine && m.sawRes(s, id, k, arg(0)) {
					keep = append(keep, free(f))
				}
			}
			break
		}
		rule, msg = "report", "Get reports an error although nothing failed"
		if mine {
			msg = "Get fails and leaves the resource it created open or registered"
		}
		good := false
		errs, _ := s.gv["errs"+id].(VTuple)
		for _, e := range errs.f {
			if (s.gv["fail"+id] == nil || valKey(s.gv["fail"+id]) == valKey(e)) && c.derives(arg(1), sameVal(e)) {
				good = true
			}
		}
		for _, f := range m.cfgs(s) {
			st, ok := slot(f).(VStruct)
			if mine && ok && len(st.f[0].(VStruct).f) == 0 || !mine && isNil(slot(f)) && (good || s.gh["rej"+id] != "") {
				keep = append(keep, free(f))
			}
		}
	}
	if len(keep) == 0 {
		c.flag(rule, "%s", msg)
		c.x.stop()
	}
	c.ok(op)
	m.set(s, keep)
	for _, k := range append(sortedKeys(s.gh), sortedKeys(s.gv)...) {
		for _, p := range []string{"op", "key", "own", "fail", "errs", "abs", "seen", "shut", "rej"} {
			if strings.HasPrefix(k, p+id) {
				delete(s.gh, k)
				delete(s.gv, k)
			}
		}
	}
}

func (m *resMon) sawRes(s *State, id string, k int, v Val) bool {
	old, _ := s.gv["seen"+id+cmapKeys[k]].(VTuple)
	for _, o := range old.f {
		if valKey(unbox(o)) == valKey(unbox(v)) {
			return true
		}
	}
	return false
}

func init() {
	register("C20", []string{"hres"}, func(r *Run) {
		names := []string{"", "get", "remove", "close"}
		var ts [][]int
		for a := 1; a < 4; a++ {
			for b := 1; b < 4; b++ {
				if a == 3 && b == 3 || b < a {
					continue
				}
				ts = append(ts, []int{a, b, 0, 0, 0})
				if b < 3 {
					ts = append(ts, []int{a, b, 0, 1, 0})
				}
			}
		}
		ts = append(ts, nil, []int{}, []int{1, 2, 1, 0, 1}, []int{1, 3, 2, 0, 1}, []int{1, 1, 3, 1, 1}, []int{1, 3, 1, 0, 1}, []int{1, 1, 1, 0, 1})
		r.parallel(len(ts), func(i int) {
			t := ts[len(ts)-1-i]
			conf := func(x *Exec) {
				x.interleave = true
				x.checkRT = true
				x.budget = 4000000
				x.limit = 800 * time.Second
				x.maxDisj = 1000
				x.quiet = map[string]bool{"made": true, "joined": true, "independent": true, "creating": true, "close": true, "end": true}
				x.trackFn = func(x *Exec, s *State, v Val) bool { return true }
			}
			switch {
			case t == nil:
				r.explore("hres", "Sequence", &resMon{}, func(x *Exec) {
					conf(x)
					x.given = []int{0, 0, 0, 0, 0}
				})
			case len(t) == 0:
				r.explore("hres", "Independent", &resMon{}, conf)
			default:
				r.explore("hres", "Several", &resMon{}, func(x *Exec) {
					conf(x)
					x.given = t
					x.entry = "Several/" + names[t[0]] + "/" + names[t[1]] + "/" + names[t[2]] + []string{"/same", "/other"}[t[3]]
				})
			}
		})
		for _, k := range []string{"create", "close", "get", "remove", "independent"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
