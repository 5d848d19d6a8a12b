package main

import (
	"sort"
	"strings"
	"time"
)

// cmapMon judges xsync.Map (C16, C17, C18) against the sequential map: it
// keeps every content the map may have and, for each operation under way,
// every result it may already have settled on. gv["cfg"] is the list of these
// configurations: the values of the keys, then one slot per goroutine.
type cmapMon struct {
	NoMon
	only string // "race": results are not judged
}

var cmapKeys = []string{"a", "b"}

const cmapSlots = 4

var absentVal = vstr("(absent)")

// future stands for the value goroutine t computes.
func future(t int) Val { return vstr("(future " + string(rune('0'+t)) + ")") }

// futureOf tells whose value v stands for.
func futureOf(v Val) string {
	for t := 0; t < cmapSlots; t++ {
		if valKey(v) == valKey(future(t)) {
			return string(rune('0' + t))
		}
	}
	return ""
}

func isAbsent(v Val) bool { return valKey(v) == valKey(absentVal) }

func (m *cmapMon) TrackKey(c *Ctx, id int, key, val Val) bool { return true }

func (m *cmapMon) MapLen(c *Ctx, v Val) Val {
	r, ok := v.(VRef)
	if !ok || !c.s.heap[r.obj].zero {
		return nil
	}
	n := int64(0)
	for _, e := range c.s.heap[r.obj].elems {
		if e.v != nil {
			n++
		}
	}
	return vint(n)
}

func (m *cmapMon) cfgs(s *State) []Val { return s.gv["cfg"].(VTuple).f }

func (m *cmapMon) set(s *State, cfgs []Val) {
	seen := map[string]bool{}
	var out []Val
	for _, f := range cfgs {
		if k := valKey(VStruct{f.(VTuple).f}); !seen[k] {
			seen[k] = true
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return valKey(VStruct{out[i].(VTuple).f}) < valKey(VStruct{out[j].(VTuple).f}) })
	s.gv["cfg"] = VTuple{out}
}

func with(f Val, i int, v Val) VTuple {
	n := append([]Val(nil), f.(VTuple).f...)
	n[i] = v
	return VTuple{n}
}

func keyNo(v Val) int {
	s, _ := asStr(unbox(v))
	for i, k := range cmapKeys {
		if k == s {
			return i
		}
	}
	return -1
}

// apply is the sequential meaning of the operation of goroutine t in f; ok
// tells whether it can take effect now.
func (m *cmapMon) apply(s *State, t int, f Val) (Val, bool) {
	id := string(rune('0' + t))
	op := s.gh["op"+id]
	slot := len(cmapKeys) + t
	get := func(k int) Val { return f.(VTuple).f[k] }
	done := func(f Val, v Val, ok bool) (Val, bool) {
		return with(f, slot, VStruct{[]Val{v, vbool(ok)}}), true
	}
	k := atoi(s.gh["key"+id])
	arg := s.gv["arg"+id]
	switch op {
	case "load":
		if isAbsent(get(k)) {
			return done(f, VNil{}, false)
		}
		return done(f, get(k), true)
	case "store":
		return done(with(f, k, arg), VNil{}, false)
	case "loadorstore":
		if isAbsent(get(k)) {
			return done(with(f, k, arg), arg, false)
		}
		return done(f, get(k), true)
	case "loadanddelete":
		if isAbsent(get(k)) {
			return done(f, VNil{}, false)
		}
		return done(with(f, k, absentVal), get(k), true)
	case "delete":
		return done(with(f, k, absentVal), VNil{}, false)
	case "absent":
		if !isAbsent(get(k)) {
			return done(f, get(k), true)
		}
		// the value is only known later
		return done(with(f, k, future(t)), future(t), false)
	case "present":
		if isAbsent(get(k)) {
			return done(f, VNil{}, false)
		}
		g := with(f, k, future(t))
		return with(g, slot, VStruct{[]Val{future(t), vbool(true), get(k)}}), true
	case "range":
		return nil, false
	}
	return nil, false
}

// settle adds the configurations in which pending operations took effect.
func (m *cmapMon) settle(s *State) {
	work := append([]Val(nil), m.cfgs(s)...)
	seen := map[string]bool{}
	var all []Val
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if k := valKey(VStruct{f.(VTuple).f}); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		all = append(all, f)
		for t := 0; t < cmapSlots; t++ {
			if s.gh["op"+string(rune('0'+t))] != "" && isNil(f.(VTuple).f[len(cmapKeys)+t]) {
				if g, ok := m.apply(s, t, f); ok {
					work = append(work, g)
				}
			}
			if s.gh["op"+string(rune('0'+t))] == "clear" {
				// key by key, in any order
				for k := range cmapKeys {
					slot := len(cmapKeys) + t
					done := make([]Val, len(cmapKeys))
					for i := range done {
						done[i] = vbool(false)
						if r, ok := f.(VTuple).f[slot].(VStruct); ok {
							done[i] = r.f[i]
						}
					}
					if b, _ := asBool(done[k]); !b {
						done[k] = vbool(true)
						work = append(work, with(with(f, k, absentVal), slot, VStruct{done}))
					}
				}
			}
		}
	}
	m.set(s, all)
	// what the operations that may look at several states can see
	for t := 0; t < cmapSlots; t++ {
		id := string(rune('0' + t))
		if op := s.gh["op"+id]; op != "range" && op != "absent" && op != "present" {
			continue
		}
		for k := range cmapKeys {
			for _, f := range m.cfgs(s) {
				m.sees(s, id, k, f.(VTuple).f[k])
			}
		}
	}
}

func (m *cmapMon) sees(s *State, id string, k int, v Val) {
	if isAbsent(v) {
		s.gh["abs"+id+cmapKeys[k]] = "1"
		return
	}
	if !m.saw(s, id, k, v) {
		n := "seen" + id + cmapKeys[k]
		old, _ := s.gv[n].(VTuple)
		s.gv[n] = VTuple{append(append([]Val(nil), old.f...), v)}
	}
}

func (m *cmapMon) saw(s *State, id string, k int, v Val) bool {
	old, _ := s.gv["seen"+id+cmapKeys[k]].(VTuple)
	for _, o := range old.f {
		if valKey(o) == valKey(v) {
			return true
		}
		if u := futureOf(o); u != "" {
			if out, ok := s.gv["out"+u]; ok && valKey(out) == valKey(v) {
				return true
			}
		}
	}
	return false
}

func (m *cmapMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	if m.only == "race" {
		return unit()
	}
	s := c.s
	what, _ := c.marks(args)
	arg := func(i int) Val { return c.markIface(args, i) }
	id := c.tidOf()
	if id == "" {
		id = "0"
	}
	switch what {
	case "made":
		f := make([]Val, len(cmapKeys)+cmapSlots)
		for i := range f {
			f[i] = VNil{}
			if i < len(cmapKeys) {
				f[i] = absentVal
			}
		}
		m.set(s, []Val{VTuple{f}})
	case "begin":
		op, _ := asStr(unbox(arg(0)))
		s.gh["op"+id] = op
		if k := keyNo(arg(1)); k >= 0 {
			s.gh["key"+id] = string(rune('0' + k))
		}
		if op == "store" || op == "loadorstore" {
			s.gv["arg"+id] = arg(2)
		}
		m.settle(s)
	case "computed":
		op := s.gh["op"+id]
		k := atoi(s.gh["key"+id])
		if keyNo(arg(1)) != k {
			c.flag("compute", "a compute function is called for another key")
		}
		if op == "absent" {
			if s.gh["abs"+id+cmapKeys[k]] == "" {
				c.flag("compute", "ComputeIfAbsent calls the function although the key is present")
			} else {
				c.ok("compute")
			}
		} else {
			if !m.saw(s, id, k, arg(2)) {
				c.flag("compute", "ComputeIfPresent calls the function with a value the key does not have")
			} else {
				c.ok("compute")
			}
			s.gv["in"+id] = arg(2)
		}
		s.gv["out"+id] = arg(0)
		m.settle(s)
	case "visit":
		k := keyNo(arg(1))
		switch {
		case k < 0 || s.gh["vis"+id+cmapKeys[k]] != "":
			c.flag("range", "Range visits a key twice, or one that was never stored")
		case s.gh["stop"+id] != "":
			c.flag("range", "Range goes on after its function asked it to stop")
		case !m.saw(s, id, k, arg(0)):
			c.flag("range", "Range shows a value the key did not have while it ran")
		default:
			c.ok("range")
		}
		if k >= 0 {
			s.gh["vis"+id+cmapKeys[k]] = "1"
		}
	case "stop":
		s.gh["stop"+id] = "1"
	case "end":
		m.finish(c, id, arg(0), unbox(arg(1)))
	}
	return unit()
}

// resolve replaces the value goroutine u has yet to compute by v.
func (m *cmapMon) resolve(s *State, f Val, u string, v Val) (Val, bool) {
	out, ok := s.gv["out"+u]
	if !ok || valKey(out) != valKey(v) {
		return nil, false
	}
	r, _ := f.(VTuple).f[len(cmapKeys)+atoi(u)].(VStruct)
	if len(r.f) == 3 {
		in := s.gv["in"+u]
		if w := futureOf(r.f[2]); w != "" {
			g, ok := m.resolve(s, f, w, in)
			if !ok {
				return nil, false
			}
			f = g
		} else if valKey(in) != valKey(r.f[2]) {
			return nil, false
		}
	}
	k := valKey(future(atoi(u)))
	n := append([]Val(nil), f.(VTuple).f...)
	for i, x := range n {
		if valKey(x) == k {
			n[i] = v
		}
		if st, ok := x.(VStruct); ok {
			st = VStruct{append([]Val(nil), st.f...)}
			for j := range st.f {
				if valKey(st.f[j]) == k {
					st.f[j] = v
				}
			}
			n[i] = st
		}
	}
	return VTuple{n}, true
}

// finish judges the result of an operation.
func (m *cmapMon) finish(c *Ctx, id string, v, ok Val) {
	s := c.s
	op := s.gh["op"+id]
	slot := len(cmapKeys) + atoi(id)
	if op == "range" {
		if s.gh["stop"+id] == "" {
			for _, k := range cmapKeys {
				if s.gh["vis"+id+k] == "" && s.gh["abs"+id+k] == "" {
					c.flag("range", "Range does not visit a key that is in the map all the time")
				}
			}
		}
		c.ok("range")
	} else {
		if _, dec := asBool(ok); !dec {
			c.flag("result", "the result of %s is not decided", op)
			c.x.stop()
		}
		var keep []Val
		for _, f := range m.cfgs(s) {
			r, done := f.(VTuple).f[slot].(VStruct)
			if op == "clear" {
				for i := range cmapKeys {
					if !done {
						break
					}
					if b, _ := asBool(r.f[i]); !b {
						done = false
					}
				}
				if done {
					keep = append(keep, with(f, slot, VNil{}))
				}
				continue
			}
			if !done || valKey(r.f[1]) != valKey(ok) {
				continue
			}
			if u := futureOf(r.f[0]); u != "" && v != nil {
				// the value computed by goroutine u, from what it replaces
				g, ok := m.resolve(s, f, u, v)
				if !ok {
					continue
				}
				f = g
			} else if v != nil && valKey(r.f[0]) != valKey(v) {
				continue
			}
			keep = append(keep, with(f, slot, VNil{}))
		}
		if len(keep) == 0 {
			c.flag("atomic", "%s", mapMsg[op])
			c.x.stop()
		}
		c.ok("atomic")
		m.set(s, keep)
	}
	if out, ok := s.gv["out"+id]; ok {
		// what others saw of the computed value
		for k, l := range s.gv {
			if strings.HasPrefix(k, "seen") {
				n := append([]Val(nil), l.(VTuple).f...)
				for i := range n {
					if futureOf(n[i]) == id {
						n[i] = out
					}
				}
				s.gv[k] = VTuple{n}
			}
		}
	}
	for _, k := range append(sortedKeys(s.gh), sortedKeys(s.gv)...) {
		for _, p := range []string{"op", "key", "arg", "in", "out", "abs", "seen", "vis", "stop"} {
			if strings.HasPrefix(k, p+id) {
				delete(s.gh, k)
				delete(s.gv, k)
			}
		}
	}
}

var mapMsg = map[string]string{
	"load":          "Load returns what the key did not hold at any time while it ran",
	"store":         "Store reports something impossible",
	"loadorstore":   "LoadOrStore neither stored its value nor returned the one present",
	"loadanddelete": "LoadAndDelete returns something else than what it deleted",
	"delete":        "Delete reports something impossible",
	"absent":        "ComputeIfAbsent neither stored the computed value nor returned the one present",
	"present":       "ComputeIfPresent did not replace the value it computed from, or reports something else",
	"clear":         "Clear reports something impossible",
}

func (m *cmapMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

func (m *cmapMon) Stuck(c *Ctx) bool {
	c.flag("hang", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

// mapOps are the operations of harness hmap.
var mapOps = []string{"load", "store", "loadorstore", "loadanddelete", "absent", "present", "delete", "clear", "range"}

func (r *Run) mapPairs(sel func(a, b, other int) bool, seq bool, mon cmapMon) {
	type task struct{ a, b, other int }
	var ts []task
	for a := range mapOps {
		for b := range mapOps {
			if b < a {
				continue
			}
			if sel(a, b, 0) {
				ts = append(ts, task{a, b, 0})
			}
			if a < 7 && b < 7 && sel(a, b, 1) {
				ts = append(ts, task{a, b, 1})
			}
		}
	}
	conf := func(x *Exec) {
		x.interleave = true
		x.checkRT = true
		x.race = mon.only == "race"
		x.budget = 4000000
		x.limit = 800 * time.Second
		x.maxDisj = 1000
		x.quiet = map[string]bool{"end": true, "computed": true, "visit": true, "stop": true, "made": true, "joined": true}
	}
	if seq {
		ts = append(ts, task{-1, 0, 0})
	}
	r.parallel(len(ts), func(i int) {
		t := ts[len(ts)-1-i]
		entry := "Pair"
		if mon.only == "race" {
			entry = "Both"
		}
		m := mon
		if t.a < 0 {
			r.explore("hmap", "Sequence", &m, conf)
			return
		}
		r.explore("hmap", entry, &m, func(x *Exec) {
			conf(x)
			x.given = []int{t.a, t.b, t.other}
			x.entry = entry + "/" + mapOps[t.a] + "/" + mapOps[t.b] + []string{"/same", "/other"}[t.other]
		})
	})
}

func init() {
	all := func(a, b, other int) bool { return true }
	register("C16", []string{"hmap"}, func(r *Run) {
		r.mapPairs(all, false, cmapMon{only: "race"})
		r.need("accesses judged", r.w.obl["race"], 1000)
	})
	register("C17", []string{"hmap"}, func(r *Run) {
		r.mapPairs(func(a, b, other int) bool { return other == 0 && a < 8 && b < 8 }, true, cmapMon{})
		for _, k := range []string{"atomic", "compute"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
	register("C18", []string{"hmap"}, func(r *Run) {
		r.mapPairs(all, true, cmapMon{})
		for _, k := range []string{"atomic", "range"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
