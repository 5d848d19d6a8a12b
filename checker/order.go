package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// The order of emitted elements (C37). The stream has a tracked element D at
// an arbitrary position and, for Sort, another one E.

// less answers the user's comparison.
func (m *streamMon) less(c *Ctx, a, b Val) Val {
	s := c.s
	d, e := s.gv["D"], s.gv["E"]
	is := func(v, t Val) bool { return t != nil && valKey(unbox(v)) == valKey(t) }
	switch {
	case is(a, d) && is(b, d), is(a, e) && is(b, e):
		return vbool(false)
	case is(a, d) && is(b, e):
		return vbool(m.smaller(c))
	case is(a, e) && is(b, d):
		if m.smaller(c) {
			return vbool(false)
		}
	}
	return nil
}

// smaller: D is less than E.
func (m *streamMon) smaller(c *Ctx) bool {
	if c.s.gh["smaller"] == "" {
		c.s.gh["smaller"] = []string{"yes", "no"}[c.x.choose(c.s, 2)]
	}
	return c.s.gh["smaller"] == "yes"
}

// sortPos is the index of a tracked element in what is sorted.
func (m *streamMon) sortPos(c *Ctx, x Val, k int) Val {
	s := c.s
	if m.p != "C37" {
		return nil
	}
	t := s.gv[[]string{"D", "E"}[k]]
	if t == nil {
		return nil
	}
	if sl, ok := unbox(x).(VSlice); ok {
		for _, e := range s.heap[sl.obj].elems {
			if e.v != nil && valKey(unbox(e.v)) == valKey(t) && c.x.decide(s, e.idx.sub(sl.off)) && c.x.decide(s, sl.off.add(sl.len).sub(e.idx).addc(-1)) {
				return VInt{e.idx.sub(sl.off)}
			}
		}
		return nil
	}
	for _, o := range s.heap {
		if o.kind != oArr || o.ext {
			continue
		}
		for _, e := range o.elems {
			if e.v != nil && valKey(unbox(e.v)) == valKey(t) {
				return VInt{e.idx}
			}
		}
	}
	return nil
}

func (m *streamMon) order(c *Ctx, id int, v Val) {
	s := c.s
	y, ok := unbox(v).(VSym)
	if !ok || s.syms[y.id].tag != "D" && s.syms[y.id].tag != "E" && s.syms[y.id].tag != "item" {
		c.flag("provenance", "something that is no element of the stream is emitted (%s)", s.show(v))
		return
	}
	sent := s.gv["sent"].(VInt).E
	s.gv["sent"] = VInt{sent.addc(1)}
	tag := s.syms[y.id].tag
	if tag == "item" {
		return
	}
	if s.gh["out"+tag] != "" {
		c.fail("order", "an element is emitted twice")
	}
	s.gh["out"+tag] = "1"
	at := s.newDim() // helps the join to remember what follows
	s.assumeEq(at.sub(sent))
	s.gv["at"+tag] = VInt{at}
	if m.e == "Sort" {
		if tag == "D" && s.gh["outE"] != "" {
			if m.smaller(c) {
				c.flag("order", "an element is emitted before one that is less")
			} else {
				c.ok("order")
			}
		}
		return
	}
	if !m.srcClosed(c) {
		c.flag("order", "an element is emitted before the stream ended")
		return
	}
	var want Lin
	if m.e == "Reverse" {
		want = s.gv["pos"].(VInt).E.sub(s.gv["Dpos"].(VInt).E).addc(-1)
	} else {
		size, age := window(c)
		if age > size {
			c.flag("order", "an element before the last n is emitted")
			return
		}
		want = lc(int64(size - age))
	}
	if !s.num.entailsEq(sent.sub(want)) {
		c.flag("order", "an element is emitted at another position than its own")
	} else {
		c.ok("order")
	}
}

// window is how many elements a window of the last n holds, and which of them,
// from the newest, D is.
func window(c *Ctx) (size, age int) {
	size, _ = strconv.Atoi(c.s.gh["phase"])
	if c.s.gh["lapped"] != "" {
		size = c.x.given[0]
	}
	age, _ = strconv.Atoi(c.s.gh["age"])
	return
}

// lap counts the elements that went into a window of n as lap*n + phase, and
// the age of D (1 for the newest) as far as n+1, in the discrete state: what
// has to come out in a state of a given phase and age does not depend on the
// lap any more. It returns the count.
func lap(c *Ctx, present bool) Lin {
	s := c.s
	n := c.x.given[0]
	phase, _ := strconv.Atoi(s.gh["phase"])
	lap, ok := s.gv["alap"].(VInt)
	if !ok {
		lap = VInt{}
	}
	if phase++; phase == n {
		phase = 0
		d := s.newDim()
		s.assumeEq(d.sub(lap.E).addc(-1))
		lap = VInt{d}
		s.gh["lapped"] = "1"
	}
	s.gh["phase"] = strconv.Itoa(phase)
	s.gv["alap"] = lap
	if present {
		age, _ := strconv.Atoi(s.gh["age"])
		if age <= n {
			age++
		}
		if age > n { // how far D is behind the window
			b, _ := s.gv["abehind"].(VInt)
			d := s.newDim()
			s.assumeEq(d.sub(b.E).addc(-1))
			s.gv["abehind"] = VInt{d}
		}
		s.gh["age"] = strconv.Itoa(age)
	}
	return lap.E.mul(int64(n)).addc(int64(phase))
}

func tailBound(r *Run) int {
	if r.thorough() {
		return 16
	}
	return 6
}

// pair: something is delivered to one receiver (a channel or, with
// id 0, the callback). E came after D.
func (m *streamMon) pair(c *Ctx, id int, v Val) {
	s := c.s
	g := s.gh
	if id != 0 {
		g = s.mut(id).gh
	}
	var at [2]*Lin
	if sl, ok := unbox(v).(VSlice); ok {
		for _, e := range s.heap[sl.obj].elems {
			i := e.idx.sub(sl.off)
			for k, t := range []string{"D", "E"} {
				if s.gv[t] != nil && e.v != nil && valKey(unbox(e.v)) == valKey(s.gv[t]) && c.x.decide(s, i) && c.x.decide(s, sl.len.sub(i).addc(-1)) {
					at[k] = &i
				}
			}
		}
	} else {
		for k, t := range []string{"D", "E"} {
			if s.gv[t] != nil && valKey(unbox(v)) == valKey(s.gv[t]) {
				at[k] = &Lin{}
			}
		}
	}
	first, last := 0, 1
	if m.e == "ForeachOrdered" {
		first, last = 1, 0
	}
	if at[first] != nil && g["outlast"] != "" || at[0] != nil && at[1] != nil && !s.num.entails(at[last].sub(*at[first]).addc(-1)) {
		c.flag("order", "an element overtakes an earlier one")
	} else if at[0] != nil || at[1] != nil {
		c.ok("order")
	}
	if at[last] != nil {
		g["outlast"] = "1"
	}
	switch {
	case at[first] != nil:
		g["outfirst"] = "1"
		if id == 0 {
			s.cur().gh["dlv"] = "1"
		}
		for k := 0; id != 0; k++ {
			key := fmt.Sprintf("dlv%d", k)
			if _, ok := s.cur().gv[key]; !ok {
				s.cur().gv[key] = VRef{id}
				break
			}
		}
	case at[last] != nil && g["outfirst"] != "" && (id != 0 || s.cur().gh["dlv"] == ""):
		for k, v := range s.cur().gv {
			if strings.HasPrefix(k, "dlv") && v.(VRef).obj == id {
				return
			}
		}
		c.flag("order", "two goroutines deliver elements, in whatever order they get to run")
	}
}

// listed is the item at idx of the list given to Of.
func (m *streamMon) listed(c *Ctx, T types.Type, idx Lin) Val {
	s := c.s
	opts := []string{"item"}
	for _, t := range []string{"D", "E"} {
		if s.gh[t] == "" {
			opts = append(opts, t)
		}
	}
	t := opts[c.x.choose(s, len(opts))]
	v := s.newSym(T, t)
	if t == "item" {
		return v
	}
	s.gh[t] = "1"
	s.gv[t] = v
	s.gv["p"+t] = VInt{idx}
	if d, ok := s.gv["pD"].(VInt); ok {
		if e, ok := s.gv["pE"].(VInt); ok {
			c.x.must(s, e.E.sub(d.E).addc(-1))
		}
	}
	return v
}

func (m *streamMon) endOrder(c *Ctx) {
	s := c.s
	if m.kind == "pair" {
		return
	}
	if s.gh["mainpanic"] != "" || s.gh["D"] == "" || s.gh["outD"] != "" {
		return
	}
	if m.e == "Reverse" || m.e == "Sort" {
		c.flag("order", "an element is lost")
		return
	}
	if size, age := window(c); age <= size {
		c.flag("order", "one of the last n elements is lost")
	} else {
		c.ok("order")
	}
}

// ended: the stream has been received completely. What is not linear in the
// position of D becomes part of the discrete state.
func (m *streamMon) ended(c *Ctx) {
	s := c.s
	if m.e == "TailGiven" {
		s.gh["fine"] = "1" // from here on everything is bounded by n
	}
	if s.gh["D"] == "" || s.gh["half"] != "" {
		return
	}
	if m.e != "Reverse" {
		return
	}
	mid := s.gv["pos"].(VInt).E.addc(-1).sub(s.gv["Dpos"].(VInt).E.mul(2))
	switch {
	case c.x.decideEq(s, mid):
		s.gh["half"] = "middle"
	case c.x.decide(s, mid):
		s.gh["half"] = "first"
	default:
		s.gh["half"] = "second"
	}
}

// placed: D is written into an array.
func (m *streamMon) placed(c *Ctx, idx Lin) {
	s := c.s
	if m.e != "Reverse" || s.gh["half"] == "" {
		return
	}
	dp, total := s.gv["Dpos"].(VInt).E, s.gv["pos"].(VInt).E
	switch {
	case s.num.entailsEq(idx.sub(dp)):
		s.gh["at"] = "own"
		s.assumeEq(idx.sub(dp))
	case s.num.entailsEq(idx.add(dp).sub(total).addc(1)):
		s.gh["at"] = "opposite"
		s.assumeEq(idx.add(dp).sub(total).addc(1))
	default:
		s.gh["at"] = "other"
	}
}
