package main

import (
	"fmt"
	"sort"
	"strings"
)

// Remainders by a quantity that is not a constant are opaque to the linear
// domain. The state remembers what they are remainders of, so that two array
// indexes can be compared by the difference of their unreduced forms.

// noteMod records that r == e mod b, with 0 <= r < b.
func (s *State) noteMod(r, e, b Lin) {
	e = s.unreduce(e, b)
	n := 0
	for s.gv[fmt.Sprintf("mod#%d", n)] != nil {
		n++
	}
	s.gv[fmt.Sprintf("mod#%d", n)] = VStruct{[]Val{VInt{r}, VInt{e}, VInt{b}}}
}

// unreduce replaces remainders by b in e by what they are remainders of.
func (s *State) unreduce(e, b Lin) Lin {
	if r, ok := s.modOf(e, b); ok {
		return r
	}
	e = s.num.norm(e)
	for _, t := range append([]lterm(nil), e.t...) {
		if r, ok := s.modOf(ld(t.d), b); ok {
			e = e.subst(t.d, r)
		}
	}
	return e
}

func (s *State) modOf(r, b Lin) (Lin, bool) {
	r = s.num.norm(r)
	for k, v := range s.gv {
		if !strings.HasPrefix(k, "mod#") {
			continue
		}
		f := v.(VStruct).f
		if s.num.norm(f[0].(VInt).E).eq(r) && s.num.entailsEq(f[2].(VInt).E.sub(b)) {
			return f[1].(VInt).E, true
		}
	}
	return Lin{}, false
}

// reduce computes a mod b (a >= 0, b >= 1) by one conditional subtraction
// where a < 2b, or from a known remainder of something at most b away.
func (x *Exec) reduce(s *State, a, b Lin) (Lin, bool) {
	fold := func(v Lin) Lin { // 0 <= v < 2b
		if !x.decide(s, b.sub(v).addc(-1)) {
			v = v.sub(b)
		}
		return v
	}
	if s.num.entails(b.mul(2).sub(a).addc(-1)) {
		return fold(a), true
	}
	u := s.unreduce(a, b)
	for i := 0; ; i++ {
		v, ok := s.gv[fmt.Sprintf("mod#%d", i)]
		if !ok {
			return Lin{}, false
		}
		f := v.(VStruct).f
		if !s.num.entailsEq(f[2].(VInt).E.sub(b)) {
			continue
		}
		r, d := f[0].(VInt).E, u.sub(f[1].(VInt).E)
		s.assume(r) // part of what the fact says, perhaps widened away
		s.assume(b.sub(r).addc(-1))
		if s.num.entails(d) && s.num.entails(b.sub(d)) {
			return fold(r.add(d)), true
		}
		if s.num.entails(d.neg()) && s.num.entails(b.add(d)) {
			return fold(r.add(d).add(b)), true
		}
	}
}

// canonMods keeps the remainders whose value is still in use.
func (c *canon) canonMods(n *State) {
	s := c.s
	type ent struct {
		i    int
		e, b Lin
	}
	var es []ent
	for _, k := range sortedKeys(s.gv) {
		if !strings.HasPrefix(k, "mod#") {
			continue
		}
		f := s.gv[k].(VStruct).f
		r := s.num.norm(f[0].(VInt).E)
		for _, i := range c.elemIdx {
			if s.num.norm(c.exps[i]).eq(r) {
				es = append(es, ent{i, f[1].(VInt).E, f[2].(VInt).E})
			}
		}
		if r.isConst() {
			continue
		}
		for i, x := range c.exps {
			if s.num.norm(x).eq(r) {
				es = append(es, ent{i, f[1].(VInt).E, f[2].(VInt).E})
				break
			}
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].i < es[j].i })
	k, last := 0, -1
	for _, e := range es {
		if e.i == last {
			continue
		}
		last = e.i
		fmt.Fprintf(&c.sb, "\nmod%d:", e.i)
		n.gv[fmt.Sprintf("mod#%d", k)] = VStruct{[]Val{VInt{ld(Dim(e.i + 1))}, VInt{c.lin(e.e)}, VInt{c.lin(e.b)}}}
		k++
	}
}
