package main

import (
	"fmt"
	"strings"
)

// guarded is the lock discipline of one object graph: state that is written
// after construction is accessed only with a lock of the root object held,
// exclusively for writing, and within one critical section per operation.
type guarded struct {
	writes map[string]bool // locations written by operations
	cands  []guardCand
	n      int // accesses judged
}

type guardCand struct {
	loc, rule, construct, pos, msg string
}

// reach collects the objects reachable from the given values.
func (s *State) reach(vs ...Val) map[int]bool {
	seen := map[int]bool{}
	syms := map[int]bool{}
	var visit func(v Val)
	obj := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := s.heap[id]
		visit(o.v)
		for _, e := range o.elems {
			visit(e.v)
			visit(e.key)
		}
		for _, v := range o.gv {
			visit(v)
		}
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case VAddr:
			obj(v.obj)
		case VSlice:
			obj(v.obj)
		case VRef:
			obj(v.obj)
		case VIface:
			visit(v.v)
		case VStruct:
			for _, f := range v.f {
				visit(f)
			}
		case VTuple:
			for _, f := range v.f {
				visit(f)
			}
		case VFunc:
			for _, f := range v.b {
				visit(f)
			}
		case VSym:
			if !syms[v.id] {
				syms[v.id] = true
			}
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return seen
}

// lockMode tells how a lock of the object is held: "", "R" or "W".
func lockMode(o *Obj) string {
	m := ""
	for k, v := range o.gh {
		if strings.HasPrefix(k, "mu") && v != "" {
			if v[0] == 'W' {
				return "W"
			}
			m = "R"
		}
	}
	return m
}

func (g *guarded) loc(s *State, root int, a VAddr) string {
	o := s.heap[a.obj]
	if o.kind == oArr {
		return "elements@" + o.site
	}
	return fmt.Sprintf("%s%v", o.site, a.path)
}

// access judges one load or store; gh["op"] holds while an operation runs.
func (g *guarded) access(c *Ctx, a VAddr, write bool) {
	s := c.s
	r, ok := s.gv["root"].(VAddr)
	if !ok || s.gh["op"] == "" || !s.reach(r)[a.obj] {
		return
	}
	if g.writes == nil {
		g.writes = map[string]bool{}
	}
	g.n++
	loc := g.loc(s, r.obj, a)
	mode := lockMode(s.heap[r.obj])
	add := func(rule, msg string) {
		st := c.x.stack(s)
		pos := ""
		if len(st) > 0 {
			pos = st[0]
		}
		g.cands = append(g.cands, guardCand{loc, rule, c.x.construct(s), pos, msg})
	}
	if write {
		g.writes[loc] = true
		switch mode {
		case "":
			add("lock", "shared state is written without its lock")
		case "R":
			add("lock", "shared state is written under a lock held for reading only")
		}
	} else if mode == "" {
		add("lock", "shared state is read without its lock")
	}
	if mode != "" {
		sec := s.gh["sec"]
		if acc := s.gh["acc:"+loc]; acc != "" && acc != sec {
			add("split", "one operation uses shared state in two separate critical sections")
		}
		s.gh["acc:"+loc] = sec
		if first := s.gh["accsec"]; first != "" && first != sec && write {
			add("split", "one operation uses shared state in two separate critical sections")
		}
		s.gh["accsec"] = sec
	}
}

// sync follows the acquisitions of one operation.
func (g *guarded) sync(c *Ctx, op string, a VAddr) {
	if r, ok := c.s.gv["root"].(VAddr); ok && a.obj == r.obj && (op == "lock" || op == "rlock") {
		c.s.gh["sec"] = fmt.Sprint(atoi(c.s.gh["sec"]) + 1)
	}
}

func (g *guarded) begin(c *Ctx) {
	c.s.gh["op"] = "1"
	c.s.gh["sec"] = ""
}

func (g *guarded) end(c *Ctx) {
	for _, k := range sortedKeys(c.s.gh) {
		if strings.HasPrefix(k, "acc") {
			delete(c.s.gh, k)
		}
	}
	c.s.gh["op"], c.s.gh["sec"] = "", ""
}

// judge reports the accesses that broke the discipline on state that is written.
func (g *guarded) judge(r *Run) {
	bad := false
	for _, c := range g.cands {
		if g.writes[c.loc] {
			r.fail(c.rule, c.construct, c.pos, "%s", c.msg)
			bad = true
		}
	}
	if !bad && g.n > 0 {
		r.w.obl["lock discipline"] += g.n
	}
}
