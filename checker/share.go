package main

import "strings"

// share is the non-interference rule: a variable captured by a goroutine is
// not written by its other holders, and what a goroutine writes is not used
// by them, before the goroutine was joined. It justifies exploring one
// interleaving of goroutines that otherwise interact through channels, wait
// groups, locks and atomics only.
type share struct{}

func (share) spawn(c *Ctx, t *Thread, fn Val, args []Val) {
	var vs []Val
	if f, ok := fn.(VFunc); ok {
		vs = append(vs, f.b...)
	}
	vs = append(vs, args...)
	for i := 0; i < len(vs) && i < 100; i++ {
		if f, ok := vs[i].(VFunc); ok {
			vs = append(vs, f.b...)
		}
	}
	for _, v := range vs {
		if a, ok := v.(VAddr); ok && c.s.heap[a.obj].kind == oCell && !c.s.heap[a.obj].ext && !strings.HasPrefix(c.s.heap[a.obj].site, "global") {
			n := c.s.mut(a.obj)
			n.gh["cap"] = addTag(n.gh["cap"], t.gh["id"])
		}
	}
}

func addTag(set, tag string) string {
	if hasTag(set, tag) {
		return set
	}
	return set + "," + tag
}

func hasTag(set, tag string) bool {
	for _, s := range strings.Split(set, ",") {
		if s != "" && s == tag {
			return true
		}
	}
	return false
}

func (share) me(c *Ctx) string { return "" + c.s.cur().gh["id"] }

func (h share) store(c *Ctx, a VAddr) bool {
	o := c.s.heap[a.obj]
	if o.gh["cap"] == "" && o.gh["cw"] == "" || c.s.cur().gh["held"] != "" {
		return true
	}
	me := h.me(c)
	if o.gh["cw"] != "" && o.gh["cw"] != me {
		return false
	}
	for _, g := range strings.Split(o.gh["cap"], ",") {
		if g != "" && g != me {
			return false
		}
	}
	if hasTag(o.gh["cap"], me) && o.gh["cw"] == "" {
		c.s.mut(a.obj).gh["cw"] = me
	}
	return true
}

func (h share) load(c *Ctx, a VAddr) bool {
	o := c.s.heap[a.obj]
	return o.gh["cw"] == "" || o.gh["cw"] == h.me(c) || c.s.cur().gh["held"] != ""
}

func (h share) end(c *Ctx, t *Thread) {
	id := t.gh["id"]
	if id == "" {
		return
	}
	for k, o := range c.s.heap {
		if o.gh["cw"] == id {
			c.s.mut(k).gh["cw"] = "x"
		}
		if hasTag(o.gh["cap"], id) {
			n := c.s.mut(k)
			var out string
			for _, g := range strings.Split(n.gh["cap"], ",") {
				if g == id {
					g = "x"
				}
				if g != "" {
					out = addTag(out, g)
				}
			}
			n.gh["cap"] = out
		}
	}
}

// join forgets what was captured: the goroutines have been waited for.
func (h share) join(c *Ctx) {
	for k, o := range c.s.heap {
		if o.gh["cw"] != "" || o.gh["cap"] != "" {
			n := c.s.mut(k)
			n.gh["cw"], n.gh["cap"] = "", ""
		}
	}
}
