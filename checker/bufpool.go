package main

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// bufMon judges xio (C25): who owns which bufio object; what they are bound
// to is asserted by the harness.
type bufMon struct {
	NoMon
	poolStore
	maps cmapMon
}

func (m *bufMon) TrackKey(c *Ctx, id int, key, val Val) bool { return true }
func (m *bufMon) MapLen(c *Ctx, v Val) Val                   { return m.maps.MapLen(c, v) }

func (m *bufMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	if fn.String() == "(*sync.Pool).Put" {
		return vShim{"buf pool put"}, true
	}
	return nil, false
}

func (m *bufMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	s := c.s
	switch name {
	case "poolTake":
		return m.take(c, args[0])
	case "poolGive":
		m.put(c, args[0], args[1])
		return unit()
	case "Mark":
	default:
		return nil
	}
	what, vs := c.marks(args)
	obj := func(v Val) int {
		if a, ok := unbox(v).(VAddr); ok {
			return a.obj
		}
		return -1
	}
	id := obj(vs[0])
	switch what {
	case "got":
		if id < 0 {
			c.flag("owner", "no object is handed out")
			return unit()
		}
		if id == obj(vs[1]) {
			c.flag("owner", "what is handed out is the caller's own stream")
		}
		for _, k := range sortedKeys(s.gv) {
			if strings.HasPrefix(k, "live#") && obj(s.gv[k]) == id {
				c.flag("owner", "an object is handed out that is still in use")
			}
		}
		if s.reach(pooledItems(s)...)[id] {
			c.flag("owner", "an object is handed out that is still in a pool")
		}
		c.ok("owner")
		for i := 0; ; i++ {
			k := fmt.Sprintf("live#%d", i)
			if _, ok := s.gv[k]; !ok {
				s.gv[k] = vs[0]
				break
			}
		}
	case "give":
		for _, k := range sortedKeys(s.gv) {
			if strings.HasPrefix(k, "live#") && obj(s.gv[k]) == id {
				delete(s.gv, k)
			}
		}
	}
	return unit()
}

func (m *bufMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

func (m *bufMon) Stuck(c *Ctx) bool {
	c.flag("hang", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

func init() {
	register("C25", []string{"hbuf"}, func(r *Run) {
		n := 3
		if r.thorough() {
			n = 4
		}
		entries := []string{"Readers", "Writers", "Mixed", "ReaderPair", "WriterPair"}
		r.parallel(len(entries), func(i int) {
			r.explore("hbuf", entries[i], &bufMon{}, func(x *Exec) {
				x.interleave = true
				x.checkRT = true
				x.maxDisj = 1000
				x.budget = 8000000
				x.limit = 800 * time.Second
				x.given = []int{n}
				if entries[i] == "Mixed" || r.thorough() && entries[i] == "Readers" {
					x.given = []int{n - 1}
				}
				x.quiet = map[string]bool{"got": true, "give": true}
				x.trackFn = func(x *Exec, s *State, v Val) bool { return true }
				x.entry = entries[i]
			})
		})
		for _, k := range []string{"owner", "assert"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
