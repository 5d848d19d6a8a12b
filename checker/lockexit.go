package main

import (
	"fmt"
	"strings"
	"time"
)

// lockMon decides that no lock outlives the operation that took it (C15).
type lockMon struct {
	NoMon
	maps cmapMon
}

func (m *lockMon) TrackKey(c *Ctx, id int, key, val Val) bool { return true }
func (m *lockMon) MapLen(c *Ctx, v Val) Val                   { return m.maps.MapLen(c, v) }

func (m *lockMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	t := c.s.cur()
	switch what, _ := c.marks(args); what {
	case "exit":
		if t.gh["held"] != "" {
			c.flag("held", "an operation ends%s with a lock held", map[bool]string{true: " in a panic"}[t.gh["user"] != ""])
		} else {
			c.ok("held")
			if t.gh["user"] != "" {
				c.ok("held after a panic")
			}
		}
		delete(t.gh, "user")
	case "user panic":
		t.gh["user"] = "1"
	}
	return unit()
}

func (m *lockMon) Sync(c *Ctx, op string, a VAddr) {
	if strings.HasSuffix(op, "unlock") {
		c.ok("unlock")
	}
}

func (m *lockMon) Stuck(c *Ctx) bool {
	if c.s.cur().block == "lock" {
		c.flag("held", "an operation waits for ever for a lock")
		return true
	}
	c.flag("hang", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

func init() {
	register("C15", []string{"hlock"}, func(r *Run) {
		type task struct {
			entry string
			given []int
		}
		ts := []task{{"Map", nil}, {"Shared", nil}, {"Manager", nil}, {"Ring", []int{1}}, {"Ring", []int{2}}, {"Rings", nil}}
		for a := 0; a < 3; a++ {
			for b := a; b < 3; b++ {
				ts = append(ts, task{"Managers", []int{a, b}})
			}
		}
		for a := range mapOps {
			for b := a; b < len(mapOps); b++ {
				ts = append(ts, task{"Pair", []int{a, b, 0}})
				if b < 7 {
					ts = append(ts, task{"Pair", []int{a, b, 1}})
				}
			}
		}
		r.parallel(len(ts), func(i int) {
			t := ts[i]
			r.explore("hlock", t.entry, &lockMon{}, func(x *Exec) {
				x.interleave = true
				x.checkRT = true
				x.maxDisj = 1000
				x.budget = 4000000
				x.limit = 800 * time.Second
				x.quiet = map[string]bool{"enter": true, "exit": true, "user panic": true}
				x.given = t.given
				if t.entry == "Ring" {
					x.maxDisj = 3
				}
				x.trackFn = func(x *Exec, s *State, v Val) bool { return true }
				x.entry = t.entry
				for _, g := range t.given {
					x.entry += "/" + fmt.Sprint(g)
				}
			})
		})
		for _, k := range []string{"held", "held after a panic", "unlock"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
