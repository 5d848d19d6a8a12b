package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// poolStore models what sync.Pools hold: every item put, until it is taken;
// a pool may forget items, which is the same as never handing them out.
type poolStore struct{}

func (poolStore) put(c *Ctx, p, item Val) {
	obj, k := c.place(p)
	n := c.s.mut(obj)
	for i := 0; ; i++ {
		key := fmt.Sprintf("item%s#%d", k, i)
		if _, ok := n.gv[key]; !ok {
			n.gv[key] = item
			return
		}
	}
}

func poolItems(o *Obj, k string) []string {
	var ks []string
	for _, key := range sortedKeys(o.gv) {
		if strings.HasPrefix(key, "item"+k+"#") {
			ks = append(ks, key)
		}
	}
	return ks
}

func (poolStore) take(c *Ctx, p Val) Val {
	obj, k := c.place(p)
	ks := poolItems(c.s.heap[obj], k)
	i := c.x.choose(c.s, len(ks)+1)
	if i == 0 {
		return VNil{}
	}
	n := c.s.mut(obj)
	v := n.gv[ks[i-1]]
	// the items behind move up
	for j := i; j < len(ks); j++ {
		n.gv[ks[j-1]] = n.gv[ks[j]]
	}
	delete(n.gv, ks[len(ks)-1])
	return v
}

// pooledItems are the items of all pools.
func pooledItems(s *State) []Val {
	var vs []Val
	var ids []int
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[id]
		for _, key := range sortedKeys(o.gv) {
			if strings.HasPrefix(key, "item") {
				vs = append(vs, o.gv[key])
			}
		}
	}
	return vs
}

// byteMon judges xbytes (C21).
type byteMon struct {
	NoMon
	poolStore
	maps cmapMon
}

func (m *byteMon) TrackKey(c *Ctx, id int, key, val Val) bool { return true }
func (m *byteMon) MapLen(c *Ctx, v Val) Val                   { return m.maps.MapLen(c, v) }

func (m *byteMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	if fn.String() == "(*sync.Pool).Put" {
		m.put(c, args[0], args[1])
		return unit(), true
	}
	return xsyncMap(fn)
}

// xsyncMap takes xsync.Map as a linearizable map, which C15 to C18 decide.
func xsyncMap(fn *ssa.Function) (Val, bool) {
	if n, ok := cut(fn.String(), "(*github.com/chenquan/go-pkg/xsync.Map)."); ok {
		switch n {
		case "ComputeIfAbsent", "ComputeIfPresent":
			return vShim{"map " + n}, true
		case "Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete":
			return vShim{"(*sync.Map)." + n}, true
		}
	}
	return nil, false
}

func cut(s, prefix string) (string, bool) {
	return strings.TrimPrefix(s, prefix), strings.HasPrefix(s, prefix)
}

func (m *byteMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	s := c.s
	switch name {
	case "poolTake":
		t := s.cur()
		t.gv["pool"] = args[0]
		return m.take(c, args[0])
	case "Mark":
	default:
		return nil
	}
	what, vs := c.marks(args)
	switch what {
	case "ask":
		delete(s.cur().gv, "pool")
	case "got":
		b, ok := vs[0].(VSlice)
		if !ok {
			c.flag("size", "Malloc returns nil")
			return unit()
		}
		size, class := vs[1].(VInt).E, vs[2].(VInt).E
		switch {
		case !s.num.entailsEq(b.len.sub(size)):
			c.flag("size", "the length of the buffer is not the size asked for")
		case !s.num.entails(b.cap.sub(class)):
			c.flag("size", "the capacity of the buffer may be below what was asked for")
		default:
			c.ok("size")
		}
		for _, k := range sortedKeys(s.gv) {
			if l, ok := s.gv[k].(VSlice); ok && strings.HasPrefix(k, "live#") && l.obj == b.obj {
				c.flag("owner", "a buffer is handed out that is still in use")
			}
		}
		for _, k := range sortedKeys(s.gv) {
			if f, ok := s.gv[k].(VSlice); ok && strings.HasPrefix(k, "freed#") && f.obj == b.obj {
				if !s.num.entailsEq(f.cap.sub(class)) {
					c.flag("class", "a freed buffer is handed out to a caller that asked for another capacity than the buffer has")
				} else {
					c.ok("class")
				}
				delete(s.gv, k)
			}
		}
		if s.reach(pooledItems(s)...)[b.obj] {
			c.flag("owner", "a buffer is handed out that is still in a pool")
		}
		c.ok("owner")
		for i := 0; ; i++ {
			k := fmt.Sprintf("live#%d", i)
			if _, ok := s.gv[k]; !ok {
				s.gv[k] = b
				break
			}
		}
		if p, ok := s.cur().gv["pool"]; ok {
			n := 0
			for ; ; n++ {
				e, ok := s.gv[fmt.Sprintf("class#%d", n)].(VStruct)
				if !ok {
					break
				}
				if s.num.entailsEq(e.f[0].(VInt).E.sub(class)) {
					if valKey(e.f[1]) != valKey(p) {
						c.flag("share", "two callers asking for the same capacity use different pools")
					} else {
						c.ok("share")
					}
				}
			}
			s.gv[fmt.Sprintf("class#%d", n)] = VStruct{[]Val{VInt{class}, p}}
		}
	case "give":
		if b, ok := vs[0].(VSlice); ok {
			for _, k := range sortedKeys(s.gv) {
				if l, ok := s.gv[k].(VSlice); ok && strings.HasPrefix(k, "live#") && l.obj == b.obj {
					delete(s.gv, k)
				}
			}
			for i := 0; ; i++ {
				k := fmt.Sprintf("freed#%d", i)
				if _, ok := s.gv[k]; !ok {
					s.gv[k] = b
					break
				}
			}
		}
	}
	return unit()
}

func (m *byteMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	if p != nil {
		c.flag("panic", "an operation panics (%s)", p.why)
	}
}

func (m *byteMon) Stuck(c *Ctx) bool {
	c.flag("hang", "an operation blocks for ever (%s)", c.s.cur().block)
	return true
}

func init() {
	register("C21", []string{"hpool"}, func(r *Run) {
		type task struct {
			entry string
			given []int
		}
		n := 3
		if r.thorough() {
			n = 4
		}
		ts := []task{{"Sequence", []int{n}}, {"Pair", []int{8, 8, 8, 8}}, {"Pair", []int{8, 4, 4, 8}}, {"Pair", []int{8, 8, 16, 8}}, {"Pair", []int{16, 0, 8, 8}}}
		// capacities that a coarser, truncated or reordered key would confuse
		for _, p := range [][2]int{{0, 1}, {100, 101}, {12, 21}, {1 << 10, 1<<10 + 64}, {1 << 12, 1<<12 + 1}, {1 << 12, 1<<12 + 512}, {1 << 16, 1<<16 + 1},
			{1 << 16, 1<<16 + 4096}, {1 << 20, 1<<20 + 1}, {1 << 20, 1 << 21}, {8, 8 + 1<<8}, {8, 8 + 1<<16}, {8, 8 + 1<<32}, {1 << 31, 1<<31 + 1}} {
			ts = append(ts, task{"Pair", []int{0, p[0], 0, p[1]}})
		}
		r.parallel(len(ts), func(i int) {
			t := ts[i]
			r.explore("hpool", t.entry, &byteMon{}, func(x *Exec) {
				x.interleave = true
				x.checkRT = true
				x.maxDisj = 1000
				x.budget = 4000000
				x.limit = 800 * time.Second
				x.given = t.given
				x.quiet = map[string]bool{"ask": true, "got": true, "give": true}
				x.trackFn = func(x *Exec, s *State, v Val) bool { return true }
				x.entry = t.entry + strings.ReplaceAll(strings.Trim(fmt.Sprint(t.given), "[]"), " ", "/")
			})
		})
		for _, k := range []string{"size", "owner", "share", "class"} {
			r.need(k, r.w.obl[k], 1)
		}
	})
}
