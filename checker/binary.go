package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"time"

	"golang.org/x/tools/go/ssa"
)

// binMon judges xbinary (C22, C23, C24): who owns the buffers of the byte
// pool, and what the bits of a value are; the rest is asserted by the harness.
type binMon struct {
	NoMon
	prop int
}

func (m *binMon) sliceObj(v Val) int {
	if sl, ok := unbox(v).(VSlice); ok {
		return sl.obj
	}
	return -1
}

func (m *binMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	if n, ok := cut(fn.String(), "github.com/chenquan/go-pkg/xbytes."); ok {
		switch n {
		case "Malloc", "MallocSize":
			return vShim{"bytes " + n}, true
		case "Free":
			m.free(c, args[0])
			return unit(), true
		}
	}
	if fn.String() == "(*sync.Pool).Put" {
		for id := range c.s.reach(args[1]) {
			if o := c.s.heap[id]; o != nil && o.kind == oArr {
				c.s.mut(id).gh["freed"] = "1"
			}
		}
		return unit(), true
	}
	return nil, false
}

func (m *binMon) free(c *Ctx, v Val) {
	if m.prop != 22 {
		return
	}
	id := m.sliceObj(v)
	if id < 0 {
		return
	}
	o := c.s.heap[id]
	switch {
	case o.gh["freed"] != "":
		c.flag("owner", "a buffer is given back twice")
	case o.gh["mine"] != "":
		c.flag("owner", "a buffer is given back that belongs to the caller")
	default:
		c.ok("free")
	}
	c.s.mut(id).gh["freed"] = "1"
}

func (m *binMon) use(c *Ctx, id int, how string) {
	if m.prop != 22 || id < 0 {
		return
	}
	o, ok := c.s.heap[id]
	if !ok {
		return
	}
	if o.gh["freed"] != "" {
		c.flag("owner", "a buffer is %s after it was given back", how)
	} else if o.gh["pooled"] != "" {
		c.ok("use")
	}
}

func (m *binMon) Load(c *Ctx, a VAddr) (Val, bool) {
	m.use(c, a.obj, "read")
	return nil, false
}

func (m *binMon) Store(c *Ctx, a VAddr, v Val)          { m.use(c, a.obj, "written") }
func (m *binMon) WriteRange(c *Ctx, obj int, at, n Lin) { m.use(c, obj, "written") }
func (m *binMon) CopyInto(c *Ctx, obj, src int, shift Lin) {
	m.use(c, src, "read")
	m.use(c, obj, "written")
}

func (m *binMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	what, vs := c.marks(args)
	id := m.sliceObj(vs[0])
	if id < 0 {
		return unit()
	}
	switch what {
	case "malloc":
		n := c.s.mut(id)
		n.zero = false
		n.gh["pooled"] = "1"
	case "mine":
		c.s.mut(id).gh["mine"] = "1"
	case "use":
		m.use(c, id, "passed on")
	case "returned":
		m.use(c, id, "returned")
	}
	return unit()
}

// multiple: the largest power of two (as a shift) that divides e.
func (s *State) multiple(e Lin) int {
	e = s.num.norm(e)
	k := 62
	low := func(n int64) {
		if n != 0 {
			if z := bits.TrailingZeros64(uint64(n)); z < k {
				k = z
			}
		}
	}
	low(e.c)
	for _, t := range e.t {
		low(t.k)
	}
	return k
}

// div is e div 2^k. Quotients of one quantity are shared and stay known, so
// that the pieces of a value add up to it again.
func (c *Ctx) div(e Lin, k int) Lin {
	s := c.s
	p := int64(1) << uint(k)
	e = s.num.norm(e)
	// the terms that are multiples already
	var a, b Lin
	for _, t := range e.t {
		if t.k%p == 0 {
			a = a.add(ld(t.d).mul(t.k / p))
		} else {
			b = b.add(ld(t.d).mul(t.k))
		}
	}
	b = b.addc(e.c)
	if s.num.entails(b) && s.num.entails(b.neg().addc(p-1)) {
		return a
	}
	for k0 := 1; k0 < 40; k0++ {
		v, ok := s.gv[fmt.Sprintf("div%d#0", k0)].(VStruct)
		for i := 1; ok; i++ {
			base, q := v.f[0].(VInt).E, v.f[1].(VInt).E
			if k0 == k && s.num.entailsEq(base.sub(e)) {
				return q
			}
			if k0+k < 40 && s.num.entailsEq(q.sub(e)) {
				return c.div(base, k0+k)
			}
			v, ok = s.gv[fmt.Sprintf("div%d#%d", k0, i)].(VStruct)
		}
	}
	q := s.newDim()
	s.assume(e.sub(q.mul(p)))
	s.assume(q.mul(p).addc(p - 1).sub(e))
	for i := 0; ; i++ {
		n := fmt.Sprintf("div%d#%d", k, i)
		if _, ok := s.gv[n]; !ok {
			s.gv[n] = VStruct{[]Val{VInt{e}, VInt{q}}}
			break
		}
	}
	return q
}

// mod is e modulo 2^k.
func (c *Ctx) mod(e Lin, k int) Lin {
	return e.sub(c.div(e, k).mul(1 << uint(k)))
}

// IntOp computes on the bits of values exactly where linear arithmetic can.
func (m *binMon) IntOp(c *Ctx, T types.Type, op string, args []Val) Val {
	s := c.s
	var e []Lin
	for _, a := range args {
		i, ok := a.(VInt)
		if !ok {
			return nil
		}
		e = append(e, s.num.norm(i.E))
	}
	switch op {
	case "trunc", "wrap":
		if lo, hi, ok := intBounds(T); ok && lo == 0 {
			return VInt{c.mod(e[0], bits.Len64(uint64(hi)))}
		}
	case "|", "^":
		for i := 0; i < 2; i++ {
			if e[i].isConst() && e[i].c == 0 {
				return VInt{e[1-i]}
			}
			// no bit of one is a bit of the other
			if k := s.multiple(e[i]); k > 0 && s.num.entails(e[i]) && s.num.entails(e[1-i]) && s.num.entails(e[1-i].neg().addc(1<<uint(k)-1)) {
				return VInt{e[0].add(e[1])}
			}
		}
	case "&":
		for i := 0; i < 2; i++ {
			x, mask := e[1-i], e[i]
			if !mask.isConst() || mask.c < 0 || !s.num.entails(x) {
				continue
			}
			if mask.c == 0 {
				return vint(0)
			}
			lo := bits.TrailingZeros64(uint64(mask.c))
			n := bits.Len64(uint64(mask.c>>uint(lo)+1)) - 1
			if mask.c>>uint(lo)+1 != 1<<uint(n) || lo+n > 40 {
				return nil
			}
			return VInt{c.mod(c.div(x, lo), n).mul(1 << uint(lo))}
		}
	case ">>":
		if n := s.fixed(e[1]); n.isConst() && n.c >= 0 && n.c < 40 && s.num.entails(e[0]) {
			return VInt{c.div(e[0], int(n.c))}
		}
	case "/":
		if e[1].isConst() && e[1].c > 0 && e[1].c&(e[1].c-1) == 0 && s.num.entails(e[0]) {
			return VInt{c.div(e[0], bits.Len64(uint64(e[1].c))-1)}
		}
	case "%":
		if e[1].isConst() && e[1].c > 0 && e[1].c&(e[1].c-1) == 0 && s.num.entails(e[0]) {
			return VInt{c.mod(e[0], bits.Len64(uint64(e[1].c))-1)}
		}
	}
	return nil
}

func init() {
	for i, id := range []string{"C22", "C23", "C24"} {
		prop := 22 + i
		register(id, []string{"hbin"}, func(r *Run) {
			entries := []string{"WriteUint16", "WriteUint32", "WriteBool", "ReadUint16", "ReadUint32", "ReadBool", "WriteBytes", "ReadBytes"}
			r.parallel(len(entries), func(i int) {
				r.explore("hbin", entries[i], &binMon{prop: prop}, func(x *Exec) {
					x.checkRT = true
					x.maxDisj = 200
					x.budget = 4000000
					x.limit = 800 * time.Second
					x.given = []int{prop}
					x.trackFn = func(x *Exec, s *State, v Val) bool { return true }
					x.entry = entries[i]
				})
			})
			if prop == 22 {
				r.need("use", r.w.obl["use"], 1)
				r.need("free", r.w.obl["free"], 1)
			} else {
				r.need("assert", r.w.obl["assert"], 1)
			}
		})
	}
}
