package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// floatMon gives floating-point values a domain that decides comparisons
// exactly: a value is NaN or has a rank in the total order in which -0 (rank
// 0) stands directly below +0 (rank 1); the infinities are the end points.
// Widening a float32 keeps the rank; narrowing keeps it for widened values.
type floatMon struct{ NoMon }

const rankInf = 1 << 30

type rankOf struct {
	nan bool
	r   Lin
}

func isFloat(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// fl classifies a float value, forking on the first question.
func (m *floatMon) fl(c *Ctx, v Val) (rankOf, bool) {
	switch v := v.(type) {
	case VConst:
		if v.V.Kind() != constant.Float && v.V.Kind() != constant.Int {
			return rankOf{}, false
		}
		switch constant.Sign(v.V) {
		case 0:
			return rankOf{r: lc(1)}, true
		}
		return rankOf{}, false
	case VSym:
		si := c.s.syms[v.id]
		if !isFloat(si.T) || si.facts["opaque"] {
			return rankOf{}, false
		}
		if _, ok := si.facts["nan"]; !ok {
			nan := c.x.choose(c.s, 2) == 1
			n := c.s.mutSym(v.id)
			n.facts["nan"] = nan
			if !nan {
				d := c.s.newDim()
				n.attrs["rank"] = d
				c.s.assume(d.addc(rankInf))
				c.s.assume(d.neg().addc(rankInf))
			}
			si = n
		}
		if si.facts["nan"] {
			return rankOf{nan: true}, true
		}
		return rankOf{r: si.attrs["rank"]}, true
	}
	return rankOf{}, false
}

// less is IEEE a < b on ranks: the zeros are equal.
func (m *floatMon) less(c *Ctx, a, b rankOf) bool {
	if a.nan || b.nan {
		return false
	}
	if !c.x.decide(c.s, b.r.sub(a.r).addc(-1)) {
		return false
	}
	if c.x.decideEq(c.s, a.r) && c.x.decideEq(c.s, b.r.addc(-1)) {
		return false
	}
	return true
}

func (m *floatMon) BinOp(c *Ctx, op token.Token, a, b Val, T types.Type) Val {
	fa, ok1 := m.fl(c, a)
	fb, ok2 := m.fl(c, b)
	if !ok1 || !ok2 {
		return nil
	}
	switch op {
	case token.LSS:
		return vbool(m.less(c, fa, fb))
	case token.GTR:
		return vbool(m.less(c, fb, fa))
	case token.LEQ:
		return vbool(!fa.nan && !fb.nan && !m.less(c, fb, fa))
	case token.GEQ:
		return vbool(!fa.nan && !fb.nan && !m.less(c, fa, fb))
	case token.EQL, token.NEQ:
		eq := !fa.nan && !fb.nan && !m.less(c, fa, fb) && !m.less(c, fb, fa)
		return vbool(eq == (op == token.EQL))
	}
	// arithmetic: only the NaN-ness of a sum, difference or product with NaN is known
	y := c.s.newSym(T, "arith", a, b)
	if fa.nan || fb.nan {
		c.s.mutSym(y.id).facts["nan"] = true
	} else {
		c.s.mutSym(y.id).facts["opaque"] = true
	}
	return y
}

func (m *floatMon) Convert(c *Ctx, v Val, from, to types.Type) Val {
	y, ok := v.(VSym)
	if !ok || !isFloat(from) || !isFloat(to) {
		return nil
	}
	wide := to.Underlying().(*types.Basic).Kind() == types.Float64
	si := c.s.syms[y.id]
	if wide || si.T.Underlying().(*types.Basic).Kind() == types.Float32 {
		return v // the value is representable
	}
	if f, known := m.fl(c, v); known && f.nan {
		return v
	}
	n := c.s.newSym(to, "narrowed", v)
	c.s.mutSym(n.id).facts["opaque"] = true
	return n
}

// extreme is math.Max (sign 1) or math.Min (sign -1).
func (m *floatMon) extreme(c *Ctx, sign int64, a, b rankOf) rankOf {
	inf := func(f rankOf) bool { return !f.nan && c.x.decideEq(c.s, f.r.addc(-sign*rankInf)) }
	switch {
	case inf(a):
		return a
	case inf(b):
		return b
	case a.nan:
		return a
	case b.nan:
		return b
	case c.x.decide(c.s, a.r.sub(b.r).mul(sign)):
		return a
	}
	return b
}

func (m *floatMon) External(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	var fs []rankOf
	switch fn.String() {
	case "math.Max", "math.Min", "math.IsNaN", "math.Signbit", "math.IsInf":
	default:
		return nil, false
	}
	for _, a := range args {
		if _, isInt := a.(VInt); isInt {
			continue
		}
		f, ok := m.fl(c, a)
		if !ok {
			return nil, false
		}
		fs = append(fs, f)
	}
	switch fn.String() {
	case "math.Max", "math.Min":
		sign := int64(1)
		if fn.Name() == "Min" {
			sign = -1
		}
		e := m.extreme(c, sign, fs[0], fs[1])
		for i, f := range fs {
			if f.nan == e.nan && (e.nan || f.r.String() == e.r.String()) {
				return args[i], true // keeps what is known about the argument, such as its width
			}
		}
		return nil, false
	case "math.IsNaN":
		return vbool(fs[0].nan), true
	case "math.Signbit":
		if fs[0].nan {
			return vbool(c.x.choose(c.s, 2) == 0), true
		}
		return vbool(c.x.decide(c.s, fs[0].r.neg())), true
	case "math.IsInf":
		if fs[0].nan {
			return vbool(false), true
		}
		sg := args[1].(VInt).E
		pos := c.x.decideEq(c.s, fs[0].r.addc(-rankInf))
		neg := !pos && c.x.decideEq(c.s, fs[0].r.addc(rankInf))
		if pos {
			return vbool(c.x.decide(c.s, sg)), true
		}
		return vbool(neg && c.x.decide(c.s, sg.neg())), true
	}
	return nil, false
}

func (m *floatMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if name != "Mark" {
		return nil
	}
	what, vs := c.marks(args)
	sign := int64(1)
	if what == "min" {
		sign = -1
	}
	a, _ := m.fl(c, vs[0])
	b, _ := m.fl(c, vs[1])
	r, ok := m.fl(c, vs[2])
	if !ok {
		c.fail("extreme", "the result is computed in a way that does not keep the value of an argument")
	}
	e := m.extreme(c, sign, a, b)
	switch {
	case e.nan != r.nan:
		c.fail("extreme", "the result is not NaN exactly when it has to be")
	case !e.nan && !c.x.decideEq(c.s, e.r.sub(r.r)):
		c.fail("extreme", "the result is not the %simum of the arguments (or has the wrong zero)", what)
	}
	c.ok("extreme")
	return unit()
}

func init() {
	register("C28", []string{"hmath"}, func(r *Run) {
		for _, e := range []string{"MaxInt", "MinInt", "MaxInt64", "MinInt64"} {
			r.explore("hmath", e, &NoMon{}, func(x *Exec) { x.checkRT = true; x.ovf = true })
		}
		for _, e := range []string{"MaxFloat64", "MinFloat64", "MaxFloat32", "MinFloat32"} {
			r.explore("hmath", e, &floatMon{}, func(x *Exec) { x.maxDisj = 40 })
		}
		r.need("integer obligations", r.w.obl["assert"], 12)
		r.need("float cases", r.w.obl["extreme"], 20)
	})
}
