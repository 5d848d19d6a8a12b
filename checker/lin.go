package main

import (
	"fmt"
	"sort"
	"strings"
)

// Dim identifies a numeric dimension of a state.
type Dim int

// dimMax is the symbolic largest value of type int (MaxInt): every other
// constant is small compared with it, so the domain never needs 64-bit constants.
const dimMax Dim = 0

type lterm struct {
	d Dim
	k int64
}

// Lin is an immutable linear expression c + sum k*d (terms sorted by dim).
type Lin struct {
	c int64
	t []lterm
}

func lc(c int64) Lin { return Lin{c: c} }
func ld(d Dim) Lin   { return Lin{t: []lterm{{d, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func addLin(a Lin, k int64, b Lin) Lin {
	r := Lin{c: a.c + k*b.c}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].d < b.t[j].d:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].d < a.t[i].d:
			if v := k * b.t[j].k; v != 0 {
				r.t = append(r.t, lterm{b.t[j].d, v})
			}
			j++
		default:
			if v := a.t[i].k + k*b.t[j].k; v != 0 {
				r.t = append(r.t, lterm{a.t[i].d, v})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) add(b Lin) Lin { return addLin(a, 1, b) }
func (a Lin) sub(b Lin) Lin { return addLin(a, -1, b) }
func (a Lin) addc(c int64) Lin {
	return Lin{c: a.c + c, t: a.t}
}
func (a Lin) mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: a.c * k, t: make([]lterm, len(a.t))}
	for i, t := range a.t {
		r.t[i] = lterm{t.d, t.k * k}
	}
	return r
}
func (a Lin) neg() Lin { return a.mul(-1) }

func (a Lin) coef(d Dim) int64 {
	for _, t := range a.t {
		if t.d == d {
			return t.k
		}
	}
	return 0
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// subst replaces d by e.
func (a Lin) subst(d Dim, e Lin) Lin {
	k := a.coef(d)
	if k == 0 {
		return a
	}
	return addLin(addLin(a, -k, ld(d)), k, e)
}

func (a Lin) rename(f func(Dim) Dim) Lin {
	r := Lin{c: a.c, t: make([]lterm, len(a.t))}
	for i, t := range a.t {
		r.t[i] = lterm{f(t.d), t.k}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].d < r.t[j].d })
	// merge duplicates
	o := r.t[:0]
	for _, t := range r.t {
		if n := len(o); n > 0 && o[n-1].d == t.d {
			o[n-1].k += t.k
		} else {
			o = append(o, t)
		}
	}
	r.t = o
	p := r.t[:0]
	for _, t := range r.t {
		if t.k != 0 {
			p = append(p, t)
		}
	}
	r.t = p
	return r
}

func (a Lin) String() string {
	var sb strings.Builder
	for _, t := range a.t {
		name := fmt.Sprintf("d%d", t.d)
		if t.d == dimMax {
			name = "MAX"
		}
		switch {
		case t.k == 1:
			sb.WriteString("+" + name)
		case t.k == -1:
			sb.WriteString("-" + name)
		default:
			fmt.Fprintf(&sb, "%+d%s", t.k, name)
		}
	}
	if a.c != 0 || len(a.t) == 0 {
		fmt.Fprintf(&sb, "%+d", a.c)
	}
	return sb.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normIneq divides a >= 0 by the gcd of its coefficients, tightening for integers.
func normIneq(a Lin) Lin {
	var g int64
	for _, t := range a.t {
		g = gcd(g, t.k)
	}
	if g <= 1 {
		return a
	}
	r := Lin{c: floorDiv(a.c, g), t: make([]lterm, len(a.t))}
	for i, t := range a.t {
		r.t[i] = lterm{t.d, t.k / g}
	}
	return r
}
