package main

import "math/bits"

// rat is an exact rational with overflow detection.
type rat struct{ n, d int64 }

type ratOverflow struct{}

func mulOv(a, b int64) int64 {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		panic(ratOverflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func addOv(a, b int64) int64 {
	s := a + b
	if s > 1<<62 || s < -(1<<62) {
		panic(ratOverflow{})
	}
	return s
}

func mkRat(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if g := gcd(n, d); g > 1 {
		n, d = n/g, d/g
	}
	return rat{n, d}
}
func ri(n int64) rat { return rat{n, 1} }
func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{addOv(a.n, b.n), 1}
	}
	return mkRat(addOv(mulOv(a.n, b.d), mulOv(b.n, a.d)), mulOv(a.d, b.d))
}
func (a rat) neg() rat      { return rat{-a.n, a.d} }
func (a rat) sub(b rat) rat { return a.add(b.neg()) }
func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return rat{mulOv(a.n, b.n), 1}
	}
	return mkRat(mulOv(a.n, b.n), mulOv(a.d, b.d))
}
func (a rat) inv() rat { return mkRat(a.d, a.n) }
func (a rat) cmp(b rat) int {
	l, r := mulOv(a.n, b.d), mulOv(b.n, a.d)
	if l < r {
		return -1
	}
	if l > r {
		return 1
	}
	return 0
}
func (a rat) zero() bool { return a.n == 0 }

type bound struct {
	has bool
	v   rat
}

// feasible decides whether the conjunction of ineqs (each >= 0) has a
// rational solution. On arithmetic overflow it answers true (don't know).
func feasible(ineqs []Lin) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(ratOverflow); is {
				ok = true
				return
			}
			panic(r)
		}
	}()
	idx := map[Dim]int{}
	var n int
	for _, q := range ineqs {
		for _, t := range q.t {
			if _, ok := idx[t.d]; !ok {
				idx[t.d] = n
				n++
			}
		}
	}
	lo := make([]bound, n)
	hi := make([]bound, n)
	val := make([]rat, n)
	for i := range val {
		val[i] = ri(0)
	}
	type row struct {
		basic int
		a     []rat
	}
	var multi []Lin
	for _, q := range ineqs {
		switch len(q.t) {
		case 0:
			if q.c < 0 {
				return false
			}
		case 1:
			// k*x + c >= 0
			v := mkRat(-q.c, q.t[0].k)
			i := idx[q.t[0].d]
			if q.t[0].k > 0 {
				if !lo[i].has || v.cmp(lo[i].v) > 0 {
					lo[i] = bound{true, v}
				}
			} else {
				if !hi[i].has || v.cmp(hi[i].v) < 0 {
					hi[i] = bound{true, v}
				}
			}
		default:
			multi = append(multi, q)
		}
	}
	for i := 0; i < n; i++ {
		if lo[i].has && hi[i].has && lo[i].v.cmp(hi[i].v) > 0 {
			return false
		}
		if lo[i].has && val[i].cmp(lo[i].v) < 0 {
			val[i] = lo[i].v
		}
		if hi[i].has && val[i].cmp(hi[i].v) > 0 {
			val[i] = hi[i].v
		}
	}
	total := n + len(multi)
	rows := make([]row, len(multi))
	basicRow := make([]int, total)
	for i := range basicRow {
		basicRow[i] = -1
	}
	for i, q := range multi {
		r := row{basic: n + i, a: make([]rat, total)}
		for j := range r.a {
			r.a[j] = ri(0)
		}
		s := ri(0)
		for _, t := range q.t {
			r.a[idx[t.d]] = ri(t.k)
			s = s.add(ri(t.k).mul(val[idx[t.d]]))
		}
		rows[i] = r
		basicRow[n+i] = i
		lo = append(lo, bound{true, ri(-q.c)})
		hi = append(hi, bound{})
		val = append(val, s)
	}
	for iter := 0; iter < 2000; iter++ {
		// smallest violated basic variable
		bi, up := -1, false
		for v := 0; v < total; v++ {
			if basicRow[v] < 0 {
				continue
			}
			if lo[v].has && val[v].cmp(lo[v].v) < 0 {
				bi, up = v, true
				break
			}
			if hi[v].has && val[v].cmp(hi[v].v) > 0 {
				bi, up = v, false
				break
			}
		}
		if bi < 0 {
			return true
		}
		r := &rows[basicRow[bi]]
		nj := -1
		for v := 0; v < total; v++ {
			if basicRow[v] >= 0 || r.a[v].zero() {
				continue
			}
			inc := (r.a[v].n > 0) == up // need to increase v
			if inc && (!hi[v].has || val[v].cmp(hi[v].v) < 0) || !inc && (!lo[v].has || val[v].cmp(lo[v].v) > 0) {
				nj = v
				break
			}
		}
		if nj < 0 {
			return false
		}
		var target rat
		if up {
			target = lo[bi].v
		} else {
			target = hi[bi].v
		}
		theta := target.sub(val[bi]).mul(r.a[nj].inv())
		val[bi] = target
		val[nj] = val[nj].add(theta)
		for i := range rows {
			if rows[i].basic != bi && !rows[i].a[nj].zero() {
				val[rows[i].basic] = val[rows[i].basic].add(rows[i].a[nj].mul(theta))
			}
		}
		// pivot: bi leaves, nj enters
		k := r.a[nj].inv()
		na := make([]rat, total)
		for v := range na {
			if v == nj {
				na[v] = ri(0)
			} else {
				na[v] = r.a[v].neg().mul(k)
			}
		}
		na[bi] = k
		r.a = na
		r.basic = nj
		ri0 := basicRow[bi]
		basicRow[bi] = -1
		basicRow[nj] = ri0
		for i := range rows {
			if i == ri0 || rows[i].a[nj].zero() {
				continue
			}
			f := rows[i].a[nj]
			for v := range rows[i].a {
				if v == nj {
					rows[i].a[v] = ri(0)
				} else if !na[v].zero() {
					rows[i].a[v] = rows[i].a[v].add(f.mul(na[v]))
				}
			}
		}
	}
	return true
}
