package main

import (
	"sort"
	"strings"
)

// Poly is a conjunction of linear equalities (solved for pivots) and
// inequalities over the integers. Values are immutable once shared; all
// mutating operations work on a clone made by the caller.
type Poly struct {
	eqs   map[Dim]Lin // pivot = expression free of pivots
	ineqs []Lin       // each >= 0, free of pivots
	bot   bool
}

func newPoly() *Poly { return &Poly{eqs: map[Dim]Lin{}} }

func (p *Poly) clone() *Poly {
	q := &Poly{eqs: make(map[Dim]Lin, len(p.eqs)), bot: p.bot}
	for k, v := range p.eqs {
		q.eqs[k] = v
	}
	q.ineqs = append([]Lin(nil), p.ineqs...)
	return q
}

// norm replaces pivots in e.
func (p *Poly) norm(e Lin) Lin {
	for i := 0; i < len(e.t); {
		if x, ok := p.eqs[e.t[i].d]; ok {
			e = e.subst(e.t[i].d, x)
			i = 0
			continue
		}
		i++
	}
	return e
}

// assume adds e >= 0. It reports whether the result may be satisfiable.
func (p *Poly) assume(e Lin) bool {
	if p.bot {
		return false
	}
	e = normIneq(p.norm(e))
	if e.isConst() {
		if e.c < 0 {
			p.bot = true
		}
		return !p.bot
	}
	for i, q := range p.ineqs {
		// parallel constraints
		if sameTerms(q, e) {
			if q.c <= e.c {
				return true
			}
			p.ineqs[i] = e
			return p.recheck(e)
		}
	}
	p.ineqs = append(p.ineqs, e)
	return p.recheck(e)
}

func (p *Poly) recheck(e Lin) bool {
	// an opposite constraint makes an equality
	for _, q := range p.ineqs {
		if oppTerms(q, e) {
			if q.c+e.c < 0 {
				p.bot = true
				return false
			}
			if q.c+e.c == 0 {
				return p.assumeEq(e)
			}
		}
	}
	if !feasible(p.ineqs) {
		p.bot = true
	}
	return !p.bot
}

func sameTerms(a, b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func oppTerms(a, b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].d != b.t[i].d || a.t[i].k != -b.t[i].k {
			return false
		}
	}
	return true
}

// assumeEq adds e == 0.
func (p *Poly) assumeEq(e Lin) bool {
	if p.bot {
		return false
	}
	e = p.norm(e)
	if e.isConst() {
		if e.c != 0 {
			p.bot = true
		}
		return !p.bot
	}
	var g int64
	for _, t := range e.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		if e.c%g != 0 {
			p.bot = true
			return false
		}
		n := Lin{c: e.c / g, t: make([]lterm, len(e.t))}
		for i, t := range e.t {
			n.t[i] = lterm{t.d, t.k / g}
		}
		e = n
	}
	// prefer the newest dimension with a unit coefficient as pivot
	for i := len(e.t) - 1; i >= 0; i-- {
		t := e.t[i]
		if t.d == dimMax {
			continue
		}
		if t.k == 1 || t.k == -1 {
			x := addLin(e, -t.k, ld(t.d)).mul(-t.k)
			p.setPivot(t.d, x)
			if !p.bot && !feasible(p.ineqs) {
				p.bot = true
			}
			return !p.bot
		}
	}
	p.ineqs = append(p.ineqs, normIneq(e), normIneq(e.neg()))
	if !feasible(p.ineqs) {
		p.bot = true
	}
	return !p.bot
}

func (p *Poly) setPivot(d Dim, x Lin) {
	for k, v := range p.eqs {
		p.eqs[k] = v.subst(d, x)
	}
	p.eqs[d] = x
	old := p.ineqs
	p.ineqs = nil
	for _, q := range old {
		q = normIneq(q.subst(d, x))
		p.addRaw(q)
	}
}

// addRaw adds a constraint with syntactic subsumption only.
func (p *Poly) addRaw(q Lin) {
	if q.isConst() {
		if q.c < 0 {
			p.bot = true
		}
		return
	}
	for i, o := range p.ineqs {
		if sameTerms(o, q) {
			if q.c < o.c {
				p.ineqs[i] = q
			}
			return
		}
	}
	p.ineqs = append(p.ineqs, q)
}

// entails reports whether e >= 0 holds everywhere in p.
func (p *Poly) entails(e Lin) bool {
	if p.bot {
		return true
	}
	e = normIneq(p.norm(e))
	if e.isConst() {
		return e.c >= 0
	}
	for _, q := range p.ineqs {
		if sameTerms(q, e) && q.c <= e.c {
			return true
		}
	}
	neg := e.neg().addc(-1)
	cs := make([]Lin, 0, len(p.ineqs)+1)
	cs = append(cs, relevant(p.ineqs, neg)...)
	cs = append(cs, neg)
	return !feasible(cs)
}

// relevant returns the constraints connected with e through shared dimensions.
func relevant(cs []Lin, e Lin) []Lin {
	in := map[Dim]bool{}
	for _, t := range e.t {
		in[t.d] = true
	}
	used := make([]bool, len(cs))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, q := range cs {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range q.t {
				if in[t.d] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, q)
				for _, t := range q.t {
					in[t.d] = true
				}
			}
		}
	}
	return out
}

func (p *Poly) entailsEq(e Lin) bool {
	n := p.norm(e)
	if n.isConst() {
		return p.bot || n.c == 0
	}
	return p.entails(n) && p.entails(n.neg())
}

// keep projects p on the dims for which f holds.
func (p *Poly) keep(f func(Dim) bool) {
	if p.bot {
		return
	}
	for {
		// collect a dim to eliminate
		var drop []Dim
		for d := range p.eqs {
			if !f(d) {
				drop = append(drop, d)
			}
		}
		for _, d := range drop {
			delete(p.eqs, d)
		}
		// dims in equalities first: solve for them
		elim := Dim(-1)
		var pv Dim
		var piv []Dim
		for d := range p.eqs {
			piv = append(piv, d)
		}
		sort.Slice(piv, func(i, j int) bool { return piv[i] < piv[j] })
	scan:
		for _, d := range piv {
			for _, t := range p.eqs[d].t {
				if !f(t.d) && t.d != dimMax && (t.k == 1 || t.k == -1) {
					elim, pv = t.d, d
					break scan
				}
			}
		}
		if elim >= 0 {
			x := p.eqs[pv]
			k := x.coef(elim)
			delete(p.eqs, pv)
			// pv = x  =>  elim = (pv - (x - k*elim))/k
			r := addLin(ld(pv), -1, addLin(x, -k, ld(elim))).mul(k)
			p.setPivot(elim, r)
			delete(p.eqs, elim)
			continue
		}
		// Fourier-Motzkin, cheapest first
		cnt := map[Dim][2]int{}
		for _, q := range p.ineqs {
			for _, t := range q.t {
				if !f(t.d) && t.d != dimMax {
					c := cnt[t.d]
					if t.k > 0 {
						c[0]++
					} else {
						c[1]++
					}
					cnt[t.d] = c
				}
			}
		}
		// equalities with non-unit coefficients mention dropped dims
		for d, x := range p.eqs {
			for _, t := range x.t {
				if !f(t.d) && t.d != dimMax {
					_ = d
					if _, ok := cnt[t.d]; !ok {
						cnt[t.d] = [2]int{0, 0}
					}
				}
			}
		}
		if len(cnt) == 0 {
			return
		}
		best, bc := Dim(-1), 1<<30
		for d, c := range cnt {
			v := c[0]*c[1] - c[0] - c[1]
			if v < bc || v == bc && d < best {
				best, bc = d, v
			}
		}
		// turn equalities mentioning best into inequalities
		for d, x := range p.eqs {
			if x.coef(best) != 0 {
				delete(p.eqs, d)
				e := addLin(ld(d), -1, x)
				p.ineqs = append(p.ineqs, e, e.neg())
			}
		}
		var pos, neg, rest []Lin
		for _, q := range p.ineqs {
			switch k := q.coef(best); {
			case k > 0:
				pos = append(pos, q)
			case k < 0:
				neg = append(neg, q)
			default:
				rest = append(rest, q)
			}
		}
		p.ineqs = rest
		if len(pos)*len(neg) > 400 {
			continue // drop them: sound over-approximation
		}
		for _, a := range pos {
			for _, b := range neg {
				ka, kb := a.coef(best), -b.coef(best)
				g := gcd(ka, kb)
				p.addRaw(normIneq(addLin(a.mul(kb/g), ka/g, b)))
			}
		}
		if len(p.ineqs) > 40 {
			p.reduce()
		}
	}
}

func weight(e Lin) int {
	w := 0
	for _, t := range e.t {
		w += 2
		if t.k != 1 && t.k != -1 {
			w += 3
		}
	}
	return w
}

// reduce removes redundant inequalities.
func (p *Poly) reduce() {
	// simple constraints last, so that they survive
	sort.SliceStable(p.ineqs, func(i, j int) bool { return weight(p.ineqs[i]) > weight(p.ineqs[j]) })
	for i := 0; i < len(p.ineqs); {
		q := p.ineqs[i]
		rest := append(append([]Lin(nil), p.ineqs[:i]...), p.ineqs[i+1:]...)
		neg := q.neg().addc(-1)
		if !feasible(append(relevant(rest, neg), neg)) {
			p.ineqs = rest
			continue
		}
		i++
	}
}

func (p *Poly) rename(f func(Dim) Dim) *Poly {
	q := newPoly()
	q.bot = p.bot
	for d, x := range p.eqs {
		q.eqs[f(d)] = x.rename(f)
	}
	for _, x := range p.ineqs {
		q.ineqs = append(q.ineqs, x.rename(f))
	}
	return q
}

func (p *Poly) all() []Lin {
	var out []Lin
	var ds []Dim
	for d := range p.eqs {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	for _, d := range ds {
		e := addLin(ld(d), -1, p.eqs[d])
		out = append(out, e, e.neg())
	}
	return append(out, p.ineqs...)
}

func (p *Poly) leq(q *Poly) bool {
	if p.bot {
		return true
	}
	if q.bot {
		return false
	}
	for _, e := range q.all() {
		if !p.entails(e) {
			return false
		}
	}
	return true
}

// join returns an over-approximation of the union.
func join(p, q *Poly) *Poly {
	if p.bot {
		return q.clone()
	}
	if q.bot {
		return p.clone()
	}
	r := newPoly()
	for _, e := range karrJoin(p, q) {
		r.assumeEq(e)
	}
	template(r, p, q)
	var cand []Lin
	cand = append(cand, p.all()...)
	cand = append(cand, q.all()...)
	plain := len(cand)
	cand = append(cand, combos(r, p)...)
	cand = append(cand, combos(r, q)...)
	for i, e := range cand {
		if r.entailsQuick(e) {
			continue
		}
		if p.entails(e) && q.entails(e) {
			r.addRaw(normIneq(r.norm(e)))
		} else if i >= plain {
			continue
		} else if w, ok := relax(e, p, q); ok && !r.entailsQuick(w) {
			r.addRaw(normIneq(r.norm(w)))
		}
	}
	return r
}

// combos lists inequalities of p combined with those of its equalities that
// the join r loses, so that relations hidden by a substitution survive.
func combos(r, p *Poly) []Lin {
	var ds []Dim
	for d := range p.eqs {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	var out []Lin
	for _, d := range ds {
		eq := addLin(ld(d), -1, p.eqs[d])
		if n := r.norm(eq); n.isConst() {
			continue
		}
		for _, e := range p.ineqs {
			if len(e.t) > 3 || len(out) > 120 {
				continue
			}
			for _, w := range []Lin{e.add(eq), e.sub(eq), e.add(eq).add(eq), e.sub(eq).sub(eq)} {
				if unitary(w) {
					out = append(out, w)
				}
			}
		}
	}
	return out
}

// unitary: at most three terms with small coefficients.
func unitary(e Lin) bool {
	if len(e.t) > 3 {
		return false
	}
	for _, t := range e.t {
		if t.k > 2 || t.k < -2 {
			return false
		}
	}
	return true
}

// relax finds a small constant weakening of e >= 0 valid in both.
func relax(e Lin, p, q *Poly) (Lin, bool) {
	for _, k := range []int64{1, 2} {
		w := e.addc(k)
		if p.entails(w) && q.entails(w) {
			return w, true
		}
	}
	return e, false
}

func (p *Poly) entailsQuick(e Lin) bool {
	e = normIneq(p.norm(e))
	if e.isConst() {
		return e.c >= 0
	}
	for _, q := range p.ineqs {
		if sameTerms(q, e) && q.c <= e.c {
			return true
		}
	}
	return false
}

// widen keeps the constraints of p that q satisfies.
func widen(p, q *Poly) *Poly {
	if p.bot {
		return q.clone()
	}
	if q.bot {
		return p.clone()
	}
	r := newPoly()
	for _, e := range karrJoin(p, q) {
		r.assumeEq(e)
	}
	for _, e := range p.all() {
		if r.entailsQuick(e) {
			continue
		}
		if q.entails(e) {
			r.addRaw(normIneq(r.norm(e)))
		}
	}
	// small sign-like constraints of q that p satisfies are kept too (few thresholds)
	for _, e := range q.all() {
		if unitary(e) && e.c >= -1 && e.c <= 1 && !r.entailsQuick(e) && p.entails(e) {
			r.addRaw(normIneq(r.norm(e)))
		}
	}
	template(r, p, q)
	return r
}

// template adds signs and orders of the free dimensions that hold in p and q.
func template(r, p, q *Poly) {
	// template: signs and orders of the free dimensions
	seen := map[Dim]bool{}
	var free []Dim
	for _, x := range []*Poly{p, q} {
		for _, e := range x.all() {
			for _, t := range r.norm(e).t {
				if !seen[t.d] && t.d != dimMax {
					seen[t.d] = true
					free = append(free, t.d)
				}
			}
		}
	}
	sort.Slice(free, func(i, j int) bool { return free[i] < free[j] })
	try := func(e Lin) bool {
		if r.entailsQuick(e) {
			return true
		}
		if p.entails(e) && q.entails(e) {
			r.addRaw(normIneq(r.norm(e)))
			return true
		}
		return false
	}
	for _, d := range free {
		tight(try, ld(d))
	}
	if len(free) <= 8 {
		for _, a := range free {
			for _, b := range free {
				if a != b {
					tight(try, ld(a).sub(ld(b)))
				}
			}
		}
	}
}

// tight adds the tightest of a few lower bounds of e.
func tight(try func(Lin) bool, e Lin) {
	if !try(e.addc(1)) {
		return
	}
	for c := int64(-3); c <= 0; c++ {
		if try(e.addc(c)) {
			return
		}
	}
}

// karrJoin returns the equalities valid in both p and q.
func karrJoin(p, q *Poly) (out []Lin) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ratOverflow); ok {
				out = nil
				return
			}
			panic(r)
		}
	}()
	var cols []Dim
	seen := map[Dim]bool{}
	add := func(e Lin) {
		for _, t := range e.t {
			if !seen[t.d] {
				seen[t.d] = true
				cols = append(cols, t.d)
			}
		}
	}
	rowsOf := func(p *Poly) []Lin {
		var ds []Dim
		for d := range p.eqs {
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
		var rs []Lin
		for _, d := range ds {
			rs = append(rs, addLin(ld(d), -1, p.eqs[d]))
		}
		return rs
	}
	ra, rb := rowsOf(p), rowsOf(q)
	if len(ra) == 0 || len(rb) == 0 {
		return nil
	}
	for _, e := range ra {
		add(e)
	}
	for _, e := range rb {
		add(e)
	}
	sort.Slice(cols, func(i, j int) bool { return cols[i] < cols[j] })
	n := len(cols) + 1
	var m [][]rat
	vec := func(e Lin) []rat {
		v := make([]rat, n)
		for i, d := range cols {
			v[i] = ri(e.coef(d))
		}
		v[n-1] = ri(e.c)
		return v
	}
	zero := make([]rat, n)
	for i := range zero {
		zero[i] = ri(0)
	}
	for _, e := range ra {
		v := vec(e)
		m = append(m, append(append([]rat(nil), v...), v...))
	}
	for _, e := range rb {
		v := vec(e)
		m = append(m, append(append([]rat(nil), v...), zero...))
	}
	// echelon on the left half, then the rest
	row := 0
	for col := 0; col < 2*n && row < len(m); col++ {
		pi := -1
		for i := row; i < len(m); i++ {
			if !m[i][col].zero() {
				pi = i
				break
			}
		}
		if pi < 0 {
			continue
		}
		m[row], m[pi] = m[pi], m[row]
		inv := m[row][col].inv()
		for j := range m[row] {
			m[row][j] = m[row][j].mul(inv)
		}
		for i := range m {
			if i == row || m[i][col].zero() || i < row && col < n && false {
				continue
			}
			f := m[i][col]
			for j := range m[i] {
				if !m[row][j].zero() {
					m[i][j] = m[i][j].sub(f.mul(m[row][j]))
				}
			}
		}
		row++
	}
	for _, r := range m {
		left := true
		for j := 0; j < n; j++ {
			if !r[j].zero() {
				left = false
				break
			}
		}
		if !left {
			continue
		}
		den := int64(1)
		nz := false
		for j := n; j < 2*n; j++ {
			if !r[j].zero() {
				nz = true
				den = mulOv(den/gcd(den, r[j].d), r[j].d)
			}
		}
		if !nz {
			continue
		}
		e := Lin{}
		for j, d := range cols {
			if v := r[n+j]; !v.zero() {
				e.t = append(e.t, lterm{d, mulOv(v.n, den/v.d)})
			}
		}
		v := r[2*n-1]
		e.c = mulOv(v.n, den/v.d)
		out = append(out, e)
	}
	return out
}

func (p *Poly) String() string {
	if p.bot {
		return "false"
	}
	var ss []string
	var ds []Dim
	for d := range p.eqs {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	for _, d := range ds {
		ss = append(ss, ld(d).String()+"="+p.eqs[d].String())
	}
	for _, q := range p.ineqs {
		ss = append(ss, q.String()+">=0")
	}
	return strings.Join(ss, " ")
}
