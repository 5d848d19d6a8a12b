package main

import "math/bits"

// Bit operations on bounded quantities: what the bounds tell about single
// bits gives bounds of the result.

// fixed is e, as a constant when it has a single small value.
func (s *State) fixed(e Lin) Lin {
	n := s.num.norm(e)
	if !n.isConst() {
		if lo, hi, ok := s.bounds(n, 64); ok && lo == hi {
			return lc(lo)
		}
	}
	return n
}

// bounds returns constant bounds of e within [0, max], if it has any.
func (s *State) bounds(e Lin, max int64) (lo, hi int64, ok bool) {
	e = s.num.norm(e)
	if e.isConst() {
		return e.c, e.c, e.c >= 0 && e.c <= max
	}
	if !s.num.entails(e) || !s.num.entails(e.neg().addc(max)) {
		return 0, 0, false
	}
	for a, b := int64(0), max; ; { // largest a with e >= a
		if a == b {
			lo = a
			break
		}
		if m := a + (b-a+1)/2; s.num.entails(e.addc(-m)) {
			a = m
		} else {
			b = m - 1
		}
	}
	for a, b := lo, max; ; { // smallest b with e <= b
		if a == b {
			hi = b
			break
		}
		if m := a + (b-a)/2; s.num.entails(e.neg().addc(m)) {
			b = m
		} else {
			a = m + 1
		}
	}
	return lo, hi, true
}

// knownBits: the bits that are one, and those that may be, in [lo, hi].
func knownBits(lo, hi int64) (ones, may uint64) {
	diff := uint64(lo) ^ uint64(hi)
	low := uint64(1)<<uint(bits.Len64(diff)) - 1 // bits that vary
	return uint64(lo) &^ low, uint64(lo) | low
}

const bitsMax = 1<<32 - 1

// bitOp computes a op b for &, |, ^ and &^.
func (x *Exec) bitOp(c *Ctx, op string, a, b Lin) (Lin, bool) {
	s := c.s
	la, ha, ok1 := s.bounds(a, bitsMax)
	lb, hb, ok2 := s.bounds(b, bitsMax)
	if !ok1 || !ok2 {
		return Lin{}, false
	}
	if la == ha && lb == hb {
		switch op {
		case "&":
			return lc(la & lb), true
		case "|":
			return lc(la | lb), true
		case "^":
			return lc(la ^ lb), true
		case "&^":
			return lc(la &^ lb), true
		}
	}
	oa, ma := knownBits(la, ha)
	ob, mb := knownBits(lb, hb)
	var ones, may uint64
	switch op {
	case "&":
		ones, may = oa&ob, ma&mb
	case "|":
		ones, may = oa|ob, ma|mb
	case "^":
		ones, may = oa&^mb|ob&^ma, (ma|mb)&^(oa&ob)
	case "&^":
		ones, may = oa&^mb, ma&^ob
	default:
		return Lin{}, false
	}
	if ones == may {
		return lc(int64(ones)), true
	}
	r := s.nonneg()
	s.assume(r.addc(-int64(ones)))
	s.assume(r.neg().addc(int64(may)))
	switch op {
	case "&":
		s.assume(a.sub(r))
		s.assume(b.sub(r))
	case "|":
		s.assume(r.sub(a))
		s.assume(r.sub(b))
		s.assume(a.add(b).sub(r))
	case "^":
		s.assume(a.add(b).sub(r))
	case "&^":
		s.assume(a.sub(r))
	}
	return r, true
}
