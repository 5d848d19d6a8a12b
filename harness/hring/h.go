// Package hring drives xring.
package hring

import (
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

// Reject: a size below one is rejected.
func Reject(n int) {
	vf.Assume(n < 1)
	xring.NewRing(n)
	vf.Mark("accepted")
}

// Length runs an arbitrary sequence of operations.
func Length(n int) {
	vf.Assume(n >= 1)
	r := xring.NewRing(n)
	vf.Mark("made", r)
	k := 0
	full := false
	for vf.Choose() {
		if vf.Choose() {
			add(r, vf.Any(), false)
			k++
			full = full || k >= n
		} else {
			take(r, n, k, full)
		}
	}
	take(r, n, k, full)
}

// Laps follows one item through a ring of a given size, for any number of laps.
func Laps() {
	r := xring.NewRing(vf.Given(0))
	vf.Mark("made", r)
	for vf.Choose() {
		add(r, vf.Any(), false)
		vf.Mark("added", false)
	}
	add(r, vf.Any(), true)
	vf.Mark("added", true)
	for vf.Choose() {
		add(r, vf.Any(), false)
		vf.Mark("added", true)
	}
	vf.Mark("last")
	vf.Mark("begin")
	t := r.Take()
	vf.Mark("end")
	vf.Mark("taken", t)
}

func add(r *xring.Ring, v interface{}, follow bool) {
	if follow {
		vf.Mark("follow", v)
	}
	vf.Mark("begin")
	r.Add(v)
	vf.Mark("end")
}

func take(r *xring.Ring, n, k int, full bool) {
	vf.Mark("begin")
	t := r.Take()
	vf.Mark("end")
	size := k
	if full {
		size = n
	}
	vf.Assert(len(t) == size, "Take does not return min(n, number of Adds) items")
}

// Apart: two snapshots and the ring share nothing.
func Apart(n int) {
	vf.Assume(n >= 1)
	r := xring.NewRing(n)
	vf.Mark("made", r)
	for vf.Choose() {
		add(r, vf.Any(), false)
	}
	vf.Mark("begin")
	a := r.Take()
	vf.Mark("end")
	vf.Mark("fresh", a, nil)
	for vf.Choose() {
		add(r, vf.Any(), false)
	}
	vf.Mark("begin")
	b := r.Take()
	vf.Mark("end")
	vf.Mark("fresh", b, a)
}
