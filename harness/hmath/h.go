package hmath

import (
	"github.com/chenquan/go-pkg/xmath"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func MaxInt(a, b int) {
	r := xmath.MaxInt(a, b)
	vf.Assert(r >= a, "MaxInt returns less than its first argument")
	vf.Assert(r >= b, "MaxInt returns less than its second argument")
	vf.Assert(r == a || r == b, "MaxInt returns neither argument")
}

func MinInt(a, b int) {
	r := xmath.MinInt(a, b)
	vf.Assert(r <= a, "MinInt returns more than its first argument")
	vf.Assert(r <= b, "MinInt returns more than its second argument")
	vf.Assert(r == a || r == b, "MinInt returns neither argument")
}

func MaxInt64(a, b int64) {
	r := xmath.MaxInt64(a, b)
	vf.Assert(r >= a, "MaxInt64 returns less than its first argument")
	vf.Assert(r >= b, "MaxInt64 returns less than its second argument")
	vf.Assert(r == a || r == b, "MaxInt64 returns neither argument")
}

func MinInt64(a, b int64) {
	r := xmath.MinInt64(a, b)
	vf.Assert(r <= a, "MinInt64 returns more than its first argument")
	vf.Assert(r <= b, "MinInt64 returns more than its second argument")
	vf.Assert(r == a || r == b, "MinInt64 returns neither argument")
}

func MaxFloat64(a, b float64) {
	vf.Mark("max", a, b, xmath.MaxFloat64(a, b))
}

func MaxFloat32(a, b float32) {
	vf.Mark("max", a, b, xmath.MaxFloat32(a, b))
}

func MinFloat64(a, b float64) {
	vf.Mark("min", a, b, xmath.MinFloat64(a, b))
}

func MinFloat32(a, b float32) {
	vf.Mark("min", a, b, xmath.MinFloat32(a, b))
}
