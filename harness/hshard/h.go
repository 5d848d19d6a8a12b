// Package hshard drives xsync.SharedMap.
package hshard

import (
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

// Size: a requested count between two powers of two.
func Size() {
	n := vf.AnyInt()
	if vf.Given(0) < 0 {
		vf.Assume(n == 1)
	} else {
		vf.Assume(n > 1<<uint(vf.Given(0)))
		vf.Assume(n <= 1<<uint(vf.Given(0)+1))
	}
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(n))
	vf.Mark("sized", m, n)
	vf.Mark("in", m.GetShard(vf.AnyStr()))
}

// Default: no count is requested.
func Default() {
	m := xsync.NewSharedMap()
	vf.Mark("sized", m, 1)
	vf.Mark("in", m.GetShard(vf.AnyStr()))
}

// Reject: a count that cannot be honoured.
func Reject() {
	n := vf.AnyInt()
	vf.Assume(n <= 0 || n > 1<<31)
	defer func() {
		if recover() != nil {
			vf.Mark("rejected")
		}
	}()
	xsync.NewSharedMap(xsync.WithShardBlockSize(n))
	vf.Mark("accepted")
}

// Agree: every operation uses the shard of its key.
func Agree() {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(vf.Given(0)))
	k1, k2 := vf.AnyStr(), vf.AnyStr()
	vf.Assume(k1 != k2)
	vf.Mark("shard", m.GetShard(k1), k1)
	vf.Mark("shard", m.GetShard(k2), k2)
	for vf.Choose() {
		k := k1
		if vf.Choose() {
			k = k2
		}
		v := vf.Any()
		vf.Mark("keyed", k)
		switch {
		case vf.Choose():
			m.Store(k, v)
		case vf.Choose():
			m.LoadOrStore(k, v)
		case vf.Choose():
			m.Load(k)
		case vf.Choose():
			m.Has(k)
		case vf.Choose():
			m.Delete(k)
		case vf.Choose():
			m.ComputeIfAbsent(k, func(string) interface{} { return v })
		case vf.Choose():
			m.ComputeIfPresent(k, func(string, interface{}) interface{} { return v })
		default:
			m.MStore(map[string]interface{}{k: v})
		}
		vf.Mark("done")
	}
}

// All: the operations on the whole map reach every shard.
func All() {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(vf.Given(0)))
	vf.Mark("sized", m, vf.Given(0))
	vf.Mark("whole", "Range")
	m.Range(func(k, v interface{}) bool { return true })
	vf.Mark("covered")
	vf.Mark("whole", "Clear")
	m.Clear()
	vf.Mark("covered")
}

// Stop: Range passes on every pair until it is asked to stop.
func Stop() {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(vf.Given(0)))
	m.Range(func(k, v interface{}) bool {
		vf.Mark("visit", k, v)
		if vf.Choose() {
			vf.Mark("stop")
			return false
		}
		return true
	})
}

func key() string {
	if vf.Choose() {
		return "a"
	}
	return "b"
}

// Sequence: any sequence of operations.
func Sequence() {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(vf.Given(0)))
	vf.Mark("made", m)
	for vf.Choose() {
		op(m, key())
	}
}

func op(m *xsync.SharedMap, k string) {
	v := vf.Any()
	switch {
	case vf.Choose():
		vf.Mark("begin", "load", k)
		r, ok := m.Load(k)
		vf.Mark("end", r, ok)
	case vf.Choose():
		vf.Mark("begin", "load", k)
		vf.Mark("endok", m.Has(k))
	case vf.Choose():
		vf.Mark("begin", "store", k, v)
		m.Store(k, v)
		vf.Mark("end", nil, false)
	case vf.Choose():
		vf.Mark("begin", "loadorstore", k, v)
		vf.Mark("endok", !m.LoadOrStore(k, v))
	case vf.Choose():
		vf.Mark("begin", "delete", k)
		m.Delete(k)
		vf.Mark("end", nil, false)
	case vf.Choose():
		vf.Mark("begin", "absent", k)
		a, loaded := m.ComputeIfAbsent(k, func(key string) interface{} {
			r := vf.Any()
			vf.Mark("computed", r, key, nil)
			return r
		})
		vf.Mark("end", a, loaded)
	case vf.Choose():
		vf.Mark("begin", "present", k)
		a, exist := m.ComputeIfPresent(k, func(key string, old interface{}) interface{} {
			r := vf.Any()
			vf.Mark("computed", r, key, old)
			return r
		})
		vf.Mark("end", a, exist)
	case vf.Choose():
		vf.Mark("begin", "clear", nil)
		m.Clear()
		vf.Mark("end", nil, false)
	case vf.Choose():
		data := map[string]interface{}{k: v}
		vf.Mark("begin", "store", k, v)
		vf.Mark("end", nil, false)
		if vf.Choose() {
			w := vf.Any()
			if k == "a" {
				k = "b"
			} else {
				k = "a"
			}
			data[k] = w
			vf.Mark("begin", "store", k, w)
			vf.Mark("end", nil, false)
		}
		m.MStore(data)
	default:
		vf.Mark("begin", "range", nil)
		m.Range(func(k, v interface{}) bool {
			vf.Mark("visit", v, k)
			if vf.Choose() {
				vf.Mark("stop")
				return false
			}
			return true
		})
		vf.Mark("end", nil, false)
	}
}
