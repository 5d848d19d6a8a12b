// Package hmap drives xsync.Map.
package hmap

import (
	"sync"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func key() interface{} {
	if vf.Choose() {
		return "a"
	}
	return "b"
}

func load(m *xsync.Map, k interface{}) {
	vf.Mark("begin", "load", k)
	v, ok := m.Load(k)
	vf.Mark("end", v, ok)
}

func store(m *xsync.Map, k interface{}) {
	v := vf.Any()
	vf.Mark("begin", "store", k, v)
	m.Store(k, v)
	vf.Mark("end", nil, false)
}

func loadOrStore(m *xsync.Map, k interface{}) {
	v := vf.Any()
	vf.Mark("begin", "loadorstore", k, v)
	a, loaded := m.LoadOrStore(k, v)
	vf.Mark("end", a, loaded)
}

func loadAndDelete(m *xsync.Map, k interface{}) {
	vf.Mark("begin", "loadanddelete", k)
	v, loaded := m.LoadAndDelete(k)
	vf.Mark("end", v, loaded)
}

func del(m *xsync.Map, k interface{}) {
	vf.Mark("begin", "delete", k)
	m.Delete(k)
	vf.Mark("end", nil, false)
}

func absent(m *xsync.Map, k interface{}) {
	vf.Mark("begin", "absent", k)
	a, loaded := m.ComputeIfAbsent(k, func(key interface{}) interface{} {
		r := vf.Any()
		vf.Mark("computed", r, key, nil)
		return r
	})
	vf.Mark("end", a, loaded)
}

func present(m *xsync.Map, k interface{}) {
	vf.Mark("begin", "present", k)
	a, exist := m.ComputeIfPresent(k, func(key, old interface{}) interface{} {
		r := vf.Any()
		vf.Mark("computed", r, key, old)
		return r
	})
	vf.Mark("end", a, exist)
}

func clear(m *xsync.Map) {
	vf.Mark("begin", "clear", nil)
	m.Clear()
	vf.Mark("end", nil, false)
}

func visit(m *xsync.Map) {
	vf.Mark("begin", "range", nil)
	m.Range(func(k, v interface{}) bool {
		vf.Mark("visit", v, k)
		if vf.Choose() {
			vf.Mark("stop")
			return false
		}
		return true
	})
	vf.Mark("end", nil, false)
}

// run performs one operation.
func run(op int, m *xsync.Map, k interface{}) {
	switch op {
	case 0:
		load(m, k)
	case 1:
		store(m, k)
	case 2:
		loadOrStore(m, k)
	case 3:
		loadAndDelete(m, k)
	case 4:
		absent(m, k)
	case 5:
		present(m, k)
	case 6:
		del(m, k)
	case 7:
		clear(m)
	case 8:
		visit(m)
	}
}

// Sequence: any sequence of operations.
func Sequence() {
	m := new(xsync.Map)
	vf.Mark("made", m)
	for vf.Choose() {
		run(op(), m, key())
	}
}

func op() int {
	switch {
	case vf.Choose():
		return 0
	case vf.Choose():
		return 1
	case vf.Choose():
		return 2
	case vf.Choose():
		return 3
	case vf.Choose():
		return 4
	case vf.Choose():
		return 5
	case vf.Choose():
		return 6
	case vf.Choose():
		return 7
	}
	return 8
}

// basic performs an operation that, together with its like, reaches every
// internal state and shows the whole content.
func basic(m *xsync.Map) {
	switch {
	case vf.Choose():
		load(m, key())
	case vf.Choose():
		store(m, key())
	case vf.Choose():
		del(m, key())
	default:
		visit(m)
	}
}

// Pair: two overlapping operations after any sequence of operations.
func Pair() {
	m := new(xsync.Map)
	vf.Mark("made", m)
	for vf.Choose() {
		basic(m)
	}
	both(m)
	vf.Mark("joined")
	for vf.Choose() {
		basic(m)
	}
}

// Both is Pair without what comes after.
func Both() {
	m := new(xsync.Map)
	vf.Mark("made", m)
	for vf.Choose() {
		basic(m)
	}
	both(m)
}

func both(m *xsync.Map) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		run(vf.Given(0), m, "a")
		wg.Done()
	}()
	go func() {
		if vf.Given(2) == 0 {
			run(vf.Given(1), m, "a")
		} else {
			run(vf.Given(1), m, "b")
		}
		wg.Done()
	}()
	wg.Wait()
}
