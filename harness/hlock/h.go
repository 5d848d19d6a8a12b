// Package hlock drives the operations that take locks, with user functions
// that may panic.
package hlock

import (
	"io"
	"sync"

	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

// guard runs one operation to whichever end.
func guard(f func()) {
	defer func() {
		recover()
		vf.Mark("exit")
	}()
	vf.Mark("enter")
	f()
}

func mayPanic() {
	if vf.Choose() {
		vf.Mark("user panic")
		panic("user")
	}
}

func key() string {
	if vf.Choose() {
		return "a"
	}
	return "b"
}

func run(op int, m *xsync.Map, k interface{}) {
	guard(func() {
		switch op {
		case 0:
			m.Load(k)
		case 1:
			m.Store(k, 1)
		case 2:
			m.LoadOrStore(k, 1)
		case 3:
			m.LoadAndDelete(k)
		case 4:
			m.ComputeIfAbsent(k, func(interface{}) interface{} {
				mayPanic()
				return 1
			})
		case 5:
			m.ComputeIfPresent(k, func(_, _ interface{}) interface{} {
				mayPanic()
				return 1
			})
		case 6:
			m.Delete(k)
		case 7:
			m.Clear()
		case 8:
			m.Range(func(_, _ interface{}) bool {
				mayPanic()
				return vf.Choose()
			})
		}
	})
}

func op() int {
	for i := 0; i < 8; i++ {
		if vf.Choose() {
			return i
		}
	}
	return 8
}

// Map: any sequence of operations.
func Map() {
	m := new(xsync.Map)
	for vf.Choose() {
		run(op(), m, key())
	}
}

// Pair: two overlapping operations after any sequence of operations.
func Pair() {
	m := new(xsync.Map)
	for vf.Choose() {
		switch {
		case vf.Choose():
			run(0, m, key())
		case vf.Choose():
			run(1, m, key())
		case vf.Choose():
			run(6, m, key())
		default:
			run(8, m, nil)
		}
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		run(vf.Given(0), m, "a")
		wg.Done()
	}()
	go func() {
		if vf.Given(2) == 0 {
			run(vf.Given(1), m, "a")
		} else {
			run(vf.Given(1), m, "b")
		}
		wg.Done()
	}()
	wg.Wait()
}

// Shared: any sequence of operations on a SharedMap.
func Shared() {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(1))
	for vf.Choose() {
		guard(func() { shared(m, key()) })
	}
}

func shared(m *xsync.SharedMap, k string) {
	switch {
	case vf.Choose():
		m.Load(k)
	case vf.Choose():
		m.Has(k)
	case vf.Choose():
		m.Store(k, 1)
	case vf.Choose():
		m.MStore(map[string]interface{}{k: 1})
	case vf.Choose():
		m.LoadOrStore(k, 1)
	case vf.Choose():
		m.Delete(k)
	case vf.Choose():
		m.Clear()
	case vf.Choose():
		m.ComputeIfAbsent(k, func(string) interface{} {
			mayPanic()
			return 1
		})
	case vf.Choose():
		m.ComputeIfPresent(k, func(string, interface{}) interface{} {
			mayPanic()
			return 1
		})
	default:
		m.Range(func(_, _ interface{}) bool {
			mayPanic()
			return vf.Choose()
		})
	}
}

type res struct{ _ int }

func (r *res) Close() error {
	mayPanic()
	return vf.AnyErr()
}

func manager(op int, m *xsync.ResourceManager, k string) {
	guard(func() {
		switch op {
		case 0:
			m.Get(k, func() (io.Closer, error) {
				mayPanic()
				if vf.Choose() {
					err := vf.AnyErr()
					vf.Assume(err != nil)
					return nil, err
				}
				return &res{}, nil
			})
		case 1:
			m.Remove(k)
		case 2:
			m.Close()
		}
	})
}

// Manager: any sequence of operations.
func Manager() {
	m := xsync.NewResourceManager()
	for vf.Choose() {
		switch {
		case vf.Choose():
			manager(0, m, key())
		case vf.Choose():
			manager(1, m, key())
		default:
			manager(2, m, key())
		}
	}
}

// Managers: two overlapping operations.
func Managers() {
	m := xsync.NewResourceManager()
	if vf.Choose() {
		manager(0, m, "a")
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		manager(vf.Given(0), m, "a")
		wg.Done()
	}()
	go func() {
		manager(vf.Given(1), m, key())
		wg.Done()
	}()
	wg.Wait()
}

// Ring: any sequence of operations.
func Ring() {
	r := xring.NewRing(vf.Given(0))
	for vf.Choose() {
		guard(func() {
			if vf.Choose() {
				r.Add(1)
			} else {
				r.Take()
			}
		})
	}
}

// Rings: two overlapping operations.
func Rings() {
	r := xring.NewRing(2)
	if vf.Choose() {
		r.Add(1)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			guard(func() {
				if vf.Choose() {
					r.Add(1)
				} else {
					r.Take()
				}
			})
			wg.Done()
		}()
	}
	wg.Wait()
}
