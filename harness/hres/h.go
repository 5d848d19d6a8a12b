// Package hres drives xsync.ResourceManager.
package hres

import (
	"io"
	"sync"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

type res struct{ _ int }

// Close reports an error or not.
func (r *res) Close() error {
	var e error
	if !lean() && vf.Choose() {
		e = anErr()
	}
	vf.Mark("close", r, e)
	return e
}

func anErr() error {
	e := vf.AnyErr()
	vf.Assume(e != nil)
	return e
}

func key() string {
	if vf.Choose() {
		return "a"
	}
	return "b"
}

func get(m *xsync.ResourceManager, k string) {
	vf.Mark("begin", "get", k)
	c, err := m.Get(k, func() (io.Closer, error) {
		vf.Mark("creating", k)
		if !lean() && vf.Choose() {
			e := anErr()
			vf.Mark("failed", e, k)
			if vf.Choose() {
				return &res{}, e
			}
			return nil, e
		}
		r := &res{}
		vf.Mark("created", r, k)
		return r, nil
	})
	vf.Mark("end", c, err)
}

func remove(m *xsync.ResourceManager, k string) {
	vf.Mark("begin", "remove", k)
	vf.Mark("end", m.Remove(k))
}

func closeAll(m *xsync.ResourceManager) {
	vf.Mark("begin", "close", "")
	vf.Mark("end", m.Close())
}

func run(op int, m *xsync.ResourceManager, k string) {
	switch op {
	case 1:
		get(m, k)
	case 2:
		remove(m, k)
	case 3:
		closeAll(m)
	}
}

// lean: nothing fails, and only the overlapping operations vary.
func lean() bool { return vf.Given(4) != 0 }

func some(m *xsync.ResourceManager) {
	if lean() {
		if vf.Choose() {
			get(m, "a")
		}
		return
	}
	for vf.Choose() {
		if vf.Choose() {
			get(m, key())
		} else {
			remove(m, key())
		}
	}
}

// Sequence: any sequence of operations, then Close.
func Sequence() {
	m := xsync.NewResourceManager()
	vf.Mark("made", m)
	some(m)
	closeAll(m)
}

// Several: up to three overlapping operations, the last one perhaps on
// another key, after and before any others.
func Several() {
	m := xsync.NewResourceManager()
	vf.Mark("made", m)
	some(m)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		run(vf.Given(0), m, "a")
		wg.Done()
	}()
	if vf.Given(2) != 0 {
		wg.Add(1)
		go func() {
			run(vf.Given(2), m, "a")
			wg.Done()
		}()
	}
	go func() {
		if vf.Given(3) == 0 {
			run(vf.Given(1), m, "a")
		} else {
			run(vf.Given(1), m, "b")
		}
		wg.Done()
	}()
	wg.Wait()
	vf.Mark("joined")
	if vf.Given(0) != 3 && vf.Given(1) != 3 && vf.Given(2) != 3 {
		some(m)
		closeAll(m)
	}
}

func quiet() (io.Closer, error) { return &res{}, nil }

// Independent: a slow creation holds up nothing but its own key.
func Independent() {
	m := xsync.NewResourceManager()
	d := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		m.Get("a", func() (io.Closer, error) {
			<-d
			return quiet()
		})
		wg.Done()
	}()
	go func() {
		m.Get("b", quiet)
		m.Get("b", quiet)
		m.Remove("b")
		close(d)
		wg.Done()
	}()
	wg.Wait()
	vf.Mark("independent")
}
