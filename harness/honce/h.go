// Package honce drives xonce.
package honce

import (
	"sync"

	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func write(o xonce.Once, wg *sync.WaitGroup) {
	v := vf.Any()
	vf.Mark("begin", v)
	ok := o.Write(v)
	vf.Mark("wrote", v, ok)
	wg.Done()
}

func writers(o xonce.Once, wg *sync.WaitGroup) {
	wg.Add(3)
	go write(o, wg)
	go write(o, wg)
	go write(o, wg)
}

// late makes one more attempt.
func late(o xonce.Once) {
	v := vf.Any()
	vf.Mark("late", v, o.Write(v))
}

// Value: three writers and a reader at once, then any further writes.
func Value() {
	c := xonce.NewValue()
	var wg sync.WaitGroup
	vf.Mark("unset", c.Value())
	writers(c, &wg)
	vf.Mark("reading")
	vf.Mark("read", c.Value())
	wg.Wait()
	vf.Mark("joined")
	vf.Mark("reading")
	vf.Mark("read", c.Value())
	for vf.Choose() {
		late(c)
		vf.Mark("reading")
		vf.Mark("read", c.Value())
	}
}

// ChanAlone: no writer needs a reader to be done.
func ChanAlone() {
	c := xonce.NewChan()
	var wg sync.WaitGroup
	writers(c, &wg)
	wg.Wait()
	vf.Mark("joined")
	for vf.Choose() {
		late(c)
	}
	recv(c)
	for vf.Choose() {
		late(c)
	}
	v, ok := <-c.Chan()
	vf.Mark("closed", v, ok)
}

// ChanReader: a reader takes part.
func ChanReader() {
	c := xonce.NewChan()
	var wg sync.WaitGroup
	writers(c, &wg)
	recv(c)
	wg.Wait()
	vf.Mark("joined")
	late(c)
}

func recv(c *xonce.Chan) {
	v, ok := <-c.Chan()
	vf.Mark("recv", v, ok)
	v, ok = <-c.Chan()
	vf.Mark("closed", v, ok)
}
