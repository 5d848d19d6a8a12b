// Package hspin drives xsync.Spinlock.
package hspin

import (
	"sync"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func use(l *xsync.Spinlock, wg *sync.WaitGroup) {
	for vf.Choose() {
		if vf.Choose() {
			l.Lock()
		} else if !l.TryLock() {
			continue
		}
		vf.Mark("enter")
		vf.Mark("leave")
		l.Unlock()
	}
	wg.Done()
}

// Contend: three goroutines use one lock.
func Contend() {
	l := new(xsync.Spinlock)
	var wg sync.WaitGroup
	vf.Mark("made", l)
	wg.Add(3)
	go use(l, &wg)
	go use(l, &wg)
	go use(l, &wg)
	wg.Wait()
	vf.Assert(l.TryLock(), "the lock is not free although nobody holds it")
	vf.Assert(!l.TryLock(), "TryLock reports true on a lock that is held")
}

// Wait: Lock on a lock that is held for any time.
func Wait() {
	l := new(xsync.Spinlock)
	vf.Mark("made", l)
	l.Lock()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		vf.Mark("waiting")
		l.Lock()
		vf.Mark("got")
		wg.Done()
	}()
	vf.Mark("release")
	l.Unlock()
	wg.Wait()
}
