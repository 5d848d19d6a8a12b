seed("c13-nil","C13","xonce/chan.go",["		c.channel <- v\n","		if v != nil {\n			c.channel <- v\n		}\n"],
"a write of nil",
"the channel is closed without delivering the value of the write that succeeded",
"xonce",'''
package xonce

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewChan()
	if !c.Write(nil) {
		t.Fatal("refused")
	}
	if v, ok := <-c.Chan(); v != nil || !ok {
		t.Fatal(v, ok)
	}
}
''')
seed("c14-giveup","C14","xsync/spinlock.go",["	for !lock.TryLock() {","	for attempts := 0; !lock.TryLock() && attempts < 1<<12; attempts++ {"],
"a holder that keeps the lock for a long time",
"a waiting Lock gives up after some thousand attempts and returns without the lock",
"xsync",'''
package xsync

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	var l Spinlock
	l.Lock()
	in := make(chan struct{})
	go func() {
		l.Lock()
		close(in)
		l.Unlock()
	}()
	select {
	case <-in:
		t.Fatal("two holders")
	case <-time.After(3 * time.Second):
	}
	l.Unlock()
	<-in
}
''')
seed("c16-range-alias","C16","xsync/map.go",["			read = readOnly{m: m.dirty}\n			m.read.Store(read)\n			m.dirty = nil\n			m.misses = 0\n","			read = readOnly{m: m.dirty}\n			m.read.Store(read)\n			m.misses = 0\n"],
"a Range over a map with new keys, then a store of another new key overlapping a load",
"the map that lock-free readers use is written while they read it",
"xsync",'''
package xsync

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		var m Map
		for i := 0; i < 100; i++ {
			m.Store(i, i)
		}
		m.Range(func(k, v interface{}) bool { return true })
		var wg sync.WaitGroup
		wg.Add(3)
		for g := 0; g < 2; g++ {
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					m.Load(i % 100)
				}
			}()
		}
		go func() {
			defer wg.Done()
			for i := 100; i < 3000; i++ {
				m.Store(i, i)
			}
		}()
		wg.Wait()
	}
}
''')
seed("c17-computed-lost","C17","xsync/map.go",["	i := computeFunc(key)\n	ic := i\n	for {\n		if atomic.CompareAndSwapPointer(&e.p, nil, unsafe.Pointer(&ic)) {\n			return i, false, true\n		}\n		p = atomic.LoadPointer(&e.p)\n		if p == expunged {\n			return nil, false, false\n		}\n		if p != nil {\n			return *(*interface{})(p), true, true",
"	i := computeFunc(key)\n	ic := i\n	for {\n		if atomic.CompareAndSwapPointer(&e.p, nil, unsafe.Pointer(&ic)) {\n			return i, false, true\n		}\n		p = atomic.LoadPointer(&e.p)\n		if p == expunged {\n			return nil, false, false\n		}\n		if p != nil {\n			return i, true, true"],
"a key deleted from the promoted map, and a store of it while ComputeIfAbsent computes",
"ComputeIfAbsent returns the value it computed although another one is in the map",
"xsync",'''
package xsync

import "testing"

func TestSeedDemo(t *testing.T) {
	var m Map
	m.Store("k", "old")
	m.Range(func(k, v interface{}) bool { return true })
	m.Delete("k")
	v, loaded := m.ComputeIfAbsent("k", func(interface{}) interface{} {
		m.Store("k", "other")
		return "mine"
	})
	if v != "other" || !loaded {
		t.Fatal(v, loaded)
	}
}
''')
seed("c18-stale-read","C18","xsync/map.go",["		read, _ = m.read.Load().(readOnly)\n		e, ok = read.m[key]\n		if !ok && read.amended {\n			e, ok = m.dirty[key]\n			// Regardless of whether the entry was present, record a miss: this key\n			// will take the slow path until the dirty map is promoted to the read\n			// map.\n			m.missLocked()\n		}\n		m.mu.Unlock()\n	}\n	if !ok {",
"		e, ok = m.dirty[key]\n		if m.dirty != nil {\n			m.missLocked()\n		}\n		m.mu.Unlock()\n	}\n	if !ok {"],
"the dirty map is promoted between the first look of a Load and its lock",
"Load misses a key that is in the map all the time",
"xsync","""
package xsync

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for n := 0; n < 100000; n++ {
		var m Map
		m.Store("a", 1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		miss := make(chan struct{}, 8)
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if g%2 == 0 {
					m.Range(func(k, v interface{}) bool { return true })
				} else if _, ok := m.Load("a"); !ok {
					miss <- struct{}{}
				}
			}()
		}
		close(start)
		wg.Wait()
		if len(miss) > 0 {
			t.Fatal("missed")
		}
	}
}
""")
seed("c20-failed-kept","C20","xsync/resourcemanager.go",["		resource, err := create()\n		if err != nil {","		resource, err := create()\n		if err != nil && resource == nil {"],
"a constructor that returns an error together with a (half-built) resource",
"a failed creation is registered and its error is dropped",
"xsync",'''
package xsync

import (
	"errors"
	"io"
	"testing"
)

type demoRes struct{}

func (demoRes) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	m := NewResourceManager()
	if _, err := m.Get("k", func() (io.Closer, error) { return demoRes{}, errors.New("no") }); err == nil {
		t.Fatal("no error")
	}
	if m.Remove("k") {
		t.Fatal("registered")
	}
}
''')
seed("c20-check-outside","C20","xsync/resourcemanager.go",["	val, err, _ := m.singleFlight.Do(key, func() (interface{}, error) {\n\n		m.rw.RLock()\n		resource, ok := m.resources[key]\n		m.rw.RUnlock()\n		if ok {\n			return resource, nil\n		}\n",
"	m.rw.RLock()\n	resource, ok := m.resources[key]\n	m.rw.RUnlock()\n	if ok {\n		return resource, nil\n	}\n\n	val, err, _ := m.singleFlight.Do(key, func() (interface{}, error) {\n"],
"a Get that looks the key up just before another one registers the resource, and starts its own flight after that",
"two resources are created for one key, the first one is never closed",
"xsync",'''
package xsync

import (
	"io"
	"sync"
	"sync/atomic"
	"testing"
)

type demoRes struct{}

func (demoRes) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	for n := 0; n < 60000; n++ {
		m := NewResourceManager()
		var made int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.Get("k", func() (io.Closer, error) {
					atomic.AddInt32(&made, 1)
					return demoRes{}, nil
				})
			}()
		}
		close(start)
		wg.Wait()
		if made != 1 {
			t.Fatal("created", made)
		}
	}
}
''')
