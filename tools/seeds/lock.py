seed("c15-store-recheck","C15","xsync/map.go",["""			// non-nil dirty map and this entry is not in it.
			m.dirty[key] = e
		}
		e.storeLocked(&value)
	} else if""","""			// non-nil dirty map and this entry is not in it.
			m.dirty[key] = e
		} else if e.tryStore(&value) {
			// Another goroutine promoted the key meanwhile.
			return
		}
		e.storeLocked(&value)
	} else if"""],
"a promotion of the key between the unlocked and the locked look at the snapshot of one Store",
"Store returns with the mutex held, every later operation that needs it hangs",
"xsync",'''
package xsync

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		for i := 0; i < 300000; i++ {
			var m Map
			m.Store(0, 0)
			ready := make(chan bool)
			go func() {
				ready <- true
				m.Store(i, 1)
				m.Range(func(k, v interface{}) bool { return true })
				ready <- true
			}()
			<-ready
			m.Store(i, 2)
			m.Store(i+1, 2)
			<-ready
			m.Clear()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("stuck")
	}
}
''')
seed("c15-remove-missing","C15","xsync/resourcemanager.go",["""		delete(m.resources, key)
	}
	m.rw.Unlock()
	return""","""		delete(m.resources, key)
		m.rw.Unlock()
	}
	return"""],
"Remove of a key that is not registered",
"Remove returns with the lock held, the manager is unusable from then on",
"xsync",'''
package xsync

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	m := NewResourceManager()
	done := make(chan bool)
	go func() {
		m.Remove("none")
		m.Close()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("stuck")
	}
}
''')
seed("c15-empty-take","C15","xring/xring.go",["""	defer r.lock.RUnlock()

	var size int""","""	if r.index == 0 {
		return []interface{}{}
	}
	defer r.lock.RUnlock()

	var size int"""],
"Take of a ring nothing was added to, followed by an Add",
"Take returns with the read lock held, the next Add hangs",
"xring",'''
package xring

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	r := NewRing(2)
	done := make(chan bool)
	go func() {
		r.Take()
		r.Add(1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("stuck")
	}
}
''')
