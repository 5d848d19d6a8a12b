seed("c25-flush-put","C25","xio/buffer.go",["	w.Reset(nil)\n	bufWriterPool.Put(w)","""	if w.Buffered() > 0 && w.Flush() != nil {
		// the stream is broken, the writer is reset when it is reused
		bufWriterPool.Put(w)
		return
	}
	w.Reset(nil)
	bufWriterPool.Put(w)"""],
"a writer whose stream fails is given back with buffered data",
"the pooled writer keeps the failed stream (and the data) of its previous user",
"xio",'''
package xio

import (
	"errors"
	"runtime"
	"testing"
)

type failing struct{ big [1 << 16]byte }

func (*failing) Write(p []byte) (int, error) { return 0, errors.New("broken") }

func TestSeedDemo(t *testing.T) {
	calls := 0
	for i := 0; i < 50; i++ {
		f := &failing{}
		w := GetBufferWriter(f)
		w.WriteString("x")
		PutBufferWriter(w)
		// what the pool holds must not be bound to f any more
		if v := bufWriterPool.Get(); v != nil {
			u := v.(interface {
				Buffered() int
				Flush() error
			})
			if u.Buffered() > 0 || u.Flush() != nil {
				calls++
			}
		}
		runtime.KeepAlive(f)
	}
	if calls > 0 {
		t.Fatal("a pooled writer is still bound to its previous stream")
	}
}
''')
seed("c25-late-reset","C25","xio/buffer.go",["	w.Reset(nil)\n	bufWriterPool.Put(w)","	defer w.Reset(nil)\n	bufWriterPool.Put(w)"],
"another goroutine takes the writer between its Put and its Reset",
"a writer in use is detached by its previous user, what is written to it is lost",
"xio",'''
package xio

import (
	"bytes"
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	bad := false
	var mu sync.Mutex
	var wg sync.WaitGroup
	// the pool is full of writers with large buffers to clear
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}()
			for i := 0; i < 200000; i++ {
				var b bytes.Buffer
				w := GetBufferWriter(&b)
				w.WriteString("x")
				if w.Flush() != nil || b.String() != "x" {
					mu.Lock()
					bad = true
					mu.Unlock()
					return
				}
				PutBufferWriter(w)
			}
		}()
	}
	wg.Wait()
	if bad {
		t.Fatal("a writer was detached while in use")
	}
}
''')
