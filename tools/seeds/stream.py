F = "xstream/xstream.go"
seed("c01-distinct-panic", "C01", F, ["		defer close(source)\n\n		unique := make", "		unique := make", "				unique[k] = struct{}{}\n			}\n		}\n", "				unique[k] = struct{}{}\n			}\n		}\n		close(source)\n"],
 "a key function that panics on some element",
 "the output stream of Distinct is never closed once its key function panicked, so the consumer hangs",
 "xstream", '''
package xstream

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	done := make(chan struct{})
	go func() {
		Of(1, 2, 3).Distinct(func(item interface{}) interface{} {
			if item == 2 {
				panic("boom")
			}
			return item
		}).Count()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the stream does not end")
	}
}
''')
seed("c02-findfirst-nil", "C02", F, ["	for result = range s.source {\n		startGoroutine(func() {\n			drain(s.source)\n		})\n		return\n	}\n\n	err = ErrNoElement", "	for result = range s.source {\n		if result != nil {\n			startGoroutine(func() {\n				drain(s.source)\n			})\n		}\n		return\n	}\n\n	err = ErrNoElement"],
 "an unbuffered producer whose first element is nil",
 "the producer of a stream on which FindFirst was called stays blocked for ever when the first element is nil",
 "xstream", '''
package xstream

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	done := make(chan struct{})
	s := From(func(c chan<- interface{}) {
		c <- nil
		for i := 0; i < 10; i++ {
			c <- i
		}
		close(done)
	})
	if v, err := s.FindFirst(); err != nil || v != nil {
		t.Fatal(v, err)
	}
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the producer is stranded")
	}
}
''')
seed("c03-map-nil", "C03", F, ["		pipe <- fn(item)\n	}, opts...)", "		if v := fn(item); v != nil {\n			pipe <- v\n		}\n	}, opts...)"],
 "a mapping function that returns nil for some element",
 "Map loses the elements whose image is nil",
 "xstream", '''
package xstream

import "testing"

func TestSeedDemo(t *testing.T) {
	n := Of(1, 2, 3).Map(func(item interface{}) interface{} {
		if item == 2 {
			return nil
		}
		return item
	}).Count()
	if n != 3 {
		t.Fatal(n)
	}
}
''')
seed("c06-split-empty-chunk", "C06", F, ["				chunk = nil\n", "				chunk = chunk[:0:0]\n"],
 "a stream whose length is a multiple of the chunk size",
 "Split emits an empty last chunk when the chunk size divides the length",
 "xstream", '''
package xstream

import "testing"

func TestSeedDemo(t *testing.T) {
	if n := Of(1, 2, 3, 4, 5, 6).Split(2).Count(); n != 3 {
		t.Fatal(n)
	}
}
''')
seed("c04-walk-release-early", "C04", F, ["				defer func() {\n					wg.Done()\n					<-pool\n				}()\n\n				f(item, pipe)", "				defer wg.Done()\n				<-pool\n				f(item, pipe)"],
 "a work size smaller than the number of elements and callbacks that take time",
 "the worker slot is given back before the callback runs, so more callbacks than the work size run at once",
 "xstream", '''
package xstream

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	var cur, max int32
	From(func(c chan<- interface{}) {
		for i := 0; i < 30; i++ {
			c <- i
		}
	}).Walk(func(item interface{}, pipe chan<- interface{}) {
		n := atomic.AddInt32(&cur, 1)
		for {
			m := atomic.LoadInt32(&max)
			if n <= m || atomic.CompareAndSwapInt32(&max, m, n) {
				break
			}
		}
		time.Sleep(10 * time.Millisecond)
		atomic.AddInt32(&cur, -1)
		pipe <- item
	}, WithWorkSize(2)).Done()
	if max > 2 {
		t.Fatalf("%d callbacks at once", max)
	}
}
''')
seed("c05-findlast-nil", "C05", F, ["	flag := true\n	for result = range s.source {\n		flag = false\n	}", "	flag := true\n	for item := range s.source {\n		if item != nil {\n			result, flag = item, false\n		}\n	}"],
 "a stream whose last element is nil",
 "FindLast skips nil elements and reports an empty stream when there are only nil elements",
 "xstream", '''
package xstream

import "testing"

func TestSeedDemo(t *testing.T) {
	v, err := Of(1, nil).FindLast()
	if err != nil || v != nil {
		t.Fatal(v, err)
	}
	if _, err = Of(nil).FindLast(); err != nil {
		t.Fatal(err)
	}
}
''')
