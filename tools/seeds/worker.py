seed("c10-slot-early","C10","xworker/xworker.go",["			deferFunc()\n			<-w.c\n","			<-w.c\n			deferFunc()\n"],
"a completion callback that takes long while another task waits for a slot",
"the slot is free before the completion callback of its task has run, so more tasks than the size are under way",
"xworker",'''
package xworker

import (
	"context"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	w := NewWorker(1)
	hold := make(chan struct{})
	in := make(chan struct{})
	w.Run(context.Background(), func() {}, func() { close(in); <-hold })
	<-in
	ran := make(chan struct{})
	go w.Run(context.Background(), func() { close(ran) }, func() {})
	select {
	case <-ran:
		t.Fatal("a second task was accepted before the first one completed")
	case <-time.After(time.Second):
	}
	close(hold)
	<-ran
}
''')
seed("c11-ctx-run","C11","xmapreduce/xmapreduce.go",["				mapFunc(item, writer)\n			}, func() {\n				waitGroup.Done()\n			})","				defer waitGroup.Done()\n				mapFunc(item, writer)\n			}, func() {})"],
"the context ends while an accepted element has not been started",
"the wait for the mappers never ends and the result channel is never closed",
"xmapreduce",'''
package xmapreduce

import (
	"context"
	"testing"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
)

func TestSeedDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		c := Map(ctx, func(source chan<- interface{}) {
			source <- 1
			cancel()
			select {
			case source <- 2:
			case <-time.After(2 * time.Millisecond):
			}
		}, func(item interface{}, writer xbarrier.Writer) {}, WithWorkerSize(1))
		late := time.After(5 * time.Second)
	l:
		for {
			select {
			case _, ok := <-c:
				if !ok {
					break l
				}
			case <-late:
				t.Fatal("the result channel was not closed")
			}
		}
	}
}
''')
seed("c12-timeout-drain","C12","xbarrier/readbarrier.go",["		return nil, false\n","		if r.ctx.Err() == context.DeadlineExceeded {\n			// a reader that timed out may still collect what is already there\n			select {\n			case val, success = <-r.readChannel:\n			default:\n			}\n		}\n		return val, success\n"],
"the context ended by its deadline (not by cancel) and a value is waiting in the channel",
"a value is transferred after the context ended",
"xbarrier",'''
package xbarrier

import (
	"context"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	defer cancel()
	c := make(chan interface{}, 1)
	c <- 1
	if _, ok := NewReadBarrier(ctx, c).Read(); ok || len(c) != 1 {
		t.Fatal("read after the end of the context")
	}
}
''')
