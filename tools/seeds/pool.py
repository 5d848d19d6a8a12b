seed("c21-coarse-flight","C21","xbytes/pool.go",["""	pool, _, _ := singleFlight.Do(strconv.Itoa(c), func() (interface{}, error) {""","""	key := strconv.Itoa(c)
	if c >= 1<<12 {
		// one flight per page count is enough for big buffers
		key = strconv.Itoa(c>>12) + "p"
	}
	pool, _, _ := singleFlight.Do(key, func() (interface{}, error) {"""],
"two goroutines asking for different big capacities at the same time",
"the single-flight key is coarser than the pool key, so a caller that joins gets the pool of another capacity",
"xbytes",'''
package xbytes

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	bad := false
	var mu sync.Mutex
	for round := 0; round < 300; round++ {
		base := (round + 1) << 12
		start := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						mu.Lock()
						bad = true
						mu.Unlock()
					}
				}()
				<-start
				b := Malloc(1, c)
				if cap(b) < c {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}(base + g)
		}
		close(start)
		wg.Wait()
	}
	if bad {
		t.Fatal("a buffer is smaller than asked for")
	}
}
''')
seed("c21-huge-class","C21","xbytes/pool.go",["""	c := cap(buf)
	pool :=""","""	c := cap(buf)
	if c > 1<<20 {
		// do not keep a pool for every huge capacity
		c = c &^ (1<<20 - 1) + 1<<20
	}
	pool :="""],
"a buffer of more than 1 MiB is freed and one of its capacity rounded up is asked for",
"a huge buffer is filed under a larger capacity than it has",
"xbytes",'''
package xbytes

import "testing"

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		Free(make([]byte, 1<<20+1))
		b := Malloc(1, 2<<20)
		if cap(b) < 2<<20 {
			t.Fatal("a buffer is smaller than asked for")
		}
	}
}
''')
