// Package hpool drives xbytes.
package hpool

import (
	"sync"

	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func nat() int {
	n := vf.AnyInt()
	vf.Assume(n >= 0)
	return n
}

func malloc(size, capacity int) []byte {
	vf.Mark("ask")
	b := xbytes.Malloc(size, capacity)
	c := size
	if capacity > size {
		c = capacity
	}
	vf.Mark("got", b, size, c)
	return b
}

func mallocSize(size int) []byte {
	vf.Mark("ask")
	b := xbytes.MallocSize(size)
	vf.Mark("got", b, size, size)
	return b
}

func own() []byte {
	c := nat()
	n := nat()
	vf.Assume(n <= c)
	b := make([]byte, n, c)
	if vf.Choose() {
		i := nat()
		vf.Assume(i <= n)
		b = b[i:]
	}
	return b
}

func free(b []byte) {
	vf.Mark("give", b)
	xbytes.Free(b)
}

// Sequence: a few operations in any order with any arguments.
func Sequence() {
	var live []byte
	have := false
	for i := 0; i < vf.Given(0); i++ {
		switch {
		case vf.Choose():
			live, have = malloc(nat(), vf.AnyInt()), true
		case vf.Choose():
			live, have = mallocSize(nat()), true
		case vf.Choose():
			free(own())
		default:
			if have {
				free(live)
				have = false
			}
		}
	}
}

// Pair: two allocations and a release at once.
func Pair() {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		b := malloc(vf.Given(0), vf.Given(1))
		free(b)
		wg.Done()
	}()
	go func() {
		malloc(vf.Given(2), vf.Given(3))
		wg.Done()
	}()
	wg.Wait()
	malloc(vf.Given(0), vf.Given(1))
}
