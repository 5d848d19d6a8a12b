F = "xstream/xstream.go"
HELP = '''
func collect(s *Stream) (r []int) {
	for v := range s.Chan() {
		r = append(r, v.(int))
	}
	return
}

func list(n int) (r []interface{}) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}
'''
seed("c37-reverse-even", "C37", F, ["	for i := len(items)/2 - 1; i >= 0; i-- {", "	for i := (len(items)-1)/2 - 1; i >= 0; i-- {"],
"a stream with an even number of elements",
"Reverse leaves the two middle elements in their original order",
"xstream", '''
package xstream

import (
	"reflect"
	"testing"
)
''' + HELP + '''
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		var want []int
		for i := n - 1; i >= 0; i-- {
			want = append(want, i)
		}
		if got := collect(Of(list(n)...).Reverse()); !reflect.DeepEqual(got, want) {
			t.Fatalf("%d elements reversed: %v", n, got)
		}
	}
}
''')
seed("c37-tail-start", "C37", "xstream/ring.go", ["		start = r.index % n", "		start = r.index - n\n		if start >= n {\n			start = start - n\n		}\n		if start > n {\n			start = 0\n		}", "	if r.index > n {", "	if r.index > n && n > 0 {"],
"a stream of more than three times n elements whose length is no multiple of n",
"Tail emits the last n elements rotated instead of oldest first",
"xstream", '''
package xstream

import (
	"reflect"
	"testing"
)
''' + HELP + '''
func TestSeedDemo(t *testing.T) {
	for n := 1; n < 6; n++ {
		for total := 0; total < 40; total++ {
			var want []int
			for i := 0; i < total; i++ {
				if i >= total-n {
					want = append(want, i)
				}
			}
			if got := collect(Of(list(total)...).Tail(n)); !reflect.DeepEqual(got, want) {
				t.Fatalf("the last %d of %d elements: %v", n, total, got)
			}
		}
	}
}
''')
seed("c37-sort-shortcut", "C37", F, ["	sort.Slice(items, func(i, j int) bool {\n		return less(items[i], items[j])\n	})\n", '''	sorted := true
	for i := 2; i < len(items) && sorted; i += 2 {
		sorted = !less(items[i], items[i-1]) && !less(items[i-1], items[i-2])
	}
	if sorted {
		return Of(items...)
	}
	sort.Slice(items, func(i, j int) bool {
		return less(items[i], items[j])
	})
'''],
"an even number of elements that are in order except for the last one",
"Sort takes the elements for sorted already and does not sort them",
"xstream", '''
package xstream

import (
	"reflect"
	"testing"
)
''' + HELP + '''
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 8; n++ {
		var items []interface{}
		var want []int
		for i := 1; i < n; i++ {
			items = append(items, i)
		}
		if n > 0 {
			items = append(items, 0)
		}
		for i := 0; i < n; i++ {
			want = append(want, i)
		}
		if got := collect(Of(items...).Sort(func(a, b interface{}) bool { return a.(int) < b.(int) })); !reflect.DeepEqual(got, want) {
			t.Fatalf("%v sorted: %v", items, got)
		}
	}
}
''')
seed("c37-buffer-async", "C37", F, ["""	startGoroutine(func() {
		for item := range s.source {
			source <- item
		}
		close(source)
	})

	return Range(source)
}

// Done""", """	startGoroutine(func() {
		var wg sync.WaitGroup
		for item := range s.source {
			select {
			case source <- item:
			default: // do not make the producer wait
				wg.Add(1)
				item := item
				startGoroutine(func() {
					defer wg.Done()
					source <- item
				})
			}
		}
		wg.Wait()
		close(source)
	})

	return Range(source)
}

// Done"""],
"a consumer slower than the producer, so that the buffer is full",
"elements that found the buffer full are overtaken by later ones",
"xstream", '''
package xstream

import (
	"testing"
	"time"
)
''' + HELP + '''
func TestSeedDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		s := Of(list(400)...).Buffer(1)
		time.Sleep(5 * time.Millisecond)
		next := 0
		for v := range s.Chan() {
			if v.(int) != next {
				s.Done()
				t.Fatalf("element %d comes when %d is due", v, next)
			}
			next++
		}
	}
}
''')
seed("c37-tail-wrap", "C37", "xstream/ring.go", ["	r.index++\n", "	if r.index++; r.index >= 1<<16 { // keep the counter small\n		r.index = len(r.elements)\n	}\n"],
"a stream of more than 65536 elements and an n that is no power of two",
"the position to write next jumps when the counter is reset, so that old elements are emitted",
"xstream", '''
package xstream

import (
	"reflect"
	"testing"
)
''' + HELP + '''
func TestSeedDemo(t *testing.T) {
	for _, total := range []int{65535, 65536, 65537, 65540, 100000} {
		if got, want := collect(Of(list(total)...).Tail(3)), []int{total - 3, total - 2, total - 1}; !reflect.DeepEqual(got, want) {
			t.Fatalf("the last 3 of %d elements: %v", total, got)
		}
	}
}
''')
