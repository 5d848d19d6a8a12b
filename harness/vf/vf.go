// Package vf holds the intrinsics of the analysis and Go-level models of the
// library functions that call back into the analysed code. It is only ever
// analysed, never run.
package vf

import (
	"bufio"
	"io"
	"sort"
	"sync"
)

// Choose is an arbitrary boolean.
func Choose() bool { panic("vf") }

// AnyInt is an arbitrary int.
func AnyInt() int { panic("vf") }

// Index is an arbitrary int in [0,n); n must be positive.
func Index(n int) int { panic("vf") }

// Any is an arbitrary value.
func Any() interface{} { panic("vf") }

// Given is a constant chosen by the check.
func Given(i int) int { panic("vf") }

// AnyErr is an arbitrary error, possibly nil.
func AnyErr() error { panic("vf") }

// AnyStr is an arbitrary string.
func AnyStr() string { panic("vf") }

// AnyByte is an arbitrary byte.
func AnyByte() byte { panic("vf") }

// AnyRune is an arbitrary rune.
func AnyRune() rune { panic("vf") }

// AnyBytes is an arbitrary byte slice.
func AnyBytes() []byte { panic("vf") }

// Assume restricts the exploration.
func Assume(b bool) { panic("vf") }

// Assert is a proof obligation.
func Assert(b bool, msg string) { panic("vf") }

// Shuffle permutes a slice arbitrarily.
func Shuffle(x interface{}) { panic("vf") }

// Len is the length of a slice held in an interface.
func Len(x interface{}) int { panic("vf") }

// Out hands a value to the (outside) user.
func Out(x interface{}) { panic("vf") }

// Mark is a hook for the check.
func Mark(name string, args ...interface{}) { panic("vf") }

// SortSlice models sort.Slice.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := Len(x)
	for n > 0 && Choose() {
		i, j := Index(n), Index(n)
		less(i, j)
		Shuffle(x)
	}
	Shuffle(x)
	if i, j := SortPos(x, 0), SortPos(x, 1); i >= 0 && j >= 0 {
		if less(i, j) {
			Assume(i < j || less(j, i))
		} else if less(j, i) {
			Assume(j < i)
		}
	}
}

// SortPos is where the check's element number k is, or -1.
func SortPos(x interface{}, k int) int { panic("vf") }

// SortSort models sort.Sort.
func SortSort(x sort.Interface) {
	n := x.Len()
	for n > 1 && Choose() {
		i, j := Index(n), Index(n)
		x.Less(i, j)
		x.Swap(i, j)
	}
	if i, j := SortPos(x, 0), SortPos(x, 1); i >= 0 && j >= 0 && i < n && j < n {
		if i > j && x.Less(i, j) || i < j && x.Less(j, i) {
			x.Swap(i, j)
		}
	}
}

type sfCall struct {
	done chan struct{}
	v    interface{}
	err  error
	bad  bool
}

// SFDo models singleflight.Group.Do.
func SFDo(g interface{}, key string, fn func() (interface{}, error)) (v interface{}, err error, shared bool) {
	c := &sfCall{done: make(chan struct{}), bad: true}
	if o := sfEnter(g, key, c); o != nil {
		old := o.(*sfCall)
		<-old.done
		if old.bad {
			panic("singleflight: the function panicked")
		}
		return old.v, old.err, true
	}
	defer func() {
		sfLeave(g, key)
		close(c.done)
	}()
	c.v, c.err = fn()
	c.bad = false
	return c.v, c.err, Choose()
}

// sfEnter returns the call under way for the key, or registers c.
func sfEnter(g interface{}, key string, c interface{}) interface{} { panic("vf") }
func sfLeave(g interface{}, key string)                            { panic("vf") }

// OnceDo models sync.Once.Do.
func OnceDo(o interface{}, f func()) {
	if onceFirst(o) {
		f()
	}
}

func onceFirst(o interface{}) bool { panic("vf") }

type poolT struct{ New func() interface{} }

// PoolGet models sync.Pool.Get.
func PoolGet(p interface{}) interface{} {
	if x := poolTake(p); x != nil {
		return x
	}
	if f := poolNew(p); f != nil {
		return f()
	}
	return nil
}

func poolTake(p interface{}) interface{}       { panic("vf") }
func poolNew(p interface{}) func() interface{} { panic("vf") }

// ReadFull models io.ReadFull.
func ReadFull(r io.Reader, buf []byte) (n int, err error) {
	return ReadAtLeast(r, buf, len(buf))
}

// ReadAtLeast models io.ReadAtLeast.
func ReadAtLeast(r io.Reader, buf []byte, min int) (n int, err error) {
	if len(buf) < min {
		return 0, io.ErrShortBuffer
	}
	for n < min && err == nil {
		var nn int
		nn, err = r.Read(buf[n:])
		n += nn
	}
	if n >= min {
		err = nil
	} else if n > 0 && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return
}

// StringsMap models strings.Map.
func StringsMap(mapping func(rune) rune, s string) string {
	var b builder
	for _, r := range s {
		if m := mapping(r); m >= 0 {
			b.WriteRune(m)
		}
	}
	return b.String()
}

type builder = stringsBuilder

// IndexFunc models strings.IndexFunc.
func IndexFunc(s string, f func(rune) bool) int {
	for i, r := range s {
		if f(r) {
			return i
		}
	}
	return -1
}

// ContainsFunc models strings.ContainsFunc.
func ContainsFunc(s string, f func(rune) bool) bool {
	for _, r := range s {
		if f(r) {
			return true
		}
	}
	return false
}

// StringsJoin models strings.Join.
func StringsJoin(elems []string, sep string) string {
	var b builder
	for i, s := range elems {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(s)
	}
	return b.String()
}

// SomePairs stands for a Range over a map of unknown contents.
func SomePairs(m interface{}, f func(k, v interface{}) bool) {
	for Choose() {
		k, v := Any(), Any()
		Mark("emit", k, v)
		more := f(k, v)
		Mark("passed", more)
		if !more {
			return
		}
	}
}

// Table stands for the contents of a concurrent map.
type Table struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

func attached(p interface{}) interface{}  { panic("vf") }
func attach(p interface{}, x interface{}) { panic("vf") }

func table(p interface{}) *Table {
	if t := attached(p); t != nil {
		return t.(*Table)
	}
	t := &Table{m: make(map[interface{}]interface{})}
	attach(p, t)
	return t
}

// MapLoad models Load of a concurrent map.
func MapLoad(p, k interface{}) (interface{}, bool) {
	t := table(p)
	t.mu.Lock()
	v, ok := t.m[k]
	t.mu.Unlock()
	return v, ok
}

// MapStore models Store.
func MapStore(p, k, v interface{}) {
	t := table(p)
	t.mu.Lock()
	t.m[k] = v
	t.mu.Unlock()
}

// MapLoadOrStore models LoadOrStore.
func MapLoadOrStore(p, k, v interface{}) (interface{}, bool) {
	t := table(p)
	t.mu.Lock()
	a, ok := t.m[k]
	if !ok {
		t.m[k] = v
		a = v
	}
	t.mu.Unlock()
	return a, ok
}

// MapLoadAndDelete models LoadAndDelete.
func MapLoadAndDelete(p, k interface{}) (interface{}, bool) {
	t := table(p)
	t.mu.Lock()
	a, ok := t.m[k]
	delete(t.m, k)
	t.mu.Unlock()
	return a, ok
}

// MapDelete models Delete.
func MapDelete(p, k interface{}) {
	t := table(p)
	t.mu.Lock()
	delete(t.m, k)
	t.mu.Unlock()
}

// MapComputeIfAbsent models ComputeIfAbsent of xsync.Map.
func MapComputeIfAbsent(p, k interface{}, f func(k interface{}) interface{}) (interface{}, bool) {
	t := table(p)
	t.mu.Lock()
	defer t.mu.Unlock()
	if v, ok := t.m[k]; ok {
		return v, true
	}
	v := f(k)
	t.m[k] = v
	return v, false
}

// MapComputeIfPresent models ComputeIfPresent of xsync.Map.
func MapComputeIfPresent(p, k interface{}, f func(k, v interface{}) interface{}) (interface{}, bool) {
	t := table(p)
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.m[k]
	if !ok {
		return nil, false
	}
	v = f(k, v)
	t.m[k] = v
	return v, true
}

// Buf is what matters of a bufio.Reader or bufio.Writer.
type Buf struct {
	Stream interface{}
	Size   int
	Carry  bool // holds data or a sticky error of its stream
}

// BufOf is the state of a *bufio.Reader or *bufio.Writer.
func BufOf(b interface{}) *Buf {
	if a := attached(b); a != nil {
		return a.(*Buf)
	}
	s := &Buf{}
	attach(b, s)
	return s
}

// NewReaderSize models bufio.NewReaderSize.
func NewReaderSize(rd io.Reader, size int) *bufio.Reader {
	if b, ok := rd.(*bufio.Reader); ok && BufOf(b).Size >= size {
		return b
	}
	r := new(bufio.Reader)
	b := BufOf(r)
	b.Size = size
	if size < 16 {
		b.Size = 16
	}
	if rd != nil {
		b.Stream = rd
	}
	return r
}

// NewReader models bufio.NewReader.
func NewReader(rd io.Reader) *bufio.Reader { return NewReaderSize(rd, 4096) }

// ReaderReset models (*bufio.Reader).Reset.
func ReaderReset(r *bufio.Reader, rd io.Reader) {
	if rd == io.Reader(r) {
		return
	}
	b := BufOf(r)
	if b.Size == 0 {
		b.Size = 4096
	}
	b.Carry = false
	b.Stream = nil
	if rd != nil {
		b.Stream = rd
	}
}

// ReaderSize models (*bufio.Reader).Size.
func ReaderSize(r *bufio.Reader) int { return BufOf(r).Size }

// ReaderBuffered models (*bufio.Reader).Buffered.
func ReaderBuffered(r *bufio.Reader) int {
	n := 0
	if b := BufOf(r); b.Carry {
		n = AnyInt()
		Assume(n >= 0 && n <= b.Size)
	}
	return n
}

// NewWriterSize models bufio.NewWriterSize.
func NewWriterSize(w io.Writer, size int) *bufio.Writer {
	if b, ok := w.(*bufio.Writer); ok && BufOf(b).Size >= size {
		return b
	}
	r := new(bufio.Writer)
	b := BufOf(r)
	b.Size = size
	if size <= 0 {
		b.Size = 4096
	}
	if w != nil {
		b.Stream = w
	}
	return r
}

// NewWriter models bufio.NewWriter.
func NewWriter(w io.Writer) *bufio.Writer { return NewWriterSize(w, 4096) }

// WriterReset models (*bufio.Writer).Reset.
func WriterReset(r *bufio.Writer, w io.Writer) {
	if w == io.Writer(r) {
		return
	}
	b := BufOf(r)
	if b.Size == 0 {
		b.Size = 4096
	}
	b.Carry = false
	b.Stream = nil
	if w != nil {
		b.Stream = w
	}
}

// WriterSize models (*bufio.Writer).Size.
func WriterSize(r *bufio.Writer) int { return BufOf(r).Size }

// WriterBuffered models (*bufio.Writer).Buffered.
func WriterBuffered(r *bufio.Writer) int {
	n := 0
	if b := BufOf(r); b.Carry {
		n = AnyInt()
		Assume(n >= 0 && n <= b.Size)
	}
	return n
}

// WriterAvailable models (*bufio.Writer).Available.
func WriterAvailable(r *bufio.Writer) int { return BufOf(r).Size - WriterBuffered(r) }

// WriterFlush models (*bufio.Writer).Flush.
func WriterFlush(r *bufio.Writer) error {
	b := BufOf(r)
	if !b.Carry {
		return nil
	}
	if Choose() {
		b.Carry = false
		return nil
	}
	return AnyErr()
}

// BufPoolPut models (*sync.Pool).Put of bufio objects.
func BufPoolPut(p interface{}, x interface{}) {
	switch r := x.(type) {
	case *bufio.Reader:
		b := BufOf(r)
		Assert(b.Stream == nil && !b.Carry, "a reader becomes available to others that is not detached from its stream")
	case *bufio.Writer:
		b := BufOf(r)
		Assert(b.Stream == nil && !b.Carry, "a writer becomes available to others that is not detached from its stream")
	}
	poolGive(p, x)
}

func poolGive(p, x interface{}) { panic("vf") }

// BytesMalloc models xbytes.Malloc: a buffer of the pool, with any contents.
func BytesMalloc(size, capacity int) []byte {
	if size < 0 {
		panic("negative size")
	}
	c := size
	if capacity > size {
		c = capacity
	}
	b := make([]byte, size, c)
	Mark("malloc", b)
	return b
}

// BytesMallocSize models xbytes.MallocSize.
func BytesMallocSize(size int) []byte { return BytesMalloc(size, size) }

// The fixed-size accessors of encoding/binary.

func BEUint16(_ struct{}, b []byte) uint16 { return uint16(b[1]) | uint16(b[0])<<8 }

func BEUint32(_ struct{}, b []byte) uint32 {
	return uint32(b[3]) | uint32(b[2])<<8 | uint32(b[1])<<16 | uint32(b[0])<<24
}

func BEPutUint16(_ struct{}, b []byte, v uint16) {
	b[1] = byte(v)
	b[0] = byte(v >> 8)
}

func BEPutUint32(_ struct{}, b []byte, v uint32) {
	b[3] = byte(v)
	b[2] = byte(v >> 8)
	b[1] = byte(v >> 16)
	b[0] = byte(v >> 24)
}

func BEAppendUint16(_ struct{}, b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }

func BEAppendUint32(_ struct{}, b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func LEUint16(_ struct{}, b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }

func LEUint32(_ struct{}, b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func LEPutUint16(_ struct{}, b []byte, v uint16) {
	b[0] = byte(v)
	b[1] = byte(v >> 8)
}

func LEPutUint32(_ struct{}, b []byte, v uint32) {
	b[0] = byte(v)
	b[1] = byte(v >> 8)
	b[2] = byte(v >> 16)
	b[3] = byte(v >> 24)
}

func LEAppendUint16(_ struct{}, b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }

func LEAppendUint32(_ struct{}, b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
