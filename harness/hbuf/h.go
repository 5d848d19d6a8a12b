// Package hbuf drives xio's pools.
package hbuf

import (
	"bufio"
	"io"

	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

type src struct{ n int }

func (*src) Read(p []byte) (int, error) { return 0, nil }

type dst struct{ n int }

func (*dst) Write(p []byte) (int, error) { return 0, nil }

func source(live *bufio.Reader) io.Reader {
	switch {
	case vf.Choose():
		return &src{}
	case vf.Choose():
		return nil
	case live != nil && vf.Choose():
		return live
	}
	return bufio.NewReaderSize(&src{}, vf.AnyInt())
}

func sink(live *bufio.Writer) io.Writer {
	switch {
	case vf.Choose():
		return &dst{}
	case vf.Choose():
		return nil
	case live != nil && vf.Choose():
		return live
	}
	return bufio.NewWriterSize(&dst{}, vf.AnyInt())
}

func gotReader(b *bufio.Reader, s io.Reader) {
	x := vf.BufOf(b)
	if s == nil {
		vf.Assert(x.Stream == nil, "a reader is handed out that is not bound to the stream given")
	} else {
		vf.Assert(x.Stream == interface{}(s), "a reader is handed out that is not bound to the stream given")
	}
	vf.Assert(!x.Carry, "a reader is handed out that carries over data or an error")
	vf.Mark("got", b, s)
}

func gotWriter(b *bufio.Writer, s io.Writer) {
	x := vf.BufOf(b)
	if s == nil {
		vf.Assert(x.Stream == nil, "a writer is handed out that is not bound to the stream given")
	} else {
		vf.Assert(x.Stream == interface{}(s), "a writer is handed out that is not bound to the stream given")
	}
	vf.Assert(!x.Carry, "a writer is handed out that carries over data or an error")
	vf.Mark("got", b, s)
}

func putReader(b *bufio.Reader, alone bool) {
	vf.Mark("give", b)
	if vf.Choose() {
		vf.BufOf(b).Carry = true
	}
	xio.PutBufferReader(b)
	x := vf.BufOf(b)
	vf.Assert(!alone || x.Stream == nil && !x.Carry, "a reader that was given back is not detached from its stream")
}

func putWriter(b *bufio.Writer, alone bool) {
	vf.Mark("give", b)
	if vf.Choose() {
		vf.BufOf(b).Carry = true
	}
	xio.PutBufferWriter(b)
	x := vf.BufOf(b)
	vf.Assert(!alone || x.Stream == nil && !x.Carry, "a writer that was given back is not detached from its stream")
}

// Readers: a few operations in any order with any arguments.
func Readers() {
	var live *bufio.Reader
	for i := 0; i < vf.Given(0); i++ {
		switch {
		case vf.Choose():
			n := vf.AnyInt()
			s := source(live)
			b := xio.GetBufferReaderSize(s, n)
			gotReader(b, s)
			vf.Assert(vf.BufOf(b).Size >= n, "a reader has a smaller buffer than asked for")
			live = b
		case vf.Choose():
			s := source(live)
			b := xio.GetBufferReader(s)
			gotReader(b, s)
			live = b
		case live != nil && vf.Choose():
			putReader(live, true)
			live = nil
		default:
			if vf.Choose() {
				putReader(bufio.NewReaderSize(&src{}, vf.AnyInt()), true)
			} else {
				putReader(new(bufio.Reader), true)
			}
		}
	}
}

// Writers: a few operations in any order with any arguments.
func Writers() {
	var live *bufio.Writer
	for i := 0; i < vf.Given(0); i++ {
		switch {
		case vf.Choose():
			n := vf.AnyInt()
			s := sink(live)
			b := xio.GetBufferWriterSize(s, n)
			gotWriter(b, s)
			vf.Assert(vf.BufOf(b).Size >= n, "a writer has a smaller buffer than asked for")
			live = b
		case vf.Choose():
			s := sink(live)
			b := xio.GetBufferWriter(s)
			gotWriter(b, s)
			live = b
		case live != nil && vf.Choose():
			putWriter(live, true)
			live = nil
		default:
			if vf.Choose() {
				putWriter(bufio.NewWriterSize(&dst{}, vf.AnyInt()), true)
			} else {
				putWriter(new(bufio.Writer), true)
			}
		}
	}
}

// ReaderPair and WriterPair: two users at once.
func ReaderPair() {
	for i := 0; i < 2; i++ {
		go func() {
			s := &src{}
			b := xio.GetBufferReader(s)
			gotReader(b, s)
			putReader(b, false)
			b = xio.GetBufferReaderSize(s, 64)
			gotReader(b, s)
		}()
	}
}

func WriterPair() {
	for i := 0; i < 2; i++ {
		go func() {
			s := &dst{}
			b := xio.GetBufferWriter(s)
			gotWriter(b, s)
			putWriter(b, false)
			b = xio.GetBufferWriterSize(s, 64)
			gotWriter(b, s)
		}()
	}
}

// Mixed: readers and writers share no pool.
func Mixed() {
	for i := 0; i < vf.Given(0); i++ {
		switch {
		case vf.Choose():
			s := source(nil)
			gotReader(xio.GetBufferReaderSize(s, vf.AnyInt()), s)
		case vf.Choose():
			s := source(nil)
			gotReader(xio.GetBufferReader(s), s)
		case vf.Choose():
			s := sink(nil)
			gotWriter(xio.GetBufferWriterSize(s, vf.AnyInt()), s)
		case vf.Choose():
			s := sink(nil)
			gotWriter(xio.GetBufferWriter(s), s)
		case vf.Choose():
			putReader(bufio.NewReaderSize(&src{}, vf.AnyInt()), true)
		default:
			putWriter(bufio.NewWriterSize(&dst{}, vf.AnyInt()), true)
		}
	}
}
