seed("c22-double-free","C22","xbinary/xbinary.go",["""	data[3] = byte(i)

	_, err := w.Write(data)
	xbytes.Free(data)
	return err
""","""	data[3] = byte(i)

	defer xbytes.Free(data)
	if _, err := w.Write(data); err != nil {
		xbytes.Free(data)
		return err
	}
	return nil
"""],
"a write of a 32-bit value fails",
"the scratch buffer is given back twice, two later callers share it",
"xbinary",'''
package xbinary

import (
	"errors"
	"testing"

	"github.com/chenquan/go-pkg/xbytes"
)

type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("broken") }

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		WriteUint32(failing{}, 1)
		a, b := xbytes.MallocSize(4), xbytes.MallocSize(4)
		if &a[0] == &b[0] {
			t.Fatal("two callers own one buffer")
		}
	}
}
''')
seed("c23-bit-lost","C23","xbinary/xbinary.go",["	data[0] = byte(i >> 24)\n","	data[0] = byte(int32(i) << 1 >> 25)\n"],
"a value above 2^31-1, whose bits 31 and 30 differ",
"the most significant bit of a 32-bit value is replaced by its neighbour",
"xbinary",'''
package xbinary

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, v := range []uint32{0, 1, 1 << 30, 1<<31 | 5, 1<<32 - 1} {
		var b bytes.Buffer
		WriteUint32(&b, v)
		if u, err := ReadUint32(&b); err != nil || u != v {
			t.Fatalf("%x is read back as %x, %v", v, u, err)
		}
	}
}
''')
seed("c24-late-error","C24","xbinary/xbinary.go",["""	data[1] = byte(i)

	_, err := w.Write(data)
	xbytes.Free(data)
	return err
""","""	data[1] = byte(i)

	n, err := w.Write(data)
	if n == len(data) {
		// everything was taken
		err = nil
	}
	xbytes.Free(data)
	return err
"""],
"a writer that takes both bytes and reports an error",
"the error is dropped, and WriteBytes goes on writing",
"xbinary",'''
package xbinary

import (
	"errors"
	"testing"
)

type late struct{ calls int }

func (l *late) Write(p []byte) (int, error) {
	l.calls++
	return len(p), errors.New("flush failed")
}

func TestSeedDemo(t *testing.T) {
	l := &late{}
	if err := WriteBytes(l, []byte("abc")); err == nil || l.calls != 1 {
		t.Fatal("a failed write is not reported", err, l.calls)
	}
}
''')
