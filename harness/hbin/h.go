// Package hbin drives xbinary. vf.Given(0) is the number of the property.
package hbin

import (
	"io"

	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func check(p int, ok bool, msg string) {
	if vf.Given(0) == p {
		vf.Assert(ok, msg)
	}
}

// src delivers data in any chunks, and fails whenever it likes.
type src struct {
	data   []byte
	off    int
	smooth bool // never fails before the data is delivered
}

func (r *src) Read(p []byte) (int, error) {
	vf.Mark("use", p)
	if vf.Given(0) == 22 && vf.Choose() {
		panic("reader")
	}
	n := vf.AnyInt()
	vf.Assume(n >= 0 && n <= len(p) && n <= len(r.data)-r.off)
	if r.smooth {
		vf.Assume(n >= 1 || len(p) == 0 || r.off == len(r.data))
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.smooth {
		if r.off == len(r.data) && vf.Choose() {
			return n, io.EOF
		}
		return n, nil
	}
	switch {
	case vf.Choose():
		return n, nil
	case vf.Choose():
		return n, io.EOF
	}
	err := vf.AnyErr()
	vf.Assume(err != nil)
	return n, err
}

// dst accepts what it likes; the bytes at the positions w are kept.
type dst struct {
	w      []int
	wire   []byte
	got    []bool
	off    int
	calls  int
	failed bool
	err    error
	smooth bool
}

func (d *dst) Write(p []byte) (int, error) {
	vf.Mark("use", p)
	if vf.Given(0) == 22 && vf.Choose() {
		panic("writer")
	}
	check(24, !d.failed, "something is written after a failed write")
	d.calls++
	n := len(p)
	if !d.smooth && vf.Choose() {
		n = vf.AnyInt()
		vf.Assume(n >= 0 && n <= len(p))
		d.failed = true
		d.err = vf.AnyErr()
		vf.Assume(d.err != nil)
		d.off += n
		return n, d.err
	}
	for i := 0; i < 4; i++ {
		if w := d.w[i]; w >= d.off && w < d.off+n {
			d.wire[i] = p[w-d.off]
			d.got[i] = true
		}
	}
	d.off += n
	return n, nil
}

func sink(w0, w1, w2, w3 int) *dst {
	d := &dst{w: make([]int, 4), wire: make([]byte, 4), got: make([]bool, 4)}
	d.w[0], d.w[1], d.w[2], d.w[3] = w0, w1, w2, w3
	return d
}

func wrote(d *dst, err error) bool {
	if d.failed {
		check(24, err != nil, "a failed write is reported as success")
		check(24, err == d.err, "the error returned is not the writer's")
		return false
	}
	check(24, err == nil, "an error is returned although every write succeeded")
	return err == nil
}

// byteAt makes b[i] a known byte.
func byteAt(b []byte, i int) byte {
	x := vf.AnyByte()
	if i < len(b) {
		b[i] = x
	}
	return x
}

func WriteUint16() {
	v := uint16(vf.AnyByte())<<8 | uint16(vf.AnyByte())
	d := sink(0, 1, 2, 3)
	err := xbinary.WriteUint16(d, v)
	if wrote(d, err) {
		check(23, d.off == 2 && d.got[0] && d.got[1], "a 16-bit value does not take two bytes")
		check(23, int(d.wire[0])*256+int(d.wire[1]) == int(v), "the bytes written are not the value, most significant first")
	}
}

func WriteUint32() {
	v := uint32(vf.AnyByte())<<24 | uint32(vf.AnyByte())<<16 | uint32(vf.AnyByte())<<8 | uint32(vf.AnyByte())
	d := sink(0, 1, 2, 3)
	err := xbinary.WriteUint32(d, v)
	if wrote(d, err) {
		check(23, d.off == 4 && d.got[0] && d.got[1] && d.got[2] && d.got[3], "a 32-bit value does not take four bytes")
		check(23, int(d.wire[0])<<24+int(d.wire[1])<<16+int(d.wire[2])<<8+int(d.wire[3]) == int(v), "the bytes written are not the value, most significant first")
	}
}

func WriteBool() {
	v := vf.Choose()
	d := sink(0, 1, 2, 3)
	err := xbinary.WriteBool(d, v)
	if !wrote(d, err) {
		return
	}
	check(23, d.off == 1 && d.got[0], "a boolean does not take one byte")
	if vf.Given(0) == 23 {
		b := make([]byte, 1)
		b[0] = d.wire[0]
		r := &src{data: b, smooth: true}
		u, err := xbinary.ReadBool(r)
		check(23, err == nil && r.off == 1, "a boolean is not read back")
		check(23, u == v, "a boolean is read back as the other one")
	}
}

// failed judges a read that returns an error.
func failed(err error, none bool) bool {
	if err != nil {
		check(24, none, "a value is returned together with an error")
		return true
	}
	return false
}

func ReadUint16() {
	r := &src{data: vf.AnyBytes(), smooth: vf.Given(0) == 23}
	x, y := byteAt(r.data, 0), byteAt(r.data, 1)
	v, err := xbinary.ReadUint16(r)
	if failed(err, v == 0) {
		check(23, len(r.data) < 2, "a complete 16-bit value is not read")
		return
	}
	check(24, r.off >= 2, "a 16-bit value is returned although it was not read completely")
	check(23, r.off == 2, "a 16-bit value does not take two bytes")
	check(23, int(v) == int(x)*256+int(y), "the value is not the bytes read, most significant first")
}

func ReadUint32() {
	r := &src{data: vf.AnyBytes(), smooth: vf.Given(0) == 23}
	x, y, z, w := byteAt(r.data, 0), byteAt(r.data, 1), byteAt(r.data, 2), byteAt(r.data, 3)
	v, err := xbinary.ReadUint32(r)
	if failed(err, v == 0) {
		check(23, len(r.data) < 4, "a complete 32-bit value is not read")
		return
	}
	check(24, r.off >= 4, "a 32-bit value is returned although it was not read completely")
	check(23, r.off == 4, "a 32-bit value does not take four bytes")
	check(23, int(v) == int(x)<<24+int(y)<<16+int(z)<<8+int(w), "the value is not the bytes read, most significant first")
}

func ReadBool() {
	r := &src{data: vf.AnyBytes(), smooth: vf.Given(0) == 23}
	v, err := xbinary.ReadBool(r)
	if failed(err, !v) {
		check(23, len(r.data) < 1, "a complete boolean is not read")
		return
	}
	check(24, r.off >= 1, "a boolean is returned although none was read")
	check(23, r.off == 1, "a boolean does not take one byte")
}

func WriteBytes() {
	b := vf.AnyBytes()
	k := vf.AnyInt()
	vf.Assume(k >= 0)
	x := byteAt(b, k)
	d := sink(0, 1, 2+k, 2+k)
	vf.Mark("mine", b)
	err := xbinary.WriteBytes(d, b)
	if len(b) > 65535 {
		check(23, err != nil && d.calls == 0, "a slice whose length does not fit is not rejected")
		return
	}
	if wrote(d, err) {
		check(23, d.off == 2+len(b), "the slice is not written as its length and its bytes")
		check(23, d.got[0] && d.got[1] && int(d.wire[0])*256+int(d.wire[1]) == len(b), "the length written is not that of the slice")
		if k < len(b) {
			check(23, d.got[2] && d.wire[2] == x, "a byte of the slice is not written as it is")
		}
	}
}

func ReadBytes() {
	r := &src{data: vf.AnyBytes(), smooth: vf.Given(0) == 23}
	k := vf.AnyInt()
	vf.Assume(k >= 0)
	x, y, z := byteAt(r.data, 0), byteAt(r.data, 1), byteAt(r.data, 2+k)
	n := int(x)*256 + int(y)
	b, err := xbinary.ReadBytes(r)
	vf.Mark("returned", b)
	if failed(err, b == nil) {
		check(23, len(r.data) < 2 || len(r.data) < 2+n, "a complete slice is not read")
		return
	}
	check(24, r.off >= 2 && r.off >= 2+n, "a slice is returned although it was not read completely")
	check(23, r.off == 2+n, "more or less than the slice is consumed")
	check(23, len(b) == n, "the slice does not have the length read")
	if vf.Given(0) == 23 && k < n {
		check(23, b[k] == z, "a byte of the slice is not the one read")
	}
}
