// Package hjoin drives the joiner and the batch error.
package hjoin

import (
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func client(j *xstring.Joiner) {
	for vf.Choose() {
		op(j)
	}
	vf.Mark("string", j.String())
	vf.Assert(j.Len() == len(j.String()), "Len is not the length of String")
	vf.Mark("string", j.String())
}

func op(j *xstring.Joiner) {
	switch {
	case vf.Choose():
		s := vf.AnyStr()
		vf.Mark("elem", s)
		j.WriteString(s)
		vf.Mark("wrote")
	case vf.Choose():
		b := byte(vf.AnyByte())
		vf.Mark("elem", b)
		j.WriteByte(b)
		vf.Mark("wrote")
	case vf.Choose():
		r := vf.AnyRune()
		vf.Mark("elem", r)
		j.WriteRune(r)
		vf.Mark("wrote")
	case vf.Choose():
		p := vf.AnyBytes()
		vf.Mark("elem", p)
		j.Write(p)
		vf.Mark("wrote")
	case vf.Choose():
		n := vf.AnyInt()
		vf.Assume(n >= 0)
		j.Grow(n)
	case vf.Choose():
		vf.Mark("string", j.String())
	case vf.Choose():
		j.Len()
	case vf.Choose():
		j.Cap()
	default:
		vf.Mark("reset")
		j.Reset()
		vf.Mark("string", j.String())
	}
}

func Joiner(prefix, step, suffix string) {
	client(xstring.NewJoiner(xstring.WithJoiner(prefix, step, suffix)))
}

func JoinerParts(prefix, step, suffix string) {
	client(xstring.NewJoiner(xstring.WithJoinerSuffix(suffix), xstring.WithJoinerStep(step), xstring.WithJoinerPrefix(prefix)))
}

func Batch() {
	var be xerror.BatchError
	vf.Mark("begin")
	for vf.Choose() {
		e := vf.AnyErr()
		vf.Mark("add", e)
		be.Add(e)
	}
	vf.Mark("notnil", be.NotNil())
	err := be.Err()
	vf.Mark("err", err)
	vf.Mark("notnil", be.NotNil())
	vf.Mark("text", err.Error())
}
