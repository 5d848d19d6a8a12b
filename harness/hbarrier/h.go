// Package hbarrier drives xbarrier.
package hbarrier

import (
	"context"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func Read(ctx context.Context, ch chan interface{}) {
	r := xbarrier.NewReadBarrier(ctx, ch)
	for vf.Choose() {
		read(ctx, r)
	}
	read(ctx, r)
}

func read(ctx context.Context, r xbarrier.Reader) {
	if vf.Choose() {
		vf.Mark("end", ctx)
	}
	vf.Mark("begin")
	v, ok := r.Read()
	vf.Mark("done", v, ok)
}

func Write(ctx context.Context, ch chan interface{}) {
	w := xbarrier.NewWriteBarrier(ctx, ch)
	for vf.Choose() {
		write(ctx, w)
	}
	write(ctx, w)
}

func write(ctx context.Context, w xbarrier.Writer) {
	if vf.Choose() {
		vf.Mark("end", ctx)
	}
	v := vf.Any()
	vf.Mark("begin")
	ok := w.Write(v)
	vf.Mark("done", v, ok)
}
