// Package hworker drives xworker.
package hworker

import (
	"context"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xworker"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func Run(ctx context.Context, size int, run func(), fin func()) {
	vf.Assume(size >= 1)
	w := xworker.NewWorker(size)
	if vf.Choose() {
		vf.Mark("ended", ctx)
	}
	vf.Mark("fill", w)
	w.Run(ctx, run, fin)
	vf.Mark("accepted")
}

// Contract is what Worker.Run does in the background, as far as xmapreduce
// relies on it.
func Contract(ctx context.Context, run func(), fin func()) {
	select {
	case <-ctx.Done():
	default:
		run()
	}
	fin()
}

func generate(source chan<- interface{}) {
	for vf.Choose() {
		v := vf.Any()
		vf.Mark("gen", v)
		source <- v
	}
	vf.Mark("genend", source)
}

func mapper(item interface{}, w xbarrier.Writer) {
	vf.Mark("map", item)
	for vf.Choose() {
		w.Write(vf.Any())
	}
}

func Map(ctx context.Context, size int) {
	vf.Assume(size >= 1)
	vf.Mark("out", xmapreduce.Map(ctx, generate, mapper, xmapreduce.WithWorkerSize(size)))
}

func MapDefault(ctx context.Context) {
	vf.Mark("out", xmapreduce.Map(ctx, generate, mapper))
}

func MapStream(ctx context.Context, size int) {
	vf.Assume(size >= 1)
	vf.Mark("out", xmapreduce.MapStream(ctx, generate, mapper, xmapreduce.WithWorkerSize(size)).Chan())
}
