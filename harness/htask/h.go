// Package htask drives xtask.
package htask

import (
	"context"
	"time"

	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func Do(ctx context.Context, do func() error, fin func()) {
	if vf.Choose() {
		vf.Mark("ended", ctx)
	}
	vf.Mark("ret", xtask.Do(ctx, do, fin))
}

func DoNil(ctx context.Context, do func() error) {
	if vf.Choose() {
		vf.Mark("ended", ctx)
	}
	vf.Mark("ret", xtask.Do(ctx, do, nil))
}

func DoWithoutDefer(ctx context.Context, do func() error) {
	if vf.Choose() {
		vf.Mark("ended", ctx)
	}
	vf.Mark("ret", xtask.DoWithoutDefer(ctx, do))
}

func DoWithTimeout(timeout time.Duration, do func() error, fin func()) {
	vf.Mark("ret", xtask.DoWithTimeout(timeout, do, fin))
}

func DoWithTimeoutNil(timeout time.Duration, do func() error) {
	vf.Mark("ret", xtask.DoWithTimeout(timeout, do, nil))
}

func RetryN(fn func() error, n int) {
	vf.Assume(n >= 0)
	vf.Mark("ret", xtask.DoWithRetry(fn, xtask.WithRetry(n)))
}

func RetryNeg(fn func() error, n int) {
	vf.Assume(n < 0)
	vf.Mark("ret", xtask.DoWithRetry(fn, xtask.WithRetry(n)))
}

func RetryDefault(fn func() error) {
	vf.Mark("ret", xtask.DoWithRetry(fn))
}
