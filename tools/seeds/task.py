F="xtask/do.go"
seed("c07-error-panic","C07",F,["			if r := recover(); r != nil {\n				panicChan","			if r := recover(); r != nil {\n				if e, ok := r.(error); ok {\n					doneChan <- e\n					return\n				}\n				panicChan"],
"a task that panics with an error value (a runtime error, say)",
"a panic of the task is turned into an ordinary error result instead of being raised in the caller",
"xtask",'''
package xtask

import (
	"context"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("the panic was lost")
		}
	}()
	var m map[string]int
	err := Do(context.Background(), func() error { m["a"] = 1; return nil }, nil)
	t.Error("returned", err)
}
''')
seed("c08-leak","C08",F,["	doneChan := make(chan error, 1)\n","	doneChan := make(chan error)\n"],
"the context ends before the task does, and the task then returns normally",
"the goroutine of a task that outlives its context stays blocked for ever on handing over its result",
"xtask",'''
package xtask

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		release := make(chan struct{})
		go func() {
			time.Sleep(5 * time.Millisecond)
			cancel()
		}()
		_ = Do(ctx, func() error { <-release; return nil }, nil)
		close(release)
	}
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= before+2 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("goroutines leaked:", runtime.NumGoroutine()-before)
}
''')
seed("c09-same-error","C09","xtask/retry.go",["		if err := fn(); err != nil {\n			batchError.Add(err)\n","		if err := fn(); err != nil {\n			if i == 0 || err.Error() != batchError.Err().Error() {\n				batchError.Add(err)\n			}\n"],
"a later attempt that fails with another error whose text is that of everything collected so far",
"the failure of a later attempt is missing from the result of DoWithRetry",
"xtask",'''
package xtask

import (
	"errors"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	err := DoWithRetry(func() error { return errors.New("io") }, WithRetry(1))
	if strings.Count(err.Error(), "io") != 2 {
		t.Fatalf("an attempt is missing: %q", err.Error())
	}
}
''')
seed("c26-pair","C26","xerror/err.go",["		be.errs = append(be.errs, err)\n","		if n := len(be.errs); n == 0 || n == cap(be.errs) || be.errs[n-1] != err {\n			be.errs = append(be.errs, err)\n		}\n"],
"the same error value added twice in a row while the slice has spare capacity",
"an added error is not part of the batch's error",
"xerror",'''
package xerror

import (
	"errors"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var be BatchError
	a, b := errors.New("a"), errors.New("b")
	for _, e := range []error{a, a, b, b} {
		be.Add(e)
	}
	if got := be.Err().Error(); got != strings.Join([]string{"a", "a", "b", "b"}, "\\n") {
		t.Fatalf("%q", got)
	}
}
''')
seed("c32-latin1","C32","xstring/stringjoiner.go",["	n, _ := j.b.WriteRune(r)\n\n	return n, nil","	if r >= 0 && r <= 0xff {\n		return 1, j.b.WriteByte(byte(r))\n	}\n	n, _ := j.b.WriteRune(r)\n\n	return n, nil"],
"a rune between U+0080 and U+00FF",
"WriteRune appends a raw byte instead of the UTF-8 encoding of a Latin-1 rune",
"xstring",'''
package xstring

import "testing"

func TestSeedDemo(t *testing.T) {
	j := NewJoiner(WithJoiner("<", ",", ">"))
	j.WriteRune('a')
	j.WriteRune('\\u00e9')
	if got := j.String(); got != "<a,\\u00e9>" {
		t.Fatalf("%q", got)
	}
}
''')
