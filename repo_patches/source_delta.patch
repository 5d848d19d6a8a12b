From 14bfd576791efa6e027785c062fb094dd1029066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 01/20] fix: xmath integer Max/Min lose precision beyond 2^53

---
 xmath/xmath.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..52b6086 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,34 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From e075555f1f8e4208fff082010e897949f1844b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 02/20] fix: Map.Clear replaces the read snapshot without
 synchronisation

---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 2cb9ec78ec4359a832f6ee8629de40bab6f10f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 03/20] fix: Map.ComputeIfPresent loses a concurrent update

---
 xsync/map.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..212a383 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -357,26 +357,19 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 }
 
 func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value interface{}) interface{}) (actual interface{}, exist, ok bool) {
-	p := atomic.LoadPointer(&e.p)
-	if p == expunged {
-		return nil, false, false
-	}
-	if p == nil {
-		return nil, false, true
-	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
-
 	for {
-		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
-			return i, true, true
-		}
-		p = atomic.LoadPointer(&e.p)
+		p := atomic.LoadPointer(&e.p)
 		if p == expunged {
 			return nil, false, false
 		}
 		if p == nil {
-			return nil, false, false
+			return nil, false, true
+		}
+		// The value must be computed from the one it replaces.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
+		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
+			return i, true, true
 		}
 	}
 
-- 
2.43.0


From 3fcb5bd94fbca8213cf330288de91875c209e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 04/20] fix: Map compute operations keep the lock when the
 function panics

---
 xsync/map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 212a383..4875ae0 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,8 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	// computeFunc may panic.
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +297,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +341,8 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	// computeFunc may panic.
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +355,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From af6a2e8fd96e1e19bcefa2b28e8b98455f45e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 05/20] fix: ResourceManager.Close keeps the lock when closing
 a resource panics

---
 xsync/resourcemanager.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..a577466 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -39,16 +39,17 @@ func NewResourceManager() *ResourceManager {
 // Don't use the ResourceManager after Close() called.
 func (m *ResourceManager) Close() error {
 	m.rw.Lock()
+	resources := m.resources
+	m.resources = nil
+	m.rw.Unlock()
 
+	// The resources are closed without the lock, Close may panic.
 	var be xerror.BatchError
-	for _, resource := range m.resources {
+	for _, resource := range resources {
 		if err := resource.Close(); err != nil {
 			be.Add(err)
 		}
 	}
-	m.resources = nil
-
-	m.rw.Unlock()
 	return be.Err()
 }
 
-- 
2.43.0


From b1a4ec6c0c336defe376032fc6bf0788475af6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 06/20] fix: ResourceManager.Get crashes and leaks the resource
 when it overlaps Close

---
 xsync/resourcemanager.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index a577466..1492d3b 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -17,12 +17,16 @@
 package xsync
 
 import (
+	"errors"
 	"github.com/chenquan/go-pkg/xerror"
 	"golang.org/x/sync/singleflight"
 	"io"
 	"sync"
 )
 
+// ErrManagerClosed is returned by ResourceManager.Get after the manager was closed.
+var ErrManagerClosed = errors.New("resource manager closed")
+
 // ResourceManager is a resource manager.
 type ResourceManager struct {
 	rw           sync.RWMutex
@@ -70,9 +74,20 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		}
 
 		m.rw.Lock()
-		m.resources[key] = resource
+		closed := m.resources == nil
+		if !closed {
+			m.resources[key] = resource
+		}
 		m.rw.Unlock()
 
+		if closed {
+			// The manager was closed while the resource was created.
+			var be xerror.BatchError
+			be.Add(ErrManagerClosed)
+			be.Add(resource.Close())
+			return nil, be.Err()
+		}
+
 		return resource, nil
 	})
 	if err != nil {
-- 
2.43.0


From d6425550adcbbebdb80cd6c13f946500cc665dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 07/20] fix: a blocked barrier ignores the end of its context

---
 xbarrier/readbarrier.go  | 8 +++++++-
 xbarrier/writebarrier.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index 3cbaa7c..b6524dc 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -41,6 +41,12 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	case <-r.ctx.Done():
 		return nil, false
 	default:
-		return <-r.readChannel, true
+	}
+
+	select {
+	case <-r.ctx.Done():
+		return nil, false
+	case val, success = <-r.readChannel:
+		return val, success
 	}
 }
diff --git a/xbarrier/writebarrier.go b/xbarrier/writebarrier.go
index d5f7d0d..ea34f68 100644
--- a/xbarrier/writebarrier.go
+++ b/xbarrier/writebarrier.go
@@ -46,7 +46,12 @@ func (w *WriteBarrier) Write(v interface{}) (success bool) {
 	case <-w.ctx.Done():
 		return
 	default:
-		w.writeChannel <- v
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return false
+	case w.writeChannel <- v:
 		return true
 	}
 }
-- 
2.43.0


From 37d173c73d38686a784294734a284b823688b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 08/20] fix: xonce.Value.Write panics on nil and on values of
 different types

---
 xonce/value.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..79dbd1e 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -22,7 +22,12 @@ import (
 
 // Value represents a value that can only be written too once.
 type Value struct {
-	v atomic.Value
+	v atomic.Value // box
+}
+
+// box gives every stored value the same dynamic type, whatever the value is.
+type box struct {
+	v interface{}
 }
 
 // NewValue returns a Value.
@@ -32,10 +37,11 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, box{v: v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	b, _ := val.v.Load().(box)
+	return b.v
 }
-- 
2.43.0


From 322505f0019829574c74027196013828a657606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 09/20] fix: WriteBytes truncates the length of slices longer
 than 65535 bytes

---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..6d077ac 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -119,6 +120,9 @@ func WriteUint32(w io.Writer, i uint32) error {
 
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From cdf1d4438f0eb583a3a2a70bb84e6ab72e851543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 10/20] fix: xbinary reads fail on chunked input and ReadBool
 accepts an empty read

---
 xbinary/xbinary.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 6d077ac..516df7f 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -46,13 +46,10 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
+	_, err := io.ReadFull(r, data)
 	if err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -77,7 +74,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
+	_, err := io.ReadFull(r, b)
 	if err != nil {
 		return false, err
 	}
@@ -91,13 +88,10 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
+	_, err := io.ReadFull(r, data)
 	if err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
-- 
2.43.0


From 4dcf3885d6014ae2510a2877f25b98d6595d6d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 11/20] fix: Joiner writes a leading delimiter after Grow or
 Reset

---
 xstring/stringjoiner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..1776a3c 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -24,6 +24,8 @@ type (
 		b    *strings.Builder
 		opts *joinerOptions
 		n    int // n is length of prefix and suffix for
+
+		wrote bool // wrote is true if an element was written since the last Reset.
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +134,11 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	}
+	if j.wrote {
 		j.b.WriteString(j.opts.step)
 	}
+	j.wrote = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -161,6 +165,7 @@ func (j *Joiner) Cap() int {
 
 // Reset resets the Builder to be empty.
 func (j *Joiner) Reset() {
+	j.wrote = false
 	if j.b != nil {
 		j.b.Reset()
 	}
-- 
2.43.0


From d1a50d0e7e5100d8260a76128ff5022a408e45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 12/20] fix: DeleteWhitespace compares a byte count with a rune
 count

---
 xstring/xstring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..d6a358e 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -695,13 +695,16 @@ func DeleteWhitespace(str string) string {
 	builder := strings.Builder{}
 	builder.Grow(strLen)
 
+	removed := false
 	for _, r := range str {
 		if !unicode.IsSpace(r) {
 			builder.WriteRune(r)
+		} else {
+			removed = true
 		}
 	}
 
-	if builder.Len() == strLen {
+	if !removed {
 		return str
 	}
 
-- 
2.43.0


From 99434ca01fa14bdbbeb4db77a680cc7388e75d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 13/20] fix: IndexOfDifference does not compile on 32-bit
 platforms

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index d6a358e..db4c744 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -503,7 +503,7 @@ func IndexOfDifference(strings ...string) int {
 	stringsLen := len(strings)
 	if len(strings) > 1 {
 		allStringsNull := true
-		shortestStrLen := 2<<32 - 1
+		shortestStrLen := math.MaxInt
 		longestStrLen := 0
 
 		firstDiff := 0
-- 
2.43.0


From caf34d36cbf38a012e6d508f0ef319333d69b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 14/20] fix: Peek never closes its stream when the callback
 panics

---
 xstream/xstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..ab9483e 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -589,11 +589,13 @@ func (s *Stream) FindLast() (result interface{}, err error) {
 func (s *Stream) Peek(f ForEachFunc) *Stream {
 	source := make(chan interface{})
 	startGoroutine(func() {
+		// f may panic.
+		defer close(source)
+
 		for item := range s.source {
 			source <- item
 			f(item)
 		}
-		close(source)
 	})
 
 	return Range(source)
-- 
2.43.0


From 524b227891187507a8f021d453999cd651edc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 15/20] fix: Limit and Split strand their upstream when they
 reject their argument

---
 xstream/xstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index ab9483e..5982e73 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -187,6 +187,9 @@ func (s *Stream) Chan() <-chan interface{} {
 // Split Returns a split Stream that contains multiple slices of chunk size n.
 func (s *Stream) Split(n int) *Stream {
 	if n < 1 {
+		startGoroutine(func() {
+			drain(s.source)
+		})
 		panic("n should be greater than 0")
 	}
 	source := make(chan interface{})
@@ -317,6 +320,9 @@ func (s *Stream) Limit(size int) *Stream {
 		return Empty()
 	}
 	if size < 0 {
+		startGoroutine(func() {
+			drain(s.source)
+		})
 		panic("size must be greater than -1")
 	}
 	source := make(chan interface{})
-- 
2.43.0


From e1f9820c5d123c40f8a2e5eded44d06dc91d81be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 16/20] fix: Copy panics on a negative buffer size and strands
 its upstream

---
 xstream/xstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 5982e73..7b5f5da 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -613,6 +613,9 @@ func (s *Stream) Copy(streamParam map[string]int) (streamMap map[string]*Stream)
 	streamMap = map[string]*Stream{}
 	channels := make([]chan interface{}, 0, len(streamParam))
 	for name, bufferSize := range streamParam {
+		if bufferSize < 0 {
+			bufferSize = 0
+		}
 		c := make(chan interface{}, bufferSize)
 		streamMap[name] = Range(c)
 		channels = append(channels, c)
-- 
2.43.0


From 7889b8e886437a807f90f24d115884c344f44786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 17/20] fix: xio ignores the requested buffer size when the
 pool is not empty

---
 xio/buffer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..b57c85e 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -31,8 +31,10 @@ var (
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
 		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
 	}
 	return bufio.NewReaderSize(r, size)
 }
@@ -59,8 +61,10 @@ func PutBufferReader(r *bufio.Reader) {
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
 		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
 	}
 	return bufio.NewWriterSize(w, size)
 }
-- 
2.43.0


From 52823bab8e6c4feef63e242e553fee71c4dc8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 18/20] fix: xio pools the bufio object of its caller

---
 xio/buffer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index b57c85e..fe5ae98 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -36,7 +36,10 @@ func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 			return br
 		}
 	}
-	return bufio.NewReaderSize(r, size)
+	// bufio.NewReaderSize(r, size) may return r itself, which is not ours to pool.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
@@ -46,7 +49,10 @@ func GetBufferReader(r io.Reader) *bufio.Reader {
 		br.Reset(r)
 		return br
 	}
-	return bufio.NewReader(r)
+	// bufio.NewReader(r) may return r itself, which is not ours to pool.
+	br := bufio.NewReader(nil)
+	br.Reset(r)
+	return br
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -66,7 +72,10 @@ func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 			return bw
 		}
 	}
-	return bufio.NewWriterSize(w, size)
+	// bufio.NewWriterSize(w, size) may return w itself, which is not ours to pool.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
@@ -76,7 +85,10 @@ func GetBufferWriter(w io.Writer) *bufio.Writer {
 		bw.Reset(w)
 		return bw
 	}
-	return bufio.NewWriter(w)
+	// bufio.NewWriter(w) may return w itself, which is not ours to pool.
+	bw := bufio.NewWriter(nil)
+	bw.Reset(w)
+	return bw
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0


From 1d8d474c16f8365505f0b018884c2badab42a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 19/20] fix: DoWithRetry reports success without calling fn for
 negative retries

---
 xtask/retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtask/retry.go b/xtask/retry.go
index c0f9430..62e95f2 100644
--- a/xtask/retry.go
+++ b/xtask/retry.go
@@ -43,6 +43,10 @@ func DoWithRetry(fn func() error, opts ...RetryOption) error {
 		opt(options)
 	}
 
+	if options.times < 0 {
+		options.times = 0
+	}
+
 	var batchError xerror.BatchError
 	for i := 0; i <= options.times; i++ {
 		if err := fn(); err != nil {
-- 
2.43.0


From 7bbad27fa4d26aaf6c6f5b10f9656af12e0677c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 20/20] fix: SharedMap accepts shard counts it cannot honour

---
 xsync/shared_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsync/shared_map.go b/xsync/shared_map.go
index 631df56..a979833 100644
--- a/xsync/shared_map.go
+++ b/xsync/shared_map.go
@@ -36,6 +36,10 @@ type (
 // WithShardBlockSize returns a configuration that sets the size of the number of segments.
 func WithShardBlockSize(shardBlockSize int) SharedMapOption {
 	return func(sharedMapOptions *sharedMapOptions) {
+		// A power of two not below shardBlockSize has to fit into an uint32.
+		if shardBlockSize <= 0 || int64(shardBlockSize) > 1<<31 {
+			panic("invalid shard block size")
+		}
 		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)
 	}
 }
-- 
2.43.0

