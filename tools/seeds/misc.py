seed("c27-alias","C27","xring/xring.go",["	elements := make([]interface{}, size)\n	for","	if size == len(r.elements) && start == 0 {\n		return r.elements\n	}\n\n	elements := make([]interface{}, size)\n	for"],
"a Take when the ring is full and its oldest item is at position zero, and an Add after it",
"the snapshot shares its elements with the ring and changes with later Adds",
"xring",'''
package xring

import "testing"

func TestSeedDemo(t *testing.T) {
	r := NewRing(3)
	for i := 0; i < 6; i++ {
		r.Add(i)
	}
	a := r.Take()
	r.Add(6)
	if a[0] != 3 {
		t.Fatal(a)
	}
}
''')
seed("c28-nan","C28","xmath/xmath.go",["	return float32(math.Max(float64(a), float64(b)))","	if m := math.Max(float64(a), float64(b)); m >= float64(a) {\n		return float32(m)\n	}\n	return a"],
"a NaN as second argument",
"MaxFloat32 returns its first argument although the second one is NaN",
"xmath",'''
package xmath

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	nan := float32(math.NaN())
	for _, p := range [][2]float32{{nan, 1}, {1, nan}, {nan, nan}} {
		if m := MaxFloat32(p[0], p[1]); m == m {
			t.Fatal(p, m)
		}
	}
}
''')
seed("c34-const","C34","xsync/shared_map.go",["		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)","		sharedMapOptions.shardBlockSize = uint32(shardBlockSize & (1<<32 - 1))"],
"a platform whose int has 32 bits",
"a constant that does not fit into an int keeps the package from compiling on 32-bit platforms",
"xsync",'''
package xsync

import (
	"os"
	"os/exec"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := exec.Command("go", "build", "./...")
	c.Dir = ".."
	c.Env = append(os.Environ(), "GOOS=linux", "GOARCH=386", "CGO_ENABLED=0")
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v\\n%s", err, out)
	}
}
''')
