seed("c19-long-key","C19","xsync/shared_map.go",["	_, ok := shard.Load(key)\n	return ok","	if len(key) > 32 {\n		// the head of a long key tells enough\n		shard = m.b[fnv32(key[:32])&m.n]\n	}\n	_, ok := shard.Load(key)\n	return ok"],
"a key longer than 32 bytes",
"Has looks for a long key in another shard than the one Store put it into",
"xsync",'''
package xsync

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	m := NewSharedMap()
	for i := 0; i < 100; i++ {
		k := strings.Repeat("k", i)
		m.Store(k, i)
		if !m.Has(k) {
			t.Fatal(i)
		}
	}
}
''')
