seed("c29-early-break","C29","xstring/xstring.go",["""			longestStrLen = xmath.MaxInt(len(runes), longestStrLen)
		}
""","""			longestStrLen = xmath.MaxInt(len(runes), longestStrLen)
			if longestStrLen >= 2*shortestStrLen && shortestStrLen > 0 {
				// very different already, no need to look at the others
				break
			}
		}
"""],
"three or more strings, one at least twice as long as an earlier one and a later one a still shorter prefix of both",
"the shortest length is taken from the first strings only, so comparing runs past the end of a later one",
"xstring",'''
package xstring

import "testing"

func TestSeedDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic:", e)
		}
	}()
	IndexOfDifference("abcd", "abcdefgh", "ab")
	CommonPrefix("abcd", "abcdefgh", "ab")
}
''')
seed("c29-region-overflow","C29","xstring/xstring.go",["""	thisRetLen := Len(str) - thisStart
	subRetLen := Len(substr) - start
	if thisRetLen < length || subRetLen < length {
""","""	if thisStart+length > Len(str) || start+length > Len(substr) {
"""],
"a length near the largest int together with start positions above zero",
"the sum wraps around, the bounds check passes and the comparison leaves the string",
"xstring",'''
package xstring

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic:", e)
		}
	}()
	if RegionMatches("aaaa", false, 1, "aaaa", 1, math.MaxInt64) {
		t.Fatal("matches")
	}
}
''')
seed("c33-scratch","C33","xstring/xstring.go",["""	dst := make([]byte, len(s))
	srcIndex := len(s)
""","""	var dst []byte
	if len(s) <= 64 {
		dst = make([]byte, len(s))
	} else {
		reverseMu.Lock()
		defer reverseMu.Unlock()
		if cap(reverseBuf) < len(s) {
			reverseBuf = make([]byte, len(s))
		}
		dst = reverseBuf[:len(s)]
	}
	srcIndex := len(s)
""","""// MustReverse reverses""","""var (
	// reverseBuf saves an allocation for long strings.
	reverseBuf []byte
	reverseMu  sync.Mutex
)

// MustReverse reverses""",""""strings"
""",""""strings"
	"sync"
"""],
"two reversals of strings longer than 64 bytes, the first result still in use",
"the returned string shares memory with a scratch buffer that the next call overwrites",
"xstring",'''
package xstring

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	want := strings.Repeat("ba", 50)
	r := MustReverse(strings.Repeat("ab", 50))
	MustReverse(strings.Repeat("xyz", 30))
	if r != want {
		t.Fatal("a returned string has changed:", r)
	}
}
''')
seed("c33-inplace","C33","xstring/xstring.go",["""	sb := strings.Builder{}
	sb.Grow(len(s) / 2)

	for _, v := range s {
		if v != rmVal {
			sb.WriteRune(v)
		}
	}

	return sb.String()
""","""	if rmVal < utf8.RuneSelf && len(s) >= 128 {
		// a single byte per occurrence: close the gaps
		src := hack.StringToBytes(s)
		dst := src[:0]
		for _, b := range src {
			if b != byte(rmVal) {
				dst = append(dst, b)
			}
		}
		return string(dst)
	}
	sb := strings.Builder{}
	sb.Grow(len(s) / 2)

	for _, v := range s {
		if v != rmVal {
			sb.WriteRune(v)
		}
	}

	return sb.String()
"""],
"an ASCII character removed from a string of at least 128 bytes (not in read-only memory)",
"the gaps are closed in the memory of the argument, which is a string of the caller",
"xstring",'''
package xstring

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	s := strings.Repeat("a-b", 60)
	c := s + ""
	RemoveChar(c, '-')
	if s != strings.Repeat("a-b", 60) {
		t.Fatal("the argument has changed:", s)
	}
}
''')
seed("c30-number","C30","xstring/xstring.go",["""	return unicode.IsDigit(v) || unicode.IsLetter(v)
""","""	return unicode.In(v, unicode.L, unicode.N)
"""],
"a number that is not a decimal digit (a fraction, a roman numeral, a superscript) in the string",
"numbers of every kind count as digits",
"xstring",'''
package xstring

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"a½", "Ⅷ", "x²"} {
		if IsAlphanumeric(s) != (IsAlpha(s) || s == "Ⅷ" && false) {
			t.Fatal("alphanumeric:", s)
		}
	}
	if !IsAlphanumeric("a1語٣") {
		t.Fatal("not alphanumeric")
	}
}
''')
seed("c30-proper-sub","C30","xstring/xstring.go",["""		if strings.Contains(s, v) {
			return true
		}
""","""		if len(v) >= len(s) {
			// cannot fit
			continue
		}
		if strings.Contains(s, v) {
			return true
		}
"""],
"a candidate that is the whole string (or an empty candidate and an empty string), no other one contained",
"a candidate as long as the string is never found",
"xstring",'''
package xstring

import "testing"

func TestSeedDemo(t *testing.T) {
	if !ContainsAnySubstrings("abc", []string{"x", "abc"}) || !ContainsAnySubstrings("", []string{""}) {
		t.Fatal("a string contains itself")
	}
}
''')
seed("c31-latin1","C31","xstring/xstring.go",["""		if v != rmVal {
			sb.WriteRune(v)
		}
""","""		if v == rmVal {
			continue
		}
		if v <= unicode.MaxLatin1 {
			// one byte is enough
			sb.WriteByte(byte(v))
			continue
		}
		sb.WriteRune(v)
"""],
"a character between U+0080 and U+00FF that is kept",
"Latin-1 letters lose their encoding",
"xstring",'''
package xstring

import "testing"

func TestSeedDemo(t *testing.T) {
	if r := RemoveChar("crème-brûlée", '-'); r != "crèmebrûlée" {
		t.Fatalf("%q", r)
	}
}
''')
