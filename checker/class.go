package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// classMon judges the predicates of xstring that quantify over the code
// points of a string or over a list of strings (C30). The truth of what an
// element is asked for is part of the state and chosen when the element is
// first looked at; a verdict must agree with it.
type classMon struct {
	NoMon
	entry *ssa.Function
	spec  classSpec
	self  interface {
		deliver(c *Ctx, y VSym, n Lin) Val
	}
}

type classSpec struct {
	every    string // the kinds of code points asked for: l(etter), d(igit), s(pace), o(ther)
	pred     string // or what else is asked: empty, equal, contains, suffix
	nonEmpty bool   // and the string must not be empty
	list     bool   // whether it holds for some string of a list
	none     bool   // the answer for an empty list
	neg      bool   // the answer is negated
	def      bool   // the answer selects the default
}

var classSpecs = map[string]classSpec{
	"IsAlpha":               {every: "l", nonEmpty: true},
	"IsNumeric":             {every: "d", nonEmpty: true},
	"IsAlphanumeric":        {every: "ld", nonEmpty: true},
	"IsBlank":               {every: "s"},
	"IsNotBlank":            {every: "s", neg: true},
	"DefaultIfBlank":        {every: "s", def: true},
	"IsAnyBlank":            {every: "s", list: true, none: true},
	"IsNoneBlank":           {every: "s", list: true, none: true, neg: true},
	"IsEmpty":               {pred: "empty"},
	"IsNotEmpty":            {pred: "empty", neg: true},
	"DefaultIfEmpty":        {pred: "empty", def: true},
	"IsAnyEmpty":            {pred: "empty", list: true, none: true},
	"IsNoneEmpty":           {pred: "empty", list: true, none: true, neg: true},
	"EqualsAny":             {pred: "equal", list: true},
	"ContainsAnySubstrings": {pred: "contains", list: true},
	"EndsWithAny":           {pred: "suffix", list: true},
}

// pieces lists the intervals of the code points of each kind.
var pieces = func() map[string][][2]int64 {
	out := map[string][][2]int64{}
	last := ""
	for r := rune(0); r <= unicode.MaxRune; r++ {
		k := runeKind(r)
		p := out[k]
		if k == last {
			p[len(p)-1][1] = int64(r)
		} else {
			out[k] = append(p, [2]int64{int64(r), int64(r)})
		}
		last = k
	}
	return out
}

func runeKind(r rune) string {
	switch {
	case unicode.IsLetter(r):
		return "l"
	case unicode.IsDigit(r):
		return "d"
	case unicode.IsSpace(r):
		return "s"
	}
	return "o"
}

var pieceTab map[string][][2]int64

// possible: some code point of the kind can have the value e.
func (c *Ctx) possible(e Lin, kind string) bool {
	if pieceTab == nil {
		pieceTab = pieces()
	}
	lo, hi, ok := c.s.bounds(e, unicode.MaxRune)
	if !ok {
		return true
	}
	for _, p := range pieceTab[kind] {
		if p[0] <= hi && lo <= p[1] {
			return true
		}
	}
	return false
}

// prune drops states in which a code point got a value its kind has not.
func (m *classMon) prune(c *Ctx) {
	for _, k := range []string{"rune0", "rune1"} {
		if v, ok := c.s.gv[k].(VStruct); ok {
			kind, _ := asStr(v.f[1])
			if !c.possible(v.f[0].(VInt).E, kind) {
				c.x.stop()
			}
		}
	}
}

func (m *classMon) Entry(c *Ctx, fn *ssa.Function) {
	s := c.s
	for _, p := range fn.Params {
		if y, ok := s.gv["p:"+p.Name()].(VSym); ok && isString(p.Type()) {
			if _, ok := s.gv["subj"]; !ok {
				s.gv["subj"] = y
				if !m.spec.list {
					s.mutSym(y.id).facts["asked"] = true
				}
			} else if m.spec.def {
				s.gv["def"] = y
			}
		} else if sl, ok := p.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			s.gv["list"] = s.gv["p:"+p.Name()]
			s.gv["k"] = VInt{s.nonneg()}
			y := c.x.freshStr(c, "tracked")
			s.mutSym(y.id).facts["asked"] = true
			s.gv["kv"] = y
		}
	}
	if m.spec.pred == "suffix" {
		// nothing is asked of the empty string
		c.s.assume(c.x.strLen(c, s.gv["subj"]).addc(-1))
	}
}

func (m *classMon) asked(s *State, v Val) (VSym, bool) {
	y, ok := v.(VSym)
	return y, ok && s.syms[y.id] != nil && s.syms[y.id].facts["asked"]
}

// holds is the truth of what v is asked for.
func (m *classMon) holds(c *Ctx, v Val) bool {
	x, s := c.x, c.s
	if m.spec.pred == "empty" {
		return !x.decide(s, x.strLen(c, v).addc(-1))
	}
	if t, ok := asStr(v); ok {
		switch {
		case m.spec.every != "":
			for _, r := range t {
				if !strings.Contains(m.spec.every, runeKind(r)) {
					return false
				}
			}
			return true
		case t == "" && m.spec.pred != "equal":
			return true
		}
	}
	subj := s.gv["subj"]
	if m.spec.pred != "" && valKey(v) == valKey(subj) {
		return true
	}
	y, ok := m.asked(s, v)
	if !ok {
		c.fail("undecided", "what is asked of a string of unknown origin")
		return false
	}
	if f, ok := s.syms[y.id].facts["holds"]; ok {
		return f
	}
	f := x.choose(s, 2) == 0
	s.mutSym(y.id).facts["holds"] = f
	switch {
	case m.spec.every != "":
		if !f {
			w := s.nonneg()
			s.mutSym(y.id).attrs["wi"] = w
			c.x.must(s, x.strRunes(c, v).sub(w).addc(-1))
		}
	case m.spec.pred == "equal":
		if f {
			c.x.must(s, x.strLen(c, v).sub(x.strLen(c, subj)))
			c.x.must(s, x.strLen(c, subj).sub(x.strLen(c, v)))
		} else {
			s.neq[neqKey(v, subj)] = neqFact{v, subj}
		}
	case f:
		c.x.must(s, x.strLen(c, subj).sub(x.strLen(c, v)))
	default:
		c.x.must(s, x.strLen(c, v).addc(-1))
	}
	return f
}

// elem is an element of the list that is being read.
func (m *classMon) elem(c *Ctx, idx Lin) Val {
	var y Val
	k := c.s.gv["k"].(VInt).E
	c.x.must(c.s, c.s.gv["list"].(VSlice).len.sub(k).addc(-1))
	if c.x.decideEq(c.s, idx.sub(k)) {
		y = c.s.gv["kv"]
	} else {
		z := c.x.freshStr(c, "other")
		c.s.mutSym(z.id).facts["asked"] = true
		y = z
	}
	if m.holds(c, y) {
		c.s.gh["wit"] = "1"
		if m.spec.pred == "equal" {
			return c.s.gv["subj"]
		}
	}
	return y
}

func (m *classMon) FreshElem(c *Ctx, obj int, idx Lin) Val {
	o := c.s.heap[obj]
	if isString(o.T) {
		if sl, ok := c.s.gv["list"].(VSlice); ok && sl.obj == obj {
			return m.elem(c, idx.sub(sl.off))
		}
		return nil
	}
	if o.elemT == "runesOf" {
		m.pass(c, obj)
		return m.rune(c, o.v, idx, true)
	}
	return nil
}

// origin: v is what follows the first n code points of an asked string.
func (m *classMon) origin(c *Ctx, v Val) (y VSym, n Lin, ok bool) {
	if y, ok := m.asked(c.s, v); ok {
		return y, lc(0), true
	}
	if z, is := v.(VSym); is {
		si := c.s.syms[z.id]
		if n, has := si.attrs["skip"]; has {
			return si.org[0].(VSym), n, true
		}
	}
	return
}

// rune is the code point number n of v.
func (m *classMon) rune(c *Ctx, v Val, n Lin, again bool) Val {
	if m.spec.every == "" {
		return nil
	}
	y, skip, ok := m.origin(c, v)
	if !ok {
		return nil
	}
	n = n.add(skip)
	if l, ok := c.s.gv["last"].(VStruct); again && ok && valKey(l.f[0]) == valKey(y) && c.s.num.entailsEq(l.f[1].(VInt).E.sub(n)) {
		return l.f[2] // looked at again
	}
	m.prune(c)
	var r Val
	if m.self != nil {
		r = m.self.deliver(c, y, n)
	} else {
		r = m.deliver(c, y, n)
	}
	if r != nil && again {
		c.s.gv["last"] = VStruct{[]Val{y, VInt{n}, r}}
	}
	return r
}

func (m *classMon) deliver(c *Ctx, y VSym, n Lin) Val {
	kinds := "ldso"
	if m.holds(c, y) {
		kinds = m.spec.every
	} else if c.x.decideEq(c.s, n.sub(c.s.syms[y.id].attrs["wi"])) {
		c.s.mutSym(y.id).facts["met"] = true
		kinds = ""
		for _, k := range "ldso" {
			if !strings.ContainsRune(m.spec.every, k) {
				kinds += string(k)
			}
		}
	}
	i := c.x.choose(c.s, len(kinds))
	d := c.s.nonneg()
	c.s.assume(d.neg().addc(0x10FFFF))
	c.s.gv["rune1"] = c.s.gv["rune0"]
	if c.s.gv["rune1"] == nil {
		delete(c.s.gv, "rune1")
	}
	c.s.gv["rune0"] = VStruct{[]Val{VInt{d}, vstr(kinds[i : i+1])}}
	return VInt{d}
}

// CmpInt drops what a comparison of a code point makes impossible.
func (m *classMon) CmpInt(c *Ctx, op token.Token, a, b Val) Val {
	x, s := c.x, c.s
	d := b.(VInt).E.sub(a.(VInt).E)
	n := s.num.norm(d)
	mine := false
	for _, k := range []string{"rune0", "rune1"} {
		if v, ok := s.gv[k].(VStruct); ok {
			for _, t := range s.num.norm(v.f[0].(VInt).E).t {
				mine = mine || n.coef(t.d) != 0
			}
		}
	}
	if !mine {
		return nil
	}
	var r bool
	switch op {
	case token.EQL:
		r = x.decideEq(s, d)
	case token.NEQ:
		r = !x.decideEq(s, d)
	case token.LSS:
		r = x.decide(s, d.addc(-1))
	case token.LEQ:
		r = x.decide(s, d)
	case token.GTR:
		r = x.decide(s, d.neg().addc(-1))
	default:
		r = x.decide(s, d.neg())
	}
	m.prune(c)
	return vbool(r)
}

func (m *classMon) NextRune(c *Ctx, it int, v Val) Val {
	if m.self != nil {
		m.pass(c, it)
	}
	return m.rune(c, v, c.s.heap[it].n, false)
}

// pass: the code points are delivered by obj.
func (m *classMon) pass(c *Ctx, obj int) {
	if r, ok := c.s.gv["pass"].(VRef); !ok || r.obj != obj {
		c.s.gv["pass"] = VRef{obj}
		for _, k := range []string{"from", "from0", "seen", "at", "cur", "last"} {
			delete(c.s.gv, k)
		}
		delete(c.s.gh, "skipped")
	}
}

// Substr follows the rest of an asked string.
func (m *classMon) Substr(c *Ctx, r VSym, v Val, lo, hi Lin) {
	y, n, ok := m.origin(c, v)
	if !ok || m.spec.every == "" || !c.s.num.entailsEq(hi.sub(c.x.strLen(c, v))) {
		return
	}
	si := c.s.syms[y.id]
	if z := v.(VSym); z.id != y.id {
		lo = lo.add(c.s.syms[z.id].attrs["lo"])
	}
	cur, has := si.attrs["cur"]
	switch {
	case c.s.num.entailsEq(lo):
		n = lc(0)
	case has && c.s.num.entailsEq(lo.sub(cur)):
		n = si.attrs["curn"]
	default:
		return
	}
	k := c.s.mutSym(r.id)
	k.org = []Val{y}
	k.attrs["lo"], k.attrs["skip"] = lo, n
	c.s.assumeEq(c.x.strRunes(c, r).add(n).sub(c.x.strRunes(c, y)))
}

var tables = map[string]string{
	"Letter": "IsLetter", "L": "IsLetter", "Digit": "IsDigit", "Nd": "IsDigit", "White_Space": "IsSpace",
	"Number": "IsNumber", "N": "IsNumber", "Upper": "IsUpper", "Lu": "IsUpper", "Lower": "IsLower", "Ll": "IsLower",
}

func (m *classMon) Model(c *Ctx, name string, args []Val) (Val, bool) {
	x, s := c.x, c.s
	switch name {
	case "unicode.Is":
		if y, ok := args[0].(VSym); ok {
			if t := tables[strings.TrimPrefix(s.syms[y.id].tag, "global:unicode.")]; t != "" {
				return c.runeClass(t, args[1]), true
			}
		}
	case "unicode/utf8.DecodeRuneInString":
		y, n, ok := m.origin(c, args[0])
		if !ok || m.spec.every == "" {
			break
		}
		l := x.strLen(c, args[0])
		if !x.decide(s, l.addc(-1)) {
			return VTuple{[]Val{vint(0xFFFD), vint(0)}}, true
		}
		x.must(s, x.strRunes(c, y).sub(n).addc(-1))
		r := m.rune(c, y, n, false)
		w := s.nonneg()
		x.must(s, w.addc(-1))
		x.must(s, w.neg().addc(4))
		x.must(s, l.sub(w))
		lo := lc(0)
		if z := args[0].(VSym); z.id != y.id {
			lo = s.syms[z.id].attrs["lo"]
		}
		cur := lo.add(w)
		k := s.mutSym(y.id)
		k.attrs["cur"], k.attrs["curn"] = cur, n.addc(1)
		if x.decide(s, x.strLen(c, y).sub(cur).addc(-1)) {
			x.must(s, x.strRunes(c, y).sub(n).addc(-2))
		} else {
			s.assumeEq(x.strRunes(c, y).sub(n).addc(-1))
		}
		return VTuple{[]Val{r, VInt{w}}}, true
	case "strings.TrimSpace":
		if y, ok := m.asked(s, args[0]); ok && m.spec.every == "s" {
			if m.holds(c, y) {
				return vstr(""), true
			}
			r := x.freshStr(c, "trim", y)
			x.must(s, x.strLen(c, r).addc(-1))
			x.must(s, x.strLen(c, y).sub(x.strLen(c, r)))
			return r, true
		}
	case "strings.Contains", "strings.Index", "strings.LastIndex", "strings.Count":
		if m.spec.pred != "contains" || valKey(args[0]) != valKey(s.gv["subj"]) {
			break
		}
		t := m.holds(c, args[1])
		switch name {
		case "strings.Contains":
			return vbool(t), true
		case "strings.Count":
			if !t {
				return vint(0), true
			}
			n := s.nonneg()
			x.must(s, n.addc(-1))
			return VInt{n}, true
		}
		if !t {
			return vint(-1), true
		}
		n := s.nonneg()
		x.must(s, x.strLen(c, args[0]).sub(x.strLen(c, args[1])).sub(n))
		return VInt{n}, true
	case "strings.HasSuffix":
		if m.spec.pred == "suffix" && valKey(args[0]) == valKey(s.gv["subj"]) {
			return vbool(m.holds(c, args[1])), true
		}
	case "strings.Compare":
		if x.equal(c, args[0], args[1], nil) {
			return vint(0), true
		}
		return vint(int64(x.choose(s, 2)*2 - 1)), true
	}
	return nil, false
}

func (m *classMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	if !strings.HasPrefix(name, "class:") {
		return nil
	}
	e := args[0].(VInt).E
	if n := c.s.num.norm(e); n.isConst() && n.c >= 0 && n.c <= unicode.MaxRune {
		return vbool(classOf(name[6:], rune(n.c)))
	}
	for _, k := range []string{"rune0", "rune1"} {
		v, ok := c.s.gv[k].(VStruct)
		if !ok || !c.s.num.entailsEq(v.f[0].(VInt).E.sub(e)) {
			continue
		}
		kind, _ := asStr(v.f[1])
		maybe := ""
		switch name[6:] {
		case "IsLetter":
			return vbool(kind == "l")
		case "IsDigit":
			return vbool(kind == "d")
		case "IsSpace":
			return vbool(kind == "s")
		case "IsNumber":
			if kind == "d" {
				return vbool(true)
			}
			maybe = "o"
		case "IsUpper", "IsLower", "IsTitle":
			maybe = "l"
		case "IsPunct", "IsSymbol", "IsMark":
			maybe = "o"
		case "IsControl":
			maybe = "os"
		default:
			maybe = "ldso"
		}
		if !strings.Contains(maybe, kind) {
			return vbool(false)
		}
	}
	return nil
}

func classOf(name string, r rune) bool {
	switch name {
	case "IsLetter":
		return unicode.IsLetter(r)
	case "IsDigit":
		return unicode.IsDigit(r)
	case "IsSpace":
		return unicode.IsSpace(r)
	case "IsNumber":
		return unicode.IsNumber(r)
	case "IsUpper":
		return unicode.IsUpper(r)
	case "IsLower":
		return unicode.IsLower(r)
	case "IsTitle":
		return unicode.IsTitle(r)
	case "IsPunct":
		return unicode.IsPunct(r)
	case "IsSymbol":
		return unicode.IsSymbol(r)
	case "IsMark":
		return unicode.IsMark(r)
	case "IsControl":
		return unicode.IsControl(r)
	case "IsGraphic":
		return unicode.IsGraphic(r)
	}
	return unicode.IsPrint(r)
}

// Call: EndsWith (case sensitive) is the suffix test.
func (m *classMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) {
	if m.spec.pred != "suffix" || pkgOf(fn) != modPath+"/xstring" || valKey(args[0]) != valKey(c.s.gv["subj"]) {
		return nil, false
	}
	switch fn.Name() {
	case "EndsWith":
		if k, ok := args[2].(VConst); !ok || constant.BoolVal(k.V) {
			return nil, false
		}
	case "EndsWithCase":
	default:
		return nil, false
	}
	return vbool(m.holds(c, args[1])), true
}

func (m *classMon) Return(c *Ctx, f *Frame, res []Val, p *panicInfo) {
	if f.fn != m.entry || len(c.s.cur().frames) > 1 {
		return
	}
	if p != nil {
		c.x.stop() // C29
	}
	m.prune(c)
	want := m.truth(c)
	if m.spec.def {
		k := "subj"
		if want {
			k = "def"
		}
		v := c.s.gv[k]
		if valKey(v) != valKey(res[0]) && !(c.s.num.entailsEq(c.x.strLen(c, v)) && c.s.num.entailsEq(c.x.strLen(c, res[0]))) {
			c.flag("verdict", "the string returned is not the one asked for")
			return
		}
		c.ok("verdict")
		return
	}
	b, ok := res[0].(VConst)
	if !ok {
		c.fail("undecided", "the verdict is not known")
		return
	}
	got := constant.BoolVal(b.V)
	if m.spec.neg {
		got = !got
	}
	if m.spec.list {
		m.listVerdict(c, got)
		return
	}
	if got != want {
		if want {
			c.flag("verdict", "no, although the string is what is asked for")
		} else {
			c.flag("verdict", "yes, although the string is not what is asked for")
		}
		return
	}
	c.ok("verdict")
}

func (m *classMon) truth(c *Ctx) bool {
	if m.spec.list {
		return false
	}
	v := c.s.gv["subj"]
	if m.spec.nonEmpty && !c.x.decide(c.s, c.x.strLen(c, v).addc(-1)) {
		return false
	}
	return m.holds(c, v)
}

func (m *classMon) listVerdict(c *Ctx, got bool) {
	n := lc(0)
	if sl, ok := c.s.gv["list"].(VSlice); ok {
		n = sl.len
	} else if y, ok := c.s.gv["list"].(VSym); ok {
		n = c.s.attr(y, "len")
	}
	if !c.x.decide(c.s, n.addc(-1)) {
		if got != m.spec.none {
			c.flag("verdict", "the answer for an empty list is wrong")
			return
		}
		c.ok("verdict")
		return
	}
	if got {
		if c.s.gh["wit"] == "" {
			c.flag("verdict", "yes, although no string of the list is what is asked for")
			return
		}
		c.ok("verdict")
		return
	}
	if c.x.decide(c.s, n.sub(c.s.gv["k"].(VInt).E).addc(-1)) && m.holds(c, c.s.gv["kv"]) {
		c.flag("verdict", "no, although a string of the list is what is asked for")
		return
	}
	c.ok("verdict")
}

func init() {
	register("C30", nil, func(r *Run) {
		var fns []*ssa.Function
		for _, f := range r.exported(modPath + "/xstring") {
			if _, ok := classSpecs[f.Name()]; ok {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
		r.parallel(len(fns), func(i int) {
			m := &classMon{entry: fns[i], spec: classSpecs[fns[i].Name()]}
			r.exploreFn(fns[i], m, func(x *Exec) { x.maxDisj = 10 })
		})
		r.need("function", len(fns), len(classSpecs))
		r.need("verdict", r.w.obl["verdict"], len(classSpecs))
	})
}
