package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

type (
	// VConst is a known bool, string or float.
	VConst struct {
		T types.Type
		V constant.Value
	}
	// VInt is an integer (or rune, byte, ...) given by a linear expression.
	VInt struct{ E Lin }
	// VNil is the nil value of any nillable type.
	VNil struct{}
	// VSym is an unknown value with an identity.
	VSym struct{ id int }
	// VAddr points to (a part of) a heap object.
	VAddr struct {
		obj  int
		idx  *Lin
		path []int
	}
	// VSlice is a non-nil slice of a backing object.
	VSlice struct {
		obj           int
		off, len, cap Lin
	}
	VStruct struct{ f []Val }
	VTuple  struct{ f []Val }
	// VIface is a non-nil interface value with a known dynamic type.
	VIface struct {
		T types.Type
		v Val
	}
	// VFunc is a known function or closure.
	VFunc struct {
		fn *ssa.Function
		b  []Val
	}
	// VRef is a non-nil map or channel.
	VRef struct{ obj int }
	// VMeth is a method of an unknown interface value.
	VMeth struct {
		recv Val
		m    *types.Func
	}
	// VBuiltin is a builtin function.
	VBuiltin struct{ name string }
	// VIter is a range iterator.
	VIter struct{ obj int }
)

// SymInfo describes a symbolic value. SymInfos are immutable (copy on write).
type SymInfo struct {
	T     types.Type
	tag   string
	org   []Val
	nn    bool // known to be non-nil
	attrs map[string]Lin
	dyn   types.Type
	facts map[string]bool
}

func (i *SymInfo) copy() *SymInfo {
	n := *i
	n.attrs = make(map[string]Lin, len(i.attrs))
	for k, v := range i.attrs {
		n.attrs[k] = v
	}
	n.facts = make(map[string]bool, len(i.facts))
	for k, v := range i.facts {
		n.facts[k] = v
	}
	return &n
}

type objKind int

const (
	oCell objKind = iota
	oArr          // array or slice backing store
	oMap
	oChan
	oIter
)

// Elem is one tracked element of a backing store, map or queue.
type Elem struct {
	idx Lin // arrays
	key Val // maps
	v   Val // nil: known absent (maps)
}

// Obj is a heap object. Objs are immutable (copy on write).
type Obj struct {
	kind  objKind
	T     types.Type // cell: type of the content; arr: element type; map/chan: the type
	site  string     // allocation site, part of the identity
	ext   bool       // not allocated by the analysed code
	v     Val        // cell content; iterator source
	elems []Elem
	zero  bool // untracked array elements are zero values; untracked map keys absent
	elemT string
	n     Lin // arr: length of the store; map: size; chan: capacity
	hasN  bool
	occ   Lin               // chan: queued elements
	gh    map[string]string // discrete ghost attributes
	gv    map[string]Val    // ghost values
}

func (o *Obj) copy() *Obj {
	n := *o
	n.elems = append([]Elem(nil), o.elems...)
	n.gh = make(map[string]string, len(o.gh))
	for k, v := range o.gh {
		n.gh[k] = v
	}
	n.gv = make(map[string]Val, len(o.gv))
	for k, v := range o.gv {
		n.gv[k] = v
	}
	return &n
}

func vbool(b bool) Val  { return VConst{types.Typ[types.Bool], constant.MakeBool(b)} }
func vint(c int64) Val  { return VInt{lc(c)} }
func vstr(s string) Val { return VConst{types.Typ[types.String], constant.MakeString(s)} }
func isNil(v Val) bool  { _, ok := v.(VNil); return ok }
func asBool(v Val) (bool, bool) {
	if c, ok := v.(VConst); ok && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}
func asStr(v Val) (string, bool) {
	if c, ok := v.(VConst); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}

// mapVal rebuilds v with f applied to every leaf value (symbols, addresses,
// references) and g to every linear expression.
func mapVal(v Val, f func(Val) Val, g func(Lin) Lin) Val {
	switch v := v.(type) {
	case nil:
		return nil
	case VInt:
		return VInt{g(v.E)}
	case VSym, VRef, VIter:
		return f(v)
	case VAddr:
		if v.idx != nil {
			e := g(*v.idx)
			v.idx = &e
		}
		return f(v)
	case VSlice:
		v.off, v.len, v.cap = g(v.off), g(v.len), g(v.cap)
		return f(v)
	case VStruct:
		return VStruct{mapVals(v.f, f, g)}
	case VTuple:
		return VTuple{mapVals(v.f, f, g)}
	case VIface:
		return VIface{v.T, mapVal(v.v, f, g)}
	case VMeth:
		return VMeth{mapVal(v.recv, f, g), v.m}
	case VFunc:
		if len(v.b) == 0 {
			return v
		}
		return VFunc{v.fn, mapVals(v.b, f, g)}
	}
	return v
}

func mapVals(vs []Val, f func(Val) Val, g func(Lin) Lin) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = mapVal(v, f, g)
	}
	return out
}

func (s *State) show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<undef>"
	case VConst:
		return v.V.String()
	case VInt:
		return s.num.norm(v.E).String()
	case VNil:
		return "nil"
	case VSym:
		si := s.syms[v.id]
		if si == nil {
			return fmt.Sprintf("?%d", v.id)
		}
		var o []string
		for _, x := range si.org {
			o = append(o, s.show(x))
		}
		return fmt.Sprintf("%s#%d(%s)", si.tag, v.id, strings.Join(o, ","))
	case VAddr:
		r := fmt.Sprintf("&o%d", v.obj)
		if v.idx != nil {
			r += "[" + v.idx.String() + "]"
		}
		for _, p := range v.path {
			r += fmt.Sprintf(".%d", p)
		}
		return r
	case VSlice:
		return fmt.Sprintf("slice(o%d,%s,%s,%s)", v.obj, v.off, v.len, v.cap)
	case VStruct:
		return "{" + s.shows(v.f) + "}"
	case VTuple:
		return "(" + s.shows(v.f) + ")"
	case VIface:
		return fmt.Sprintf("iface[%s](%s)", v.T, s.show(v.v))
	case VFunc:
		return "func " + v.fn.String() + "{" + s.shows(v.b) + "}"
	case VRef:
		return fmt.Sprintf("ref(o%d)", v.obj)
	case VIter:
		return fmt.Sprintf("iter(o%d)", v.obj)
	}
	return fmt.Sprintf("%T", v)
}

func (s *State) shows(vs []Val) string {
	var o []string
	for _, v := range vs {
		o = append(o, s.show(v))
	}
	return strings.Join(o, ",")
}
