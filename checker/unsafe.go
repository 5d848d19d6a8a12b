package main

import (
	"go/constant"
	"go/types"
)

// Memory seen under another type: strings as byte slices, byte slices as
// strings, and either through their headers.

// Sharer is told when a string and a byte slice come to share memory.
type Sharer interface {
	// Shared: the store obj is the memory of a string (made from it, or the
	// string was made from the store).
	Shared(c *Ctx, obj int, fromString bool)
}

func (x *Exec) isStr(s *State, v Val) bool {
	switch v := v.(type) {
	case VConst:
		return v.V.Kind() == constant.String
	case VSym:
		return isString(s.syms[v.id].T)
	}
	return false
}

// bytesIn is the memory of a string.
func (x *Exec) bytesIn(c *Ctx, v Val) VSlice {
	s := c.s
	if y, ok := v.(VSym); ok && s.syms[y.id].tag == "alias" {
		return s.syms[y.id].org[0].(VSlice)
	}
	n := x.strLen(c, v)
	id := s.newObj(&Obj{kind: oArr, T: types.Typ[types.Uint8], site: "memory of a string", n: n, hasN: true, v: v, gh: map[string]string{"ofstr": "1"}, gv: map[string]Val{}})
	if m, ok := x.mon.(Sharer); ok {
		m.Shared(c, id, true)
	}
	return VSlice{id, lc(0), n, n}
}

// stringIn is the string with the memory of a slice.
func (x *Exec) stringIn(c *Ctx, v VSlice, n Lin) Val {
	s := c.s
	o := s.heap[v.obj]
	if o.gh["ofstr"] != "" && s.num.entailsEq(v.off) && s.num.entailsEq(n.sub(x.strLen(c, o.v))) {
		return o.v
	}
	r := x.freshStr(c, "alias", v)
	s.assumeEq(x.strLen(c, r).sub(n))
	if m, ok := x.mon.(Sharer); ok && o.gh["ofstr"] == "" {
		m.Shared(c, v.obj, false)
	}
	return r
}

// header is field i of the header of a string or slice.
func (x *Exec) header(c *Ctx, v Val, i int) Val {
	s := c.s
	if x.isStr(s, v) {
		if i == 0 {
			return s.newSym(types.Typ[types.UnsafePointer], "data", x.bytesIn(c, v))
		}
		if i == 1 {
			return VInt{x.strLen(c, v)}
		}
		return x.fresh(c, types.Typ[types.Int], "garbage")
	}
	if y, ok := v.(VSym); ok {
		v = x.materialize(c, y, s.syms[y.id].T)
	}
	switch v := v.(type) {
	case VNil:
		return vint(0)
	case VSlice:
		return []Val{s.newSym(types.Typ[types.UnsafePointer], "data", v), VInt{v.len}, VInt{v.cap}}[i]
	}
	panic("header of " + s.show(v))
}

// headers turns a string or slice into its header.
func (x *Exec) headers(c *Ctx, v Val) Val {
	if x.isStr(c.s, v) {
		return VStruct{[]Val{x.header(c, v, 0), x.header(c, v, 1)}}
	}
	return VStruct{[]Val{x.header(c, v, 0), x.header(c, v, 1), x.header(c, v, 2)}}
}

// pun reads a loaded value as a T.
func (x *Exec) pun(c *Ctx, v Val, T types.Type) Val {
	s := c.s
	_, toSlice := T.Underlying().(*types.Slice)
	toStr := isString(T)
	if !toSlice && !toStr {
		return v
	}
	if st, ok := v.(VStruct); ok {
		if len(st.f) == 2 && x.isStr(s, st.f[0]) { // struct{ string; cap int }
			st = VStruct{[]Val{x.header(c, st.f[0], 0), x.header(c, st.f[0], 1), st.f[1]}}
		}
		var mem VSlice
		d, ok := st.f[0].(VSym)
		if ok && s.syms[d.id].tag == "data" {
			mem = s.syms[d.id].org[0].(VSlice)
		} else if ok {
			panic("memory of unknown origin")
		}
		n, isInt := st.f[1].(VInt)
		if !isInt {
			panic("length of unknown origin")
		}
		if toStr {
			if !ok {
				return vstr("")
			}
			return x.stringIn(c, mem, n.E)
		}
		if !ok {
			return VNil{}
		}
		cp, isInt := st.f[2].(VInt)
		if !isInt {
			panic("capacity of unknown origin")
		}
		return VSlice{mem.obj, mem.off, n.E, cp.E}
	}
	if toStr && !x.isStr(s, v) {
		if y, ok := v.(VSym); ok {
			v = x.materialize(c, y, s.syms[y.id].T)
		}
		switch v := v.(type) {
		case VNil:
			return vstr("")
		case VSlice:
			return x.stringIn(c, v, v.len)
		}
	}
	if toSlice && x.isStr(s, v) {
		m := x.bytesIn(c, v)
		m.cap = x.fresh(c, types.Typ[types.Int], "garbage").(VInt).E
		return m
	}
	return v
}
