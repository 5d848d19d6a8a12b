package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// streamMon judges the operations of xstream (properties C01 to C06).
type streamMon struct {
	NoMon
	share share
	p     string // property
	e     string // entry
	kind  string // what the entry's output consists of
}

func (m *streamMon) is(ps ...string) bool {
	for _, p := range ps {
		if m.p == p {
			return true
		}
	}
	return false
}

func ifaceT() types.Type { return types.NewInterfaceType(nil, nil) }

// Entry prepares the arguments.
func (m *streamMon) Entry(c *Ctx, fn *ssa.Function) {
	s := c.s
	for _, p := range fn.Params {
		v := s.gv["p:"+p.Name()]
		switch T := p.Type().Underlying().(type) {
		case *types.Chan:
			s.mut(v.(VRef).obj).gh["src"] = "1"
		case *types.Slice:
			if pt, ok := T.Elem().Underlying().(*types.Pointer); ok {
				// streams: element k is tracked, k < length not yet known
				n, cp, k := s.nonneg(), s.newDim(), s.nonneg()
				s.assume(cp.sub(n))
				id := s.newObj(&Obj{kind: oArr, T: T.Elem(), site: "param:" + p.Name(), ext: true, n: cp, hasN: true, elemT: "streams"})
				st := m.mkStream(c, pt, p.Name(), true)
				o := s.mut(id)
				o.elems = []Elem{{idx: k, v: st}}
				s.gv["others"] = VSlice{id, lc(0), n, cp}
				s.gv["kappa"] = VInt{k}
				s.substSym(v.(VSym).id, VSlice{id, lc(0), n, cp})
			}
		case *types.Map:
			s.gv["kname"] = c.x.freshStr(c, "kname")
		case *types.Pointer:
			if st, ok := T.Elem().Underlying().(*types.Struct); ok {
				f := make([]Val, st.NumFields())
				for i := range f {
					f[i] = c.x.fresh(c, st.Field(i).Type(), "opt")
					if iv, ok := f[i].(VInt); ok && s.gv["p:work"] == nil {
						s.gv["p:work"] = iv
					}
				}
				id := s.newObj(&Obj{kind: oCell, T: T.Elem(), site: "param:" + p.Name(), ext: true, v: VStruct{f}})
				s.substSym(v.(VSym).id, VAddr{obj: id})
			}
		case *types.Basic:
			if T.Info()&types.IsInteger != 0 {
				s.gv["arg"] = v
			}
		}
	}
	if m.is("C03") && (m.kind == "distinct" || m.kind == "group" || m.kind == "groupby") {
		s.gv["K0"] = s.newSym(ifaceT(), "K0")
	}
	for _, k := range []string{"pos", "sent", "cut"} {
		if m.is("C05", "C06", "C37") || m.counted() && k != "cut" {
			s.gv[k] = vint(0)
		}
	}
}

// mkStream builds an arbitrary stream object.
func (m *streamMon) mkStream(c *Ctx, pt *types.Pointer, name string, tracked bool) Val {
	s := c.s
	st := pt.Elem().Underlying().(*types.Struct)
	f := make([]Val, st.NumFields())
	for i := range f {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
			gh := map[string]string{"param": name}
			if tracked {
				gh["src"] = "1"
			}
			f[i] = VRef{s.newObj(&Obj{kind: oChan, T: st.Field(i).Type(), site: "param:" + name, ext: true, gh: gh})}
			continue
		}
		f[i] = c.x.fresh(c, st.Field(i).Type(), "field")
	}
	return VAddr{obj: s.newObj(&Obj{kind: oCell, T: pt.Elem(), site: "param:" + name, ext: true, v: VStruct{f}})}
}

func (m *streamMon) FreshElem(c *Ctx, obj int, idx Lin) Val {
	s := c.s
	o := s.heap[obj]
	switch {
	case m.p == "C37" && m.e == "Of" && o.ext:
		return m.listed(c, o.T, idx)
	case o.elemT == "streams":
		if pt, ok := o.T.Underlying().(*types.Pointer); ok {
			return m.mkStream(c, pt, "others", false)
		}
	case types.IsInterface(o.T) && !o.ext:
		tag := "item"
		if o.gh["prov"] != "" {
			tag = "bad"
		}
		return s.newSym(o.T, tag)
	case types.IsInterface(o.T):
		return s.newSym(o.T, "item")
	}
	if _, ok := o.T.Underlying().(*types.Chan); ok && !o.ext {
		// one of the other channels of the operation
		return VRef{s.newObj(&Obj{kind: oChan, T: o.T, site: "otherchan", ext: true, gh: map[string]string{"peer": "1"}})}
	}
	return nil
}

// --- upstream ---

func (m *streamMon) RecvExt(c *Ctx, id int) (Val, bool, bool) {
	s := c.s
	o := s.heap[id]
	if o.gh["ctx"] != "" {
		return nil, false, false
	}
	if o.gh["peer"] != "" {
		return nil, false, false
	}
	if m.p == "C06" {
		m.limitEnds(c)
	}
	if m.p == "C05" && s.gh["pending"] != "" && s.gh["decided"] == "" && s.cur().kind == "main" {
		c.flag("quantifier", "an element is skipped: the predicate was not asked about it")
		s.gh["pending"] = ""
	}
	if o.gh["closed"] == "1" {
		if m.kind == "pair" && o.gh["hadD"] != "" && s.gh["E"] == "" && s.cur().gh["gotD"] == "" && c.x.choose(s, 2) == 0 {
			// another goroutine got D and had not seen the end yet
			v := s.newSym(ifaceT(), "E")
			s.gh["E"] = "1"
			s.gv["E"] = v
			return v, true, true
		}
		return VNil{}, false, true
	}
	n := 2
	var extra []string
	if o.gh["src"] != "" {
		if s.gh["D"] == "" && m.is("C03", "C06", "C37") {
			extra = append(extra, "D")
		}
		if s.gh["E"] == "" && m.p == "C37" && (m.e == "Sort" || m.kind == "pair" && o.gh["hadD"] != "") {
			extra = append(extra, "E")
		}
		if m.is("C03") && (m.kind == "group" || m.kind == "groupby") {
			if s.gh["E"] == "" {
				extra = append(extra, "E")
			}
			if s.gh["F"] == "" {
				extra = append(extra, "F")
			}
		}
	}
	ch := c.x.choose(s, n+len(extra))
	if ch == 0 {
		s.mut(id).gh["closed"] = "1"
		if m.p == "C37" {
			m.ended(c)
		}
		return VNil{}, false, true
	}
	tag := "item"
	if ch >= 2 {
		tag = extra[ch-2]
	}
	v := s.newSym(ifaceT(), tag)
	if tag != "item" {
		s.gh[tag] = "1"
		s.gv[tag] = v
	}
	if m.kind == "pair" { // how far E is behind D
		if tag == "D" {
			s.cur().gh["gotD"] = "1"
			s.mut(id).gh["hadD"] = "1"
			s.gv["agap"] = vint(1)
		} else if g, ok := s.gv["agap"].(VInt); ok && s.gh["E"] == "" {
			s.gv["agap"] = VInt{g.E.addc(1)}
		}
	} else if m.is("C05", "C06", "C37") || m.counted() {
		pos := s.gv["pos"].(VInt).E
		if tag == "D" && m.e != "TailGiven" {
			s.gv["Dpos"] = VInt{pos}
		}
		s.gv["pos"] = VInt{pos.addc(1)}
		if m.e == "TailGiven" {
			s.gv["pos"] = VInt{lap(c, s.gh["D"] != "")}
		}
	}
	if m.p == "C05" {
		if s.cur().kind == "main" {
			if s.gh["first"] == "" {
				s.gh["first"] = "1"
				s.gv["first"] = v
			}
			s.gv["last"] = v
			if strings.HasSuffix(m.e, "Mach") {
				s.gh["pending"] = "1"
			}
		}
	}
	return v, true, true
}

// --- hand-over ---

func (m *streamMon) markOut(c *Ctx, v Val, depth int) {
	s := c.s
	if depth > 5 {
		return
	}
	switch v := v.(type) {
	case VIface:
		m.markOut(c, v.v, depth)
	case VStruct:
		for _, f := range v.f {
			m.markOut(c, f, depth+1)
		}
	case VAddr:
		o := s.heap[v.obj]
		if o.kind == oCell {
			m.markOut(c, o.v, depth+1)
		}
	case VSlice:
		for _, e := range s.heap[v.obj].elems {
			m.markOut(c, e.v, depth+1)
		}
	case VRef:
		o := s.heap[v.obj]
		switch {
		case o.kind == oMap:
			for _, e := range o.elems {
				m.markOut(c, e.v, depth+1)
			}
		case o.kind == oChan && o.gh["out"] == "":
			n := s.mut(v.obj)
			n.gh["out"] = "1"
			if n.gh["track"] != "" {
				s.gh["trackout"] = "1"
			}
			if m.counts(c, v.obj) {
				s.gh["tot"] = satAdd(s.gh["tot"], n.gh["n"])
			}
			for _, e := range n.elems {
				m.markOut(c, e.v, depth+1)
			}
		}
	}
}

func satAdd(a, b string) string {
	n := atoi(a) + atoi(b)
	if n > 2 {
		n = 2
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprint(n)
}

// counts: emissions on this channel count towards the tracked element.
func (m *streamMon) counts(c *Ctx, id int) bool {
	return m.kind != "copy" || c.s.heap[id].gh["track"] != ""
}

func (m *streamMon) Intrinsic(c *Ctx, name string, args []Val) Val {
	s := c.s
	switch name {
	case "Out":
		v := args[0]
		if i, ok := v.(VIface); ok {
			v = i.v
		}
		if isNil(v) {
			if m.is("C01") {
				c.flag("close", "a nil channel is handed out: its consumer never ends")
			}
			return unit()
		}
		m.markOut(c, v, 0)
		return unit()
	case "SortPos":
		return m.sortPos(c, args[0], int(args[1].(VInt).E.c))
	case "Mark":
		what, _ := asStr(args[0])
		var vs []Val
		if sl, ok := args[1].(VSlice); ok {
			for _, e := range s.heap[sl.obj].elems {
				vs = append(vs, e.v)
			}
		}
		m.mark(c, what, vs)
		return unit()
	}
	return nil
}

func unbox(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.v
	}
	return v
}

func (m *streamMon) mark(c *Ctx, what string, vs []Val) {
	s := c.s
	closed := m.srcClosed(c)
	switch what {
	case "copies":
		if m.is("C01", "C03") {
			m.markOut(c, unbox(vs[0]), 0)
		}
		if m.is("C03") {
			m.copies(c, unbox(vs[0]))
		}
	case "groups":
		if !m.is("C03") {
			return
		}
		r, ok := unbox(vs[0]).(VRef)
		if !ok {
			c.flag("grouping", "no groups are returned")
			return
		}
		if !closed {
			c.flag("grouping", "the groups are returned before the stream ended")
		}
		for _, e := range s.heap[r.obj].elems {
			if e.v != nil && valKey(e.key) == valKey(s.gv["K0"]) {
				m.sliceOut(c, e.v)
			}
		}
	case "any", "all":
		if m.p != "C05" {
			return
		}
		b := c.x.cond(c, unbox(vs[0]))
		if s.gh["pending"] != "" && s.gh["decided"] == "" {
			c.flag("quantifier", "an element is skipped: the predicate was not asked about it")
		}
		want := s.gh["acc"] == "1"
		if what == "all" {
			want = s.gh["rej"] != "1"
		}
		switch {
		case b != want:
			c.flag("quantifier", "%s reports %v although the predicate's answers say %v", m.e, b, want)
		case !closed && b == (what == "all"):
			c.flag("quantifier", "%s answers before the stream ended and before any element decided it", m.e)
		default:
			c.ok("quantifier")
		}
	case "count":
		if m.p != "C05" {
			return
		}
		n := unbox(vs[0]).(VInt).E
		if !closed || !s.num.entailsEq(n.sub(s.gv["pos"].(VInt).E)) {
			c.flag("count", "Count does not return the number of elements")
		} else {
			c.ok("count")
		}
	case "first", "last":
		if m.p != "C05" {
			return
		}
		got, err, none := vs[0], vs[1], vs[2]
		if s.gh["first"] == "" {
			if !closed || valKey(err) != valKey(none) {
				c.flag("find", "%s on an empty stream does not report ErrNoElement", m.e)
			} else {
				c.ok("find")
			}
			return
		}
		if !isNil(err) {
			c.flag("find", "%s reports an error although the stream has elements", m.e)
			return
		}
		if valKey(got) != valKey(s.gv[what]) {
			c.flag("find", "%s does not return the %s element", m.e, what)
			return
		}
		if what == "last" && !closed {
			c.flag("find", "%s returns before the stream ended", m.e)
			return
		}
		c.ok("find")
	}
}

func (m *streamMon) copies(c *Ctx, v Val) {
	s := c.s
	r, ok := v.(VRef)
	if !ok {
		c.flag("copies", "no copies are returned")
		return
	}
	_, there := c.x.mapLookup(c, r, s.heap[r.obj].T, s.gv["kname"])
	if s.gh["named"] != "" && !there {
		c.flag("copies", "a requested copy is missing from the result")
	}
	if s.gh["named"] == "" && there {
		c.flag("copies", "the result holds a copy that was not requested")
	}
	if there {
		c.ok("copies")
	}
}

func (m *streamMon) MapNext(c *Ctx, it int, y VSym, mt *types.Map) (k, v Val, more, done bool) {
	s := c.s
	if s.gv["kname"] == nil {
		return nil, nil, false, false
	}
	// iteration over the requested copies
	o := s.heap[it]
	opts := []string{"other"}
	if s.gh["params"] == "" {
		// the requested names: kname may be one of them
		opts = []string{"empty", "kname", "other"}
	} else if o.gh["seen"] == "" && s.gh["params"] == "with" {
		opts = append(opts, "kname")
	} else {
		opts = append(opts, "end")
	}
	ch := opts[c.x.choose(s, len(opts))]
	switch ch {
	case "empty":
		s.gh["params"] = "without"
		return nil, nil, false, true
	case "end":
		return nil, nil, false, true
	case "kname":
		s.gh["params"] = "with"
		s.mut(it).gh["seen"] = "1"
		s.gh["named"] = "1"
		return s.gv["kname"], c.x.fresh(c, mt.Elem(), "size"), true, true
	}
	if s.gh["params"] == "" {
		if c.x.choose(s, 2) == 0 {
			s.gh["params"] = "with"
		} else {
			s.gh["params"] = "without"
		}
	}
	n := c.x.freshStr(c, "name")
	s.neq[neqKey(n, s.gv["kname"])] = neqFact{n, s.gv["kname"]}
	return n, c.x.fresh(c, mt.Elem(), "size"), true, true
}

func (m *streamMon) MakeChan(c *Ctx, id int) {
	s := c.s
	if m.kind != "copy" || zeroSize(s.heap[id].T.Underlying().(*types.Chan).Elem()) {
		return
	}
	if s.gh["trk"] == "" && c.x.choose(s, 2) == 0 {
		s.gh["trk"] = "1"
		s.mut(id).gh["track"] = "1"
	}
}

func (m *streamMon) MapUpdate(c *Ctx, id int, key, val Val, hit int) {
	s := c.s
	if m.kind != "copy" {
		return
	}
	if a, ok := unbox(val).(VAddr); ok {
		if st, ok := s.heap[a.obj].v.(VStruct); ok {
			for _, f := range st.f {
				if r, ok := f.(VRef); ok && s.heap[r.obj].kind == oChan {
					if s.heap[r.obj].gh["inmap"] != "" {
						c.flag("copies", "two copies share one channel")
					}
					s.mut(r.obj).gh["inmap"] = "1"
				}
			}
		}
	}
	// every channel that enters the result is handed out
	m.markOut(c, val, 0)
}

func (m *streamMon) TrackKey(c *Ctx, id int, key, val Val) bool {
	s := c.s
	for _, g := range []string{"K0", "kname"} {
		if k, ok := s.gv[g]; ok && valKey(k) == valKey(key) {
			return true
		}
	}
	return false
}

func streamTrack(x *Exec, s *State, v Val) bool {
	v = unbox(v)
	switch v := v.(type) {
	case VSym:
		switch s.syms[v.id].tag {
		case "D", "E", "F", "D2":
			return true
		case "img", "item", "K0":
			for _, k := range []string{"img", "v0"} {
				if t, ok := s.gv[k].(VSym); ok && t.id == v.id {
					return true
				}
			}
		}
	case VRef:
		o := s.heap[v.obj]
		return o.gh["track"] != "" || o.gh["param"] != ""
	case VAddr:
		o := s.heap[v.obj]
		return strings.HasPrefix(o.site, "param:")
	case VSlice:
		// a group that holds a tracked element
		for _, e := range s.heap[v.obj].elems {
			if streamTrack(x, s, e.v) {
				return true
			}
		}
	}
	return false
}

// --- sends and closes ---

func (m *streamMon) FullSend(c *Ctx, id int, v Val, inSelect bool) bool {
	s := c.s
	o := s.heap[id]
	if s.gh["main"] != "" {
		return o.gh["out"] == "1"
	}
	if s.cur().kind == "main" {
		return false
	}
	if len(s.threads) >= 6 && !zeroSize(o.T.Underlying().(*types.Chan).Elem()) {
		s.mut(id).gh["early"] = "1"
		return true
	}
	return false
}

func (m *streamMon) semaphore(c *Ctx, id int) bool {
	return zeroSize(c.s.heap[id].T.Underlying().(*types.Chan).Elem())
}

func (m *streamMon) sender(c *Ctx, id int) {
	t := c.s.cur()
	for k, v := range t.gv {
		if strings.HasPrefix(k, "sent") && v.(VRef).obj == id {
			return
		}
	}
	for i := 0; ; i++ {
		k := fmt.Sprintf("sent%d", i)
		if _, ok := t.gv[k]; !ok {
			t.gv[k] = VRef{id}
			return
		}
	}
}

func (m *streamMon) Send(c *Ctx, id int, v Val) {
	s := c.s
	o := s.heap[id]
	if o.gh["peer"] != "" {
		return
	}
	if o.gh["closed"] == "1" {
		if m.is("C01", "C06") {
			c.flag("send-after-close", "an element is sent on a channel that has been closed")
		}
		return
	}
	if m.p == "C04" {
		m.release(c, id, "send")
	}
	if m.semaphore(c, id) {
		return
	}
	m.sender(c, id)
	if o.gh["out"] == "1" {
		m.markOut(c, v, 0)
	}
	switch m.p {
	case "C03":
		m.emit(c, id, v)
	case "C06":
		m.cut(c, id, v)
	case "C37":
		if m.kind == "pair" {
			m.pair(c, id, v)
		} else {
			m.order(c, id, v)
		}
	}
}

func (m *streamMon) Close(c *Ctx, id int) {
	s := c.s
	o := s.heap[id]
	if o.gh["peer"] != "" {
		return
	}
	if o.gh["closed"] == "1" {
		if m.is("C01") {
			c.flag("double-close", "a channel is closed twice")
		}
		return
	}
	if m.is("C01") {
		if o.gh["unj"] != "" {
			c.flag("join", "the output is closed although a goroutine that sent on it was not waited for")
		}
		for i := 0; i < len(s.threads)-1; i++ {
			for k, v := range s.threads[i].gv {
				if strings.HasPrefix(k, "sent") && v.(VRef).obj == id {
					c.flag("join", "the output is closed while another goroutine still sends on it")
				}
			}
		}
		if o.gh["unj"] == "" {
			c.ok("join")
		}
	}
	for k, v := range s.cur().gv {
		if strings.HasPrefix(k, "sent") && v.(VRef).obj == id {
			delete(s.cur().gv, k)
		}
	}
	if m.p == "C04" && !m.semaphore(c, id) {
		un := s.gh["unjcb"] != ""
		for _, o := range s.heap {
			for k, v := range o.gh {
				if strings.HasPrefix(k, "unjcb") && v != "" {
					un = true
				}
			}
		}
		for i := 0; i < len(s.threads)-1; i++ {
			if s.threads[i].gh["cb"] != "" {
				un = true
			}
		}
		if un {
			c.flag("join", "the result stream ends although a task was not waited for")
		} else {
			c.ok("join")
		}
	}
}

func (m *streamMon) Spawn(c *Ctx, t *Thread, fn Val, args []Val) {
	if m.p == "C04" && c.s.gh["wpos"] == "" {
		c.s.gh["wpos"] = fmt.Sprint(c.s.num.entailsEq(m.limit(c).addc(-1)))
	}
	for k, v := range c.s.cur().gv {
		if strings.HasPrefix(k, "dlv") { // what the spawner has done comes first
			t.gv[k] = v
		}
	}
	if v := c.s.cur().gh["gotD"]; v != "" {
		t.gh["gotD"] = v
	}
	m.share.spawn(c, t, fn, args)
}

func (m *streamMon) Store(c *Ctx, a VAddr, v Val) {
	if m.is("C02", "C03", "C05", "C06", "C37") && !m.share.store(c, a) {
		c.flag("shared-variable", "a variable shared with a running goroutine is written without synchronisation")
		c.x.stop()
	}
}

func (m *streamMon) Load(c *Ctx, a VAddr) (Val, bool) {
	if m.is("C02", "C03", "C05", "C06", "C37") && !m.share.load(c, a) {
		c.flag("shared-variable", "a variable written by a running goroutine is read without synchronisation")
		c.x.stop()
	}
	return nil, false
}

func (m *streamMon) Sync(c *Ctx, op string, a VAddr) {
	if t := c.s.cur(); op == "done" && t.gh["cb"] != "" {
		t.gh["cb"] = ""
		c.s.mut(a.obj).gh["unjcb"] = "1"
	}
	if op == "wait" {
		m.share.join(c)
		for id, o := range c.s.heap {
			for k, v := range o.gh {
				if strings.HasPrefix(k, "unjcb") && v != "" && id == a.obj {
					c.s.mut(id).gh[k] = ""
				}
			}
		}
	}
}

func (m *streamMon) Recv(c *Ctx, id int, v Val) {
	o := c.s.heap[id]
	if o.gh["early"] != "" {
		c.flag("undecided", "a stage both hands out and consumes a channel")
	}
	if m.p == "C04" {
		m.release(c, id, "recv")
	}
	if !m.semaphore(c, id) {
		m.share.join(c)
	}
}

func (m *streamMon) Stuck(c *Ctx) bool {
	if m.is("C01", "C02", "C03") {
		t := c.s.cur()
		c.flag("deadlock", "all goroutines of the operation are blocked (%s)", t.block)
	}
	return true
}

func (m *streamMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo) {
	s := c.s
	m.share.end(c, t)
	for _, k := range sortedKeys(t.gv) {
		if strings.HasPrefix(k, "sent") {
			if t.kind != "main" {
				s.mut(t.gv[k].(VRef).obj).gh["unj"] = "never"
			}
			delete(t.gv, k)
		}
	}
	if t.kind == "main" {
		for _, o := range s.heap {
			if o.gh["early"] != "" && o.gh["out"] == "" {
				c.flag("undecided", "a channel without a consumer is sent on")
			}
		}
	}
	if p != nil && strings.HasPrefix(p.why, "runtime") && m.is("C01", "C02", "C03", "C06") {
		c.flag("crash", "the operation crashes: %s", p.why)
	}
	if m.p == "C04" {
		m.taskEnd(c, t)
	}
	if p != nil && t.kind == "main" {
		s.gh["mainpanic"] = p.why
	}
}

func (m *streamMon) srcClosed(c *Ctx) bool {
	for _, o := range c.s.heap {
		if o.kind == oChan && o.ext && o.gh["src"] != "" && o.gh["closed"] == "" && !m.absent(c, o) {
			return false
		}
	}
	return true
}

// absent: o belongs to the tracked element of a slice that is too short.
func (m *streamMon) absent(c *Ctx, o *Obj) bool {
	if o.gh["param"] != "others" || o.gh["src"] == "" {
		return false
	}
	sl := c.s.gv["others"].(VSlice)
	return c.s.num.entails(c.s.gv["kappa"].(VInt).E.sub(sl.len))
}

func (m *streamMon) finalChan(c *Ctx, id int, end bool) {
	s := c.s
	o := s.heap[id]
	if o.kind != oChan || o.gh["peer"] != "" {
		return
	}
	if o.ext {
		if m.is("C02") && o.gh["param"] != "" {
			if o.gh["closed"] == "" && o.gh["out"] == "" && !m.absent(c, o) {
				c.flag("upstream", "the upstream %q is neither consumed to its end nor handed on", o.gh["param"])
			} else {
				c.ok("upstream")
			}
		}
		return
	}
	if m.kind == "copy" && o.gh["track"] == "" {
		return // one arbitrary copy stands for all
	}
	if m.is("C01") && o.gh["out"] == "1" {
		if o.gh["closed"] != "1" {
			c.flag("close", "a stream that was handed out is never closed")
		} else {
			c.ok("close")
		}
	}
	if m.is("C02") && o.gh["out"] == "" && o.gh["closed"] == "" && o.gh["sent"] != "" {
		c.ok("internal")
	}
}

func (m *streamMon) Lost(c *Ctx, id int) { m.finalChan(c, id, false) }

func (m *streamMon) End(c *Ctx) {
	s := c.s
	var ids []int
	for id := range s.heap {
		ids = append(ids, id)
	}
	for _, id := range ids {
		m.finalChan(c, id, true)
	}
	switch m.p {
	case "C03":
		m.endCount(c)
	case "C06":
		m.endCut(c)
	case "C37":
		m.endOrder(c)
	case "C04":
		if s.gh["cbs"] != "" {
			c.ok("tokens")
		}
	}
}

// --- callbacks ---

func (m *streamMon) Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	s := c.s
	name := s.syms[f.id].tag
	for _, a := range args {
		if r, ok := a.(VRef); ok && s.heap[r.obj].kind == oChan {
			// the user gets a channel
			o := s.heap[r.obj]
			if o.ext {
				s.mut(r.obj).gh["out"] = "1"
				continue
			}
			if o.T.Underlying().(*types.Chan).Dir() == types.RecvOnly {
				m.markOut(c, a, 0)
				continue
			}
			if o.gh["closed"] == "1" {
				if m.is("C01") {
					c.flag("send-after-close", "a user callback gets a channel that has already been closed")
				}
				continue
			}
			m.sender(c, r.obj)
		}
	}
	switch m.p {
	case "C03":
		return m.called(c, name, sig, args)
	case "C04":
		if name == "fn" || name == "walk" || name == "each" {
			m.taskCall(c, args)
		}
	case "C37":
		if name == "less" && len(args) == 2 {
			return m.less(c, args[0], args[1])
		}
		if name == "each" && m.kind == "pair" {
			m.pair(c, 0, args[0])
		}
	case "C05":
		if name == "pred" {
			if s.gh["decided"] == "" {
				if last, ok := s.gv["last"]; !ok || valKey(last) != valKey(args[0]) || s.gh["pending"] == "" {
					c.flag("quantifier", "the predicate is asked about something else than the next element")
				}
			}
			s.gh["pending"] = ""
			b := c.x.choose(s, 2) == 0
			if b {
				s.gh["acc"] = "1"
			} else {
				s.gh["rej"] = "1"
			}
			if b == (m.e == "AnyMach") {
				s.gh["decided"] = "1"
			}
			return vbool(b)
		}
	}
	return nil
}

// --- C03 ---

func (m *streamMon) called(c *Ctx, name string, sig *types.Signature, args []Val) Val {
	s := c.s
	if name == "less" {
		return nil
	}
	a := args[0]
	isT := func(k string) bool {
		t, ok := s.gv[k]
		return ok && valKey(t) == valKey(unbox(a))
	}
	hit := isT("D")
	switch m.kind {
	case "flatmap":
		if isT("D2") {
			s.gh["calls2"] = satAdd(s.gh["calls2"], "1")
		}
	}
	if hit {
		s.gh["calls"] = satAdd(s.gh["calls"], "1")
		if s.gh["calls"] == "2" {
			c.fail("exactly-once", "the callback is invoked twice for one element")
		}
	}
	switch v := unbox(a).(type) {
	case VSym:
		switch s.syms[v.id].tag {
		case "item", "D", "E", "F", "D2", "queued", "elem":
		default:
			c.flag("provenance", "the callback is invoked with something that is no element of the stream (%s)", s.show(a))
		}
	case VSlice:
		if m.kind != "flatmap" {
			c.flag("provenance", "the callback is invoked with something that is no element of the stream (%s)", s.show(a))
		}
	default:
		c.flag("provenance", "the callback is invoked with something that is no element of the stream (%s)", s.show(a))
	}
	switch m.kind {
	case "img", "flatmap":
		r := s.newSym(sig.Results().At(0).Type(), "img", unbox(a))
		if hit || isT("D2") {
			s.gv["img"] = r
		}
		return r
	case "filter":
		b := c.x.choose(s, 2) == 0
		if hit {
			s.gh["accD"] = fmt.Sprint(b)
		} else if v, ok := unbox(a).(VSym); ok {
			s.mutSym(v.id).facts["rej"] = !b
		}
		return vbool(b)
	case "distinct", "group", "groupby":
		k0 := s.gv["K0"]
		v, ok := unbox(a).(VSym)
		same := false
		switch {
		case m.kind == "distinct":
			same = c.x.choose(s, 2) == 0
		case hit || isT("F"):
			same = true
		case isT("E"):
		default:
			same = c.x.choose(s, 2) == 0
		}
		if !same {
			k := s.newSym(ifaceT(), "key")
			s.neq[neqKey(k, k0)] = neqFact{k, k0}
			return k
		}
		if ok && m.kind == "distinct" {
			n := s.mutSym(v.id)
			n.facts["k0"] = true
			if s.gh["k0seen"] == "" {
				s.gh["k0seen"] = "1"
				s.gv["v0"] = v
			}
		}
		return k0
	}
	return nil
}

func (m *streamMon) WriteElem(c *Ctx, obj int, idx Lin, v Val) {
	s := c.s
	if m.p == "C06" && s.heap[obj].gh["emitted"] != "" {
		m.afterEmission(c, obj, idx, lc(1))
	}
	if m.p == "C37" && s.gv["D"] != nil && valKey(unbox(v)) == valKey(s.gv["D"]) {
		m.placed(c, idx)
	}
	if m.p != "C03" || !types.IsInterface(s.heap[obj].T) {
		return
	}
	y, ok := v.(VSym)
	if ok {
		switch s.syms[y.id].tag {
		case "item", "D", "E", "F", "queued", "D2", "img":
			return
		}
	}
	if s.heap[obj].gh["prov"] == "" {
		s.mut(obj).gh["prov"] = "bad"
	}
}

func (m *streamMon) CopyInto(c *Ctx, obj, src int, shift Lin) {
	if c.s.heap[src].gh["prov"] != "" {
		c.s.mut(obj).gh["prov"] = "bad"
	}
}

func (m *streamMon) Unbox(c *Ctx, v VSym, T types.Type) Val {
	s := c.s
	d, ok := s.gv["D"].(VSym)
	if m.p == "C03" && m.kind == "flatmap" && ok && d.id == v.id {
		if sl, isSl := T.Underlying().(*types.Slice); isSl && types.IsInterface(sl.Elem()) {
			if r, ok := s.gv["DS"]; ok {
				return r
			}
			n, cp, k := s.nonneg(), s.newDim(), s.nonneg()
			s.assume(cp.sub(n))
			d2 := s.newSym(ifaceT(), "D2")
			id := s.newObj(&Obj{kind: oArr, T: sl.Elem(), site: "item", ext: true, n: cp, hasN: true, elemT: "item", elems: []Elem{{idx: k, v: d2}}})
			s.gv["D2"] = d2
			s.gv["DS"] = VSlice{id, lc(0), n, cp}
			s.gv["k2"] = VInt{k}
			return s.gv["DS"]
		}
	}
	return nil
}

func (m *streamMon) bump(c *Ctx, id int) {
	s := c.s
	n := s.mut(id)
	n.gh["n"] = satAdd(n.gh["n"], "1")
	if n.gh["out"] == "1" && m.counts(c, id) {
		s.gh["tot"] = satAdd(s.gh["tot"], "1")
		if s.gh["tot"] == "2" {
			c.fail("exactly-once", "an element is emitted twice")
		}
	}
}

// sliceOut inspects an emitted group.
func (m *streamMon) sliceOut(c *Ctx, v Val) int {
	s := c.s
	sl, ok := unbox(v).(VSlice)
	if !ok {
		return 0
	}
	has := map[string]int{}
	for _, e := range s.heap[sl.obj].elems {
		for _, g := range []string{"D", "E", "F"} {
			t, ok := s.gv[g]
			if ok && e.v != nil && valKey(t) == valKey(e.v) {
				if c.x.decide(s, e.idx.sub(sl.off)) && c.x.decide(s, sl.off.add(sl.len).sub(e.idx).addc(-1)) {
					has[g]++
				}
			}
		}
	}
	if has["D"] > 1 {
		c.fail("exactly-once", "an element occurs twice in one group")
	}
	if m.kind == "group" || m.kind == "groupby" {
		if has["D"] == 1 {
			if has["E"] > 0 {
				c.flag("grouping", "elements with different keys are in one group")
			}
			if s.gh["F"] != "" && has["F"] != 1 {
				c.flag("grouping", "two elements with the same key are not in the same group")
			}
		}
		if m.kind == "groupby" && has["D"] == 1 {
			s.gh["tot"] = satAdd(s.gh["tot"], "1")
			if s.gh["marked"] != "" {
				s.gh["tot"] = "1"
			}
			s.gh["marked"] = "1"
		}
	}
	if s.heap[sl.obj].gh["prov"] != "" {
		c.flag("provenance", "a group holds something that is no element of the stream")
	}
	return has["D"]
}

// counted: the number of emitted elements is compared with the number of
// received ones.
func (m *streamMon) counted() bool {
	return m.p == "C03" && (m.e == "Merge" || m.e == "Sort" || m.e == "Reverse")
}

func (m *streamMon) emit(c *Ctx, id int, v Val) {
	s := c.s
	if m.counted() {
		n := lc(1)
		if sl, ok := unbox(v).(VSlice); ok && m.e == "Merge" {
			n = sl.len
		} else if m.e == "Merge" {
			n = lc(0)
		}
		s.gv["sent"] = VInt{s.gv["sent"].(VInt).E.add(n)}
	}
	bad := func() {
		c.flag("provenance", "something that is no element of the stream is emitted (%s)", s.show(v))
	}
	switch m.kind {
	case "item", "copy", "filter", "distinct":
		y, ok := unbox(v).(VSym)
		if !ok {
			bad()
			return
		}
		si := s.syms[y.id]
		switch si.tag {
		case "D":
			m.bump(c, id)
			if m.kind == "filter" && s.gh["accD"] != "true" {
				c.flag("filter", "an element the predicate rejected (or was not asked about) is emitted")
			}
		case "item", "queued":
			if m.kind == "filter" && si.facts["rej"] {
				c.flag("filter", "an element the predicate rejected is emitted")
			}
		default:
			bad()
		}
		if m.kind == "distinct" {
			if si.facts["k0"] {
				if v0, _ := s.gv["v0"].(VSym); v0.id != y.id {
					c.flag("distinct", "an element whose key was seen before is emitted")
				} else {
					s.gh["k0sent"] = satAdd(s.gh["k0sent"], "1")
					if s.gh["k0sent"] == "2" {
						c.fail("distinct", "an element is emitted twice")
					}
				}
			}
		}
	case "img", "flatmap":
		y, ok := unbox(v).(VSym)
		if !ok || s.syms[y.id].tag != "img" && s.syms[y.id].tag != "queued" {
			bad()
			return
		}
		if t, ok := s.gv["img"].(VSym); ok && t.id == y.id {
			m.bump(c, id)
		}
	case "slice", "group":
		if _, ok := unbox(v).(VSlice); !ok {
			if isNil(unbox(v)) {
				return // an empty group
			}
			if y, ok := unbox(v).(VSym); ok && strings.HasPrefix(s.syms[y.id].tag, "mapval") {
				return
			}
			bad()
			return
		}
		if m.sliceOut(c, v) > 0 {
			m.bump(c, id)
		}
		if m.kind == "slice" {
			s.gh["slices"] = satAdd(s.gh["slices"], "1")
			if s.gh["slices"] == "2" {
				c.fail("merge", "Merge emits more than one slice")
			}
		}
	case "none":
		if s.heap[id].gh["out"] == "1" {
			bad()
		}
	}
}

func (m *streamMon) endCount(c *Ctx) {
	s := c.s
	if s.gh["mainpanic"] != "" {
		return
	}
	if m.counted() {
		if !s.num.entailsEq(s.gv["pos"].(VInt).E.sub(s.gv["sent"].(VInt).E)) {
			c.flag("exactly-once", "the number of emitted elements may differ from the number of received ones")
		} else {
			c.ok("exactly-once")
		}
	}
	if s.gh["D"] == "" {
		if m.kind == "distinct" && s.gh["k0seen"] != "" && s.gh["k0sent"] == "" {
			c.flag("distinct", "the first element with its key is not emitted")
		}
		return
	}
	calls, tot := s.gh["calls"], s.gh["tot"]
	want := func(ok bool, format string, args ...interface{}) {
		if ok {
			c.ok("exactly-once")
		} else {
			c.flag("exactly-once", format, args...)
		}
	}
	called := func() { want(calls == "1", "the callback is not invoked for an element") }
	switch m.kind {
	case "copy":
		if s.gh["trk"] != "" && m.trackedOut(c) {
			want(tot == "1", "an element does not reach every copy")
		}
	case "item":
		want(tot == "1", "an element is lost")
		if m.e == "Peek" {
			called()
		}
	case "img":
		called()
		want(tot == "1", "the image of an element is lost")
	case "flatmap":
		if s.gv["D2"] != nil {
			if calls != "" {
				c.flag("exactly-once", "the callback is invoked for a slice instead of its elements")
			}
			k, n := s.gv["k2"].(VInt).E, s.gv["DS"].(VSlice).len
			if s.num.entails(k.sub(n)) {
				return
			}
			want(s.gh["calls2"] == "1", "the callback is not invoked exactly once for an element of a slice")
			want(tot == "1", "the image of an element is lost")
			return
		}
		if isNil(s.gv["D"]) {
			return
		}
		called()
		want(tot == "1", "the image of an element is lost")
	case "filter":
		called()
		want((tot == "1") == (s.gh["accD"] == "true"), "an accepted element is not emitted")
	case "distinct":
		called()
		if s.gh["k0seen"] != "" && s.gh["k0sent"] == "" {
			c.flag("distinct", "the first element with its key is not emitted")
		}
	case "call", "none":
		called()
	case "slice":
		want(tot == "1", "an element is lost")
	case "group", "groupby":
		called()
		want(tot == "1", "an element is lost")
	}
}

func (m *streamMon) trackedOut(c *Ctx) bool {
	return c.s.gh["trackout"] != ""
}

// --- C04 ---

func (m *streamMon) limit(c *Ctx) Lin {
	w, ok := c.s.gv["p:work"].(VInt)
	if !ok {
		return lc(1)
	}
	if c.x.decide(c.s, w.E.addc(-1)) {
		return w.E
	}
	return lc(1)
}

func (m *streamMon) taskCall(c *Ctx, args []Val) {
	s := c.s
	t := s.cur()
	s.gh["cbs"] = "1"
	if t.kind == "main" || !strings.Contains(strings.TrimPrefix(t.site[strings.Index(t.site, ">")+1:], ">"), ">") {
		// run by the dispatcher itself: one at a time
		return
	}
	t.gh["cb"] = "1"
	w := m.limit(c)
	n := 0
	var ids []int
	for id, o := range s.heap {
		if o.kind == oChan && !o.ext && o.gh["out"] == "" && s.num.entails(w.sub(o.n)) {
			ids = append(ids, id)
		}
	}
	sortInts(ids)
	for _, id := range ids {
		o := s.heap[id]
		mode := ""
		switch {
		case s.num.entailsEq(o.occ.addc(-1)):
			mode = "recv"
		case s.num.entailsEq(o.occ.sub(o.n).addc(1)):
			mode = "send"
		default:
			continue
		}
		k := fmt.Sprint(n)
		n++
		t.gv["sem"+k] = VRef{id}
		t.gh["semmode"+k] = mode
		t.gh["semrel"+k] = ""
	}
	if n == 0 {
		c.flag("worker-limit", "a callback runs without holding a slot of a semaphore whose size is at most the work size")
	} else {
		c.ok("worker-limit")
	}
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (m *streamMon) release(c *Ctx, id int, mode string) {
	t := c.s.cur()
	for k, v := range t.gv {
		if strings.HasPrefix(k, "sem") && v.(VRef).obj == id && t.gh["semmode"+k[3:]] == mode {
			t.gh["semrel"+k[3:]] = satAdd(t.gh["semrel"+k[3:]], "1")
		}
	}
}

func (m *streamMon) taskEnd(c *Ctx, t *Thread) {
	had, good := false, false
	for _, k := range sortedKeys(t.gv) {
		if strings.HasPrefix(k, "sem") {
			had = true
			if t.gh["semrel"+k[3:]] == "1" {
				good = true
			}
		}
	}
	if had {
		if !good {
			c.flag("worker-limit", "a task ends without giving its slot back exactly once")
		} else {
			c.ok("slot-returned")
		}
	}
	if t.gh["cb"] != "" {
		c.s.gh["unjcb"] = "never"
	}
}

// --- C06 ---

func (m *streamMon) limitEnds(c *Ctx) {
	s := c.s
	if m.e != "Limit" {
		return
	}
	open := false
	for _, o := range s.heap {
		if o.kind == oChan && !o.ext && o.gh["out"] == "1" && o.gh["closed"] == "" {
			open = true
		}
	}
	if !open {
		return
	}
	if !s.num.entails(s.gv["arg"].(VInt).E.sub(s.gv["sent"].(VInt).E).addc(-1)) {
		c.flag("limit", "the output is not ended as soon as the last element was sent")
	} else {
		c.ok("limit-ends")
	}
}

func (m *streamMon) cut(c *Ctx, id int, v Val) {
	s := c.s
	n := s.gv["arg"].(VInt).E
	v = unbox(v)
	if m.e != "Split" {
		y, ok := v.(VSym)
		if !ok || s.syms[y.id].tag != "D" && s.syms[y.id].tag != "item" {
			c.flag("provenance", "something that is no element of the stream is emitted (%s)", s.show(v))
			return
		}
		sent := s.gv["sent"].(VInt).E
		s.gv["sent"] = VInt{sent.addc(1)}
		if s.syms[y.id].tag == "D" {
			dp := s.gv["Dpos"].(VInt).E
			s.gh["n"] = satAdd(s.gh["n"], "1")
			if s.gh["n"] == "2" {
				c.fail("position", "an element is emitted twice")
			}
			want := n.sub(dp).addc(-1) // position < n
			what := "an element after the first n is emitted"
			if m.e == "Skip" {
				want = dp.sub(n)
				what = "an element that should be skipped is emitted"
			}
			if !s.num.entails(want) {
				c.flag("position", "%s", what)
			} else {
				c.ok("position")
			}
		}
		return
	}
	sl, ok := v.(VSlice)
	if !ok {
		c.flag("chunk", "something that is no chunk is emitted (%s)", s.show(v))
		return
	}
	full := s.num.entailsEq(sl.len.sub(n))
	if !full {
		if !m.srcClosed(c) {
			c.flag("chunk", "a chunk that is not the last one does not have length n")
		} else if !s.num.entails(sl.len.addc(-1)) || !s.num.entails(n.sub(sl.len)) {
			c.flag("chunk", "the last chunk may be empty or longer than n")
		}
	} else {
		c.ok("chunk")
	}
	base := s.gv["cut"].(VInt).E
	hits := 0
	for _, e := range s.heap[sl.obj].elems {
		if e.v != nil && s.gv["D"] != nil && valKey(e.v) == valKey(s.gv["D"]) {
			if c.x.decide(s, e.idx.sub(sl.off)) && c.x.decide(s, sl.off.add(sl.len).sub(e.idx).addc(-1)) {
				hits++
				if !s.num.entailsEq(s.gv["Dpos"].(VInt).E.sub(base).sub(e.idx.sub(sl.off))) {
					c.flag("chunk", "an element is not at its position in the chunks")
				}
			}
		}
	}
	for i := 0; i < hits; i++ {
		s.gh["n"] = satAdd(s.gh["n"], "1")
	}
	if s.gh["n"] == "2" {
		c.fail("chunk", "an element is in two chunks")
	}
	s.gv["cut"] = VInt{base.add(sl.len)}
	o := s.mut(sl.obj)
	o.gh["emitted"] = "1"
	o.gv["eoff"], o.gv["elen"] = VInt{sl.off}, VInt{sl.len}
}

func (m *streamMon) afterEmission(c *Ctx, obj int, idx, n Lin) {
	s := c.s
	o := s.heap[obj]
	off, ln := o.gv["eoff"].(VInt).E, o.gv["elen"].(VInt).E
	if s.num.entails(idx.sub(off).sub(ln)) || s.num.entails(off.sub(idx).sub(n)) {
		return
	}
	c.flag("chunk", "a chunk is modified after it was emitted")
}

func (m *streamMon) WriteRange(c *Ctx, obj int, at, n Lin) {
	if m.p == "C06" && c.s.heap[obj].gh["emitted"] != "" {
		m.afterEmission(c, obj, at, n)
	}
}

func (m *streamMon) endCut(c *Ctx) {
	s := c.s
	n := s.gv["arg"].(VInt).E
	min := int64(0)
	if m.e == "Split" {
		min = 1
	}
	if s.gh["mainpanic"] != "" {
		if !s.num.entails(n.neg().addc(min - 1)) {
			c.flag("argument", "%s rejects an argument that is in range", m.e)
		}
		return
	}
	if !s.num.entails(n.addc(-min)) {
		c.flag("argument", "%s accepts an argument that is out of range", m.e)
		return
	}
	if s.gh["handed"] == "" {
		for _, o := range s.heap {
			if o.ext && o.gh["src"] != "" && o.gh["out"] == "1" {
				// the stream itself is the result
				if m.e == "Skip" && s.num.entailsEq(n) {
					return
				}
				c.flag("position", "the stream itself is returned")
				return
			}
		}
	}
	if s.gh["D"] == "" {
		return
	}
	dp := s.gv["Dpos"].(VInt).E
	if s.gh["n"] == "1" {
		return
	}
	lostOK := false
	switch m.e {
	case "Limit":
		lostOK = s.num.entails(dp.sub(n))
	case "Skip":
		lostOK = s.num.entails(n.sub(dp).addc(-1))
	}
	if !lostOK {
		c.flag("position", "an element that should be emitted is lost")
	} else {
		c.ok("position")
	}
}

var _ = token.NoPos

func init() {
	H := []string{"hstream"}
	all := strings.Fields("Empty Range Of From Concat ConcatM Distinct Buffer Split SplitSteam Sort Tail Skip Limit Filter FilterDefault Walk WalkDefault WalkOptions Map FlatMap Group Merge Reverse Peek Copy Chan")
	term := strings.Fields("Count Done Foreach ForeachOrdered ParallelFinish AnyMach AllMach FindFirst FindLast Collection GroupBy")
	run := func(r *Run, e, kind string, conf func(x *Exec)) {
		m := &streamMon{p: r.prop, e: e, kind: kind}
		r.explore("hstream", e, m, func(x *Exec) {
			x.trackFn = streamTrack
			if conf != nil {
				conf(x)
			}
		})
	}
	assume := []string{"user callbacks return or panic (no runtime.Goexit)", "ants.Pool with size -1 runs every submitted task in its own goroutine and recovers its panic", "the consumer of a handed-out stream keeps receiving"}
	kindOf := func(e string) string {
		if e == "Copy" {
			return "copy"
		}
		return ""
	}
	register("C01", H, func(r *Run) {
		r.assume = assume
		for _, e := range all {
			run(r, e, kindOf(e), func(x *Exec) { x.cbPanic = true })
		}
	})
	register("C02", H, func(r *Run) {
		r.assume = assume
		for _, e := range append(append([]string(nil), all...), term...) {
			run(r, e, kindOf(e), nil)
		}
	})
	register("C03", H, func(r *Run) {
		r.assume = assume
		for e, k := range map[string]string{"Buffer": "item", "Peek": "item", "Concat": "item", "ConcatM": "item", "Copy": "copy", "Map": "img", "FlatMap": "flatmap",
			"Filter": "filter", "FilterDefault": "filter", "Walk": "none", "WalkDefault": "none", "Distinct": "distinct", "Foreach": "call", "ForeachOrdered": "call", "ParallelFinish": "none",
			"Merge": "slice", "Group": "group", "GroupBy": "groupby", "Sort": "item", "Reverse": "item"} {
			run(r, e, k, nil)
		}
	})
	register("C04", H, func(r *Run) {
		r.assume = assume
		for _, e := range []string{"Walk", "WalkDefault", "WalkOptions", "Map", "FlatMap", "Filter", "FilterDefault", "ParallelFinish"} {
			run(r, e, "", func(x *Exec) { x.cbPanic = true })
		}
	})
	register("C05", H, func(r *Run) {
		for _, e := range []string{"AnyMach", "AllMach", "FindFirst", "FindLast", "Count"} {
			run(r, e, "", nil)
		}
	})
	register("C37", H, func(r *Run) {
		r.assume = assume
		run(r, "Reverse", "", func(x *Exec) { x.maxDisj = 10 })
		run(r, "Sort", "", func(x *Exec) { x.maxDisj, x.distinct = 6, true })
		for _, e := range strings.Fields("Of Buffer Peek Distinct Copy Concat ConcatM Limit Skip Split SplitSteam Merge Foreach ForeachOrdered") {
			run(r, e, "pair", func(x *Exec) { x.maxDisj = 10 })
		}
		for n := 1; n <= tailBound(r); n++ {
			n := n
			run(r, "TailGiven", "", func(x *Exec) { x.given, x.maxDisj = []int{n}, 1 })
		}
	})
	register("C06", H, func(r *Run) {
		for _, e := range []string{"Limit", "Skip", "Split"} {
			run(r, e, "", nil)
		}
	})
}
