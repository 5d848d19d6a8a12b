package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shimTable maps library functions to their Go-level models in harness/vf.
var shimTable = map[string]string{
	"sort.Slice":       "SortSlice",
	"sort.SliceStable": "SortSlice",
	"sort.Sort":        "SortSort",
	"sort.Stable":      "SortSort",
	"(*golang.org/x/sync/singleflight.Group).Do": "SFDo",
	"(*sync.Once).Do":                             "OnceDo",
	"(*sync.Pool).Get":                            "PoolGet",
	"io.ReadFull":                                 "ReadFull",
	"io.ReadAtLeast":                              "ReadAtLeast",
	"strings.Map":                                 "StringsMap",
	"strings.IndexFunc":                           "IndexFunc",
	"strings.ContainsFunc":                        "ContainsFunc",
	"strings.Join":                                "StringsJoin",
	"(*sync.Map).Load":                            "MapLoad",
	"(*sync.Map).Store":                           "MapStore",
	"(*sync.Map).LoadOrStore":                     "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":                   "MapLoadAndDelete",
	"(*sync.Map).Delete":                          "MapDelete",
	"map ComputeIfAbsent":                         "MapComputeIfAbsent",
	"map ComputeIfPresent":                        "MapComputeIfPresent",
	"bufio.NewReader":                             "NewReader",
	"bufio.NewReaderSize":                         "NewReaderSize",
	"bufio.NewWriter":                             "NewWriter",
	"bufio.NewWriterSize":                         "NewWriterSize",
	"(*bufio.Reader).Reset":                       "ReaderReset",
	"(*bufio.Reader).Size":                        "ReaderSize",
	"(*bufio.Reader).Buffered":                    "ReaderBuffered",
	"(*bufio.Writer).Reset":                       "WriterReset",
	"(*bufio.Writer).Size":                        "WriterSize",
	"(*bufio.Writer).Buffered":                    "WriterBuffered",
	"(*bufio.Writer).Available":                   "WriterAvailable",
	"(*bufio.Writer).Flush":                       "WriterFlush",
	"buf pool put":                                "BufPoolPut",
	"(encoding/binary.bigEndian).Uint16":          "BEUint16",
	"(encoding/binary.bigEndian).Uint32":          "BEUint32",
	"(encoding/binary.bigEndian).PutUint16":       "BEPutUint16",
	"(encoding/binary.bigEndian).PutUint32":       "BEPutUint32",
	"(encoding/binary.bigEndian).AppendUint16":    "BEAppendUint16",
	"(encoding/binary.bigEndian).AppendUint32":    "BEAppendUint32",
	"(encoding/binary.littleEndian).Uint16":       "LEUint16",
	"(encoding/binary.littleEndian).Uint32":       "LEUint32",
	"(encoding/binary.littleEndian).PutUint16":    "LEPutUint16",
	"(encoding/binary.littleEndian).PutUint32":    "LEPutUint32",
	"(encoding/binary.littleEndian).AppendUint16": "LEAppendUint16",
	"(encoding/binary.littleEndian).AppendUint32": "LEAppendUint32",
	"bytes Malloc":                                "BytesMalloc",
	"bytes MallocSize":                            "BytesMallocSize",
	"some pairs":                                  "SomePairs", // what a monitor may put in the place of a call
}

type model func(c *Ctx, args []Val, fn *ssa.Function) Val

var models = map[string]model{}

// retHooks post-process the result of a frame pushed by a model.
var retHooks = map[string]func(c *Ctx, v Val) Val{}

// vShim makes a monitor's Call run the named model instead of the function.
type vShim struct{ name string }

// vHandled is returned by a model that advanced its caller itself.
type vHandled struct{}

func unit() Val { return VTuple{} }

// recv is the receiver of a method as an address.
func (c *Ctx) recv(v Val, fn *ssa.Function) Val {
	if y, ok := v.(VSym); ok && fn.Signature.Recv() != nil {
		return c.x.addrOf(c, y, fn.Signature.Recv().Type())
	}
	return v
}

// place returns the object and path a pointer argument designates.
func (c *Ctx) place(v Val) (int, string) {
	a := c.x.addrOf(c, v, nilType)
	k := fmt.Sprint(a.path)
	if a.idx != nil {
		k += "[]"
	}
	return a.obj, k
}

func (c *Ctx) sync(op string, v Val) {
	if a, ok := v.(VAddr); ok {
		c.x.mon.Sync(c, op, a)
	}
}

// tid names the current thread for lock ownership.
func (c *Ctx) tid() string {
	return fmt.Sprint(len(c.s.threads) - 1)
}

func init() {
	lock := func(write, try bool) model {
		return func(c *Ctx, args []Val, fn *ssa.Function) Val {
			obj, k := c.place(args[0])
			st := c.s.heap[obj].gh["mu"+k]
			busy := strings.HasPrefix(st, "W") || (write && st != "")
			if busy {
				if try {
					return vbool(false)
				}
				c.x.yield("lock")
			}
			if try && len(c.s.threads) > 1 && c.x.choose(c.s, 2) == 1 {
				return vbool(false)
			}
			n := c.s.mut(obj)
			if write {
				n.gh["mu"+k] = "W"
			} else {
				n.gh["mu"+k] = st + "R"
				if len(st) > 3 {
					n.gh["mu"+k] = "RRRR"
				}
			}
			t := c.s.cur()
			t.gh["held"] = fmt.Sprint(atoi(t.gh["held"]) + 1)
			op := "lock"
			if !write {
				op = "rlock"
			}
			c.sync(op, args[0])
			if try {
				return vbool(true)
			}
			return unit()
		}
	}
	unlock := func(write bool) model {
		return func(c *Ctx, args []Val, fn *ssa.Function) Val {
			obj, k := c.place(args[0])
			st := c.s.heap[obj].gh["mu"+k]
			op := "unlock"
			if !write {
				op = "runlock"
			}
			if write && st != "W" || !write && !strings.HasPrefix(st, "R") {
				c.fail("lock", "%s of a mutex that is not held in that mode", op)
			}
			c.sync(op, args[0])
			n := c.s.mut(obj)
			if write {
				n.gh["mu"+k] = ""
			} else {
				n.gh["mu"+k] = st[1:]
			}
			t := c.s.cur()
			h := atoi(t.gh["held"]) - 1
			t.gh["held"] = ""
			if h != 0 {
				t.gh["held"] = fmt.Sprint(h)
			}
			c.s.wake()
			return unit()
		}
	}
	models["(*sync.Mutex).Lock"] = lock(true, false)
	models["(*sync.Mutex).TryLock"] = lock(true, true)
	models["(*sync.Mutex).Unlock"] = unlock(true)
	models["(*sync.RWMutex).Lock"] = lock(true, false)
	models["(*sync.RWMutex).TryLock"] = lock(true, true)
	models["(*sync.RWMutex).Unlock"] = unlock(true)
	models["(*sync.RWMutex).RLock"] = lock(false, false)
	models["(*sync.RWMutex).TryRLock"] = lock(false, true)
	models["(*sync.RWMutex).RUnlock"] = unlock(false)

	// WaitGroup: the counter is a ghost linear expression.
	wgAdd := func(c *Ctx, p Val, d Lin) {
		obj, k := c.place(p)
		o := c.s.heap[obj]
		cur := lc(0)
		if v, ok := o.gv["wg"+k]; ok {
			cur = v.(VInt).E
		}
		if c.s.num.entails(d.addc(-1)) && !c.s.num.entails(cur.addc(-1)) {
			// the counter may be zero: the waiter has to be the one that adds
			n := c.s.mut(obj)
			if key := c.threadKey(); n.gh["wgadd"+k] == "" {
				n.gh["wgadd"+k] = key
			} else if n.gh["wgadd"+k] != key {
				n.gh["wgadd"+k] = "several"
			}
		}
		nv := cur.add(d)
		if !c.x.decide(c.s, nv) {
			c.x.throw(panicInfo{val: c.s.newSym(types.Universe.Lookup("error").Type(), "rterr"), why: "negative WaitGroup counter"})
		}
		n := c.s.mut(obj)
		n.gv["wg"+k] = VInt{nv}
		c.s.wake()
	}
	models["(*sync.WaitGroup).Add"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		wgAdd(c, args[0], args[1].(VInt).E)
		return unit()
	}
	models["(*sync.WaitGroup).Done"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		wgAdd(c, args[0], lc(-1))
		c.wgDone(args[0])
		return unit()
	}
	models["(*sync.WaitGroup).Wait"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		obj, k := c.place(args[0])
		o := c.s.heap[obj]
		if a := o.gh["wgadd"+k]; a != "" && a != c.threadKey() && !strings.HasPrefix(c.threadKey()[strings.Index(c.threadKey(), "@")+1:]+">", a[strings.Index(a, "@")+1:]+">") {
			c.flag("join", "the WaitGroup is incremented by a goroutine that may not have run when Wait is called")
		}
		if v, ok := o.gv["wg"+k]; ok {
			if !c.x.decideEq(c.s, v.(VInt).E) {
				c.x.yield("waitgroup")
			}
		}
		c.wgWait(args[0])
		return unit()
	}

	// goroutine pools
	models["(*github.com/panjf2000/ants/v2.Pool).Submit"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		// the pools of this library are unbounded and never released (checked
		// from the arguments of NewPool)
		var f *Frame
		f = c.s.top()
		if in, ok := c.in.(*ssa.Call); ok {
			f.regs[f.info.num[in]] = VNil{}
			f.pc++
			c.x.spawn(c, "pool", args[1], &ssa.CallCommon{Value: in.Call.Args[1]}, nil)
			return vHandled{}
		}
		c.fail("undecided", "pool submission outside of a plain call")
		return nil
	}
	models["github.com/panjf2000/ants/v2.NewPool"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := args[0].(VInt).E
		if !c.s.num.entails(n.neg().addc(-1)) {
			c.flag("pool", "the goroutine pool is bounded: tasks that wait for each other can block it")
		}
		if y, ok := args[1].(VSlice); ok && !c.s.num.entailsEq(y.len) {
			c.flag("pool", "the goroutine pool is configured with options that are not analysed")
		}
		y := c.s.newSym(fn.Signature.Results().At(0).Type(), "antspool")
		c.s.mutSym(y.id).nn = true
		return VTuple{[]Val{y, VNil{}}}
	}

	// contexts
	models["context.Background"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		y := c.s.newSym(fn.Signature.Results().At(0).Type(), "ctx:background")
		c.s.mutSym(y.id).nn = true
		return y
	}
	models["context.TODO"] = models["context.Background"]
	derive := func(kind string, hasArg bool) model {
		return func(c *Ctx, args []Val, fn *ssa.Function) Val {
			var org []Val
			org = append(org, args...)
			y := c.s.newSym(fn.Signature.Results().At(0).Type(), "ctx:"+kind, org...)
			f := c.s.newSym(fn.Signature.Results().At(1).Type(), "cancel", y)
			c.s.mutSym(y.id).nn = true
			c.s.mutSym(f.id).nn = true
			c.x.mon.Ext(c, "context."+kind, append([]Val{y, f}, args...)...)
			return VTuple{[]Val{y, f}}
		}
	}
	models["context.WithTimeout"] = derive("WithTimeout", true)
	models["context.WithDeadline"] = derive("WithDeadline", true)
	models["context.WithCancel"] = derive("WithCancel", false)

	// atomics on plain words
	for _, T := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		T := T
		models["sync/atomic.Load"+T] = func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.atomic("load", T, args) }
		models["sync/atomic.Store"+T] = func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.atomic("store", T, args) }
		models["sync/atomic.Swap"+T] = func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.atomic("swap", T, args) }
		models["sync/atomic.Add"+T] = func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.atomic("add", T, args) }
		models["sync/atomic.CompareAndSwap"+T] = func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.atomic("cas", T, args) }
	}
	// typed atomics and atomic.Value keep their content in a ghost of the object
	for _, T := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Value"} {
		for op, m := range map[string]string{"load": "Load", "store": "Store", "swap": "Swap", "add": "Add", "cas": "CompareAndSwap"} {
			op, T := op, T
			models["(*sync/atomic."+T+")."+m] = func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.atomicBox(op, T, args) }
		}
	}

	// runtime, time
	for _, n := range []string{"runtime.Gosched", "time.Sleep", "runtime.GC", "runtime.KeepAlive"} {
		n := n
		models[n] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			c.x.mon.Ext(c, n, args...)
			return unit()
		}
	}

	// utf8
	models["unicode/utf8.RuneCountInString"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return VInt{c.x.strRunes(c, args[0])}
	}
	models["unicode/utf8.RuneCount"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := c.s.nonneg()
		if sl, ok := c.slice(args[0], fn.Signature.Params().At(0).Type()); ok {
			c.s.assume(sl.len.sub(n))
			c.s.assume(n.mul(4).sub(sl.len))
		}
		return VInt{n}
	}
	decode := func(str bool) model {
		return func(c *Ctx, args []Val, fn *ssa.Function) Val {
			var l Lin
			if str {
				l = c.x.strLen(c, args[0])
			} else if sl, ok := c.slice(args[0], fn.Signature.Params().At(0).Type()); ok {
				l = sl.len
			} else {
				l = lc(0)
			}
			r := c.s.nonneg()
			c.s.assume(r.neg().addc(0x10FFFF))
			n := c.s.nonneg()
			c.s.assume(n.neg().addc(4))
			if c.x.decide(c.s, l.addc(-1)) {
				c.s.assume(n.addc(-1))
				c.s.assume(l.sub(n))
				// a width above one belongs to a valid encoding
				if c.x.decide(c.s, r.addc(-0x10000)) {
					c.s.assumeEq(n.addc(-4))
				} else if c.x.decide(c.s, r.addc(-0x800)) {
					if c.x.choose(c.s, 2) == 0 {
						c.s.assumeEq(n.addc(-3))
					} else {
						c.s.assumeEq(n.addc(-1))
						c.s.assumeEq(r.addc(-0xFFFD))
					}
				} else if c.x.decide(c.s, r.addc(-0x80)) {
					c.s.assumeEq(n.addc(-2))
				} else {
					c.s.assumeEq(n.addc(-1))
				}
			} else {
				c.s.assumeEq(n)
				c.s.assumeEq(r.addc(-0xFFFD))
			}
			if c.s.num.bot {
				c.x.stop()
			}
			return VTuple{[]Val{VInt{r}, VInt{n}}}
		}
	}
	models["unicode/utf8.DecodeRune"] = decode(false)
	models["unicode/utf8.DecodeLastRune"] = decode(false)
	models["unicode/utf8.DecodeRuneInString"] = decode(true)
	models["unicode/utf8.DecodeLastRuneInString"] = decode(true)
	runeLen := func(c *Ctx, r Lin) Lin {
		n := c.s.newDim()
		switch {
		case !c.x.decide(c.s, r):
			c.s.assumeEq(n.addc(-3))
		case !c.x.decide(c.s, r.addc(-0x80)):
			c.s.assumeEq(n.addc(-1))
		case !c.x.decide(c.s, r.addc(-0x800)):
			c.s.assumeEq(n.addc(-2))
		case !c.x.decide(c.s, r.addc(-0x10000)):
			c.s.assumeEq(n.addc(-3))
		case !c.x.decide(c.s, r.addc(-0x110000)):
			c.s.assumeEq(n.addc(-4))
		default:
			c.s.assumeEq(n.addc(-3))
		}
		return n
	}
	models["unicode/utf8.EncodeRune"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := runeLen(c, args[1].(VInt).E)
		sl, ok := c.slice(args[0], fn.Signature.Params().At(0).Type())
		l := lc(0)
		if ok {
			l = sl.len
		}
		c.need(l.sub(n), "utf8.EncodeRune into a slice that may be too short")
		if ok {
			c.x.mon.WriteRange(c, sl.obj, sl.off, n)
			m := c.s.mut(sl.obj)
			m.zero = false
		}
		return VInt{n}
	}
	models["unicode/utf8.RuneLen"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := c.s.newDim()
		c.s.assume(n.addc(1))
		c.s.assume(n.neg().addc(4))
		return VInt{n}
	}

	// strings.Builder and bytes.Buffer: length and capacity ghosts
	bufModel := func(T string) {
		models["(*"+T+").Grow"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			c.need(args[1].(VInt).E, "Grow with a count that may be negative")
			c.bld(args[0], "grow", nil, lc(0))
			return unit()
		}
		models["(*"+T+").WriteString"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			n := c.x.strLen(c, args[1])
			c.bld(args[0], "str", args[1], n)
			return VTuple{[]Val{VInt{n}, VNil{}}}
		}
		models["(*"+T+").Write"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			n := lc(0)
			var v Val = VNil{}
			if sl, ok := c.slice(args[1], fn.Signature.Params().At(0).Type()); ok {
				n, v = sl.len, sl
			}
			c.bld(args[0], "bytes", v, n)
			return VTuple{[]Val{VInt{n}, VNil{}}}
		}
		models["(*"+T+").WriteByte"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			c.bld(args[0], "byte", args[1], lc(1))
			return VNil{}
		}
		models["(*"+T+").WriteRune"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			n := c.s.newDim()
			c.s.assume(n.addc(-1))
			c.s.assume(n.neg().addc(4))
			c.bld(args[0], "rune", args[1], n)
			return VTuple{[]Val{VInt{n}, VNil{}}}
		}
		models["(*"+T+").Reset"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			c.bld(args[0], "reset", nil, lc(0))
			return unit()
		}
		models["(*"+T+").Len"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			return VInt{c.bldLen(args[0])}
		}
		models["(*"+T+").Cap"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			n := c.s.newDim()
			c.s.assume(n.sub(c.bldLen(args[0])))
			return VInt{n}
		}
		models["(*"+T+").String"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			args[0] = c.recv(args[0], fn)
			return c.bldString(args[0])
		}
	}
	bufModel("strings.Builder")
	bufModel("bytes.Buffer")

	for _, n := range []string{"Itoa", "FormatInt", "FormatUint"} {
		models["strconv."+n] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			e := c.s.num.norm(args[0].(VInt).E)
			base := c.s.num.norm(lc(10))
			if len(args) == 2 {
				base = c.s.num.norm(args[1].(VInt).E)
			}
			if e.isConst() && base.isConst() && 2 <= base.c && base.c <= 36 {
				return vstr(strconv.FormatInt(e.c, int(base.c)))
			}
			return c.x.results(c, fn.Signature, "ext:"+fn.String(), args...)
		}
	}

	// strings
	models["strings.Repeat"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := args[1].(VInt).E
		c.need(n, "strings.Repeat with a count that may be negative")
		r := c.x.freshStr(c, "repeat", args[0])
		l := c.s.num.norm(c.x.strLen(c, args[0]))
		if l.isConst() {
			c.s.assumeEq(c.x.strLen(c, r).sub(n.mul(l.c)))
		}
		return r
	}
	models["strings.HasPrefix"] = cmpPred("prefix")
	models["strings.HasSuffix"] = cmpPred("suffix")
	models["strings.Contains"] = cmpPred("contains")
	models["strings.EqualFold"] = cmpPred("equalfold")
	index := func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := c.s.newDim()
		c.s.assume(n.addc(1))
		l := c.x.strLen(c, args[0])
		c.s.assume(l.sub(n))
		return VInt{n}
	}
	for _, n := range []string{"Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "LastIndexAny"} {
		models["strings."+n] = index
	}
	models["strings.ToLower"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return c.x.freshStr(c, "lower", args[0])
	}
	models["strings.ToUpper"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return c.x.freshStr(c, "upper", args[0])
	}
	trim := func(c *Ctx, args []Val, fn *ssa.Function) Val {
		r := c.x.freshStr(c, "trim", args[0])
		c.s.assume(c.x.strLen(c, args[0]).sub(c.x.strLen(c, r)))
		return r
	}
	for _, n := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix"} {
		models["strings."+n] = trim
	}
	// unicode classes are uninterpreted predicates of the rune
	for _, n := range []string{"IsLetter", "IsDigit", "IsSpace", "IsNumber", "IsUpper", "IsLower", "IsPunct", "IsControl", "IsTitle", "IsSymbol", "IsMark", "IsGraphic", "IsPrint"} {
		n := n
		models["unicode."+n] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			return c.runeClass(n, args[0])
		}
	}
	runeMap := func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := c.s.nonneg()
		c.s.assume(n.neg().addc(0x10FFFF))
		return VInt{n}
	}
	models["unicode.ToUpper"] = runeMap
	models["unicode.ToLower"] = runeMap
	models["unicode.ToTitle"] = runeMap
	models["math/rand.Intn"] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
		n := args[0].(VInt).E
		c.need(n.addc(-1), "rand.Intn with a bound that may be below one")
		r := c.s.nonneg()
		c.s.assume(n.sub(r).addc(-1))
		return VInt{r}
	}
	models["math/rand.Int31n"] = models["math/rand.Intn"]
	models["math/rand.Int63n"] = models["math/rand.Intn"]

	for _, w := range []string{"", "8", "16", "32", "64"} {
		width := int64(64)
		if w != "" {
			width = int64(atoi(w))
		}
		bitLen := func(c *Ctx, v Val) Lin {
			r := c.s.nonneg()
			c.s.assume(r.neg().addc(width))
			if lo, hi, ok := c.s.bounds(v.(VInt).E, bitsMax); ok {
				a, b := int64(bits.Len64(uint64(lo))), int64(bits.Len64(uint64(hi)))
				if a == b {
					return lc(a)
				}
				c.s.assume(r.addc(-a))
				c.s.assume(r.neg().addc(b))
			}
			return r
		}
		models["math/bits.Len"+w] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			return VInt{bitLen(c, args[0])}
		}
		models["math/bits.LeadingZeros"+w] = func(c *Ctx, args []Val, fn *ssa.Function) Val {
			return VInt{bitLen(c, args[0]).neg().addc(width)}
		}
	}
	// vf intrinsics
	vfm := func(name string, m model) { models[vfPath+"."+name] = m }
	vfm("Choose", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return vbool(c.x.choose(c.s, 2) == 0)
	})
	vfm("Index", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		i := c.s.nonneg()
		c.x.must(c.s, args[0].(VInt).E.sub(i).addc(-1))
		return VInt{i}
	})
	vfm("AnyInt", func(c *Ctx, args []Val, fn *ssa.Function) Val { return VInt{c.s.newDim()} })
	vfm("Any", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return c.s.newSym(fn.Signature.Results().At(0).Type(), "any")
	})
	vfm("Given", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return vint(int64(c.x.given[args[0].(VInt).E.c]))
	})
	vfm("AnyErr", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		return c.s.newSym(fn.Signature.Results().At(0).Type(), "anyerr")
	})
	for _, n := range []string{"AnyByte", "AnyRune", "AnyBytes"} {
		n := n
		vfm(n, func(c *Ctx, args []Val, fn *ssa.Function) Val {
			return c.x.fresh(c, fn.Signature.Results().At(0).Type(), n)
		})
	}
	vfm("AnyStr", func(c *Ctx, args []Val, fn *ssa.Function) Val { return c.x.freshStr(c, "any") })
	vfm("Assume", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		if !c.x.cond(c, args[0]) {
			c.s.node.exit = true // not an execution of interest
			c.x.stop()
		}
		return unit()
	})
	vfm("Assert", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		msg, _ := asStr(args[1])
		if !c.x.cond(c, args[0]) {
			c.fail("assert", "%s", msg)
		}
		c.ok("assert")
		return unit()
	})
	vfm("Shuffle", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		v := args[0]
		if i, ok := v.(VIface); ok {
			v = i.v
		}
		sl, ok := v.(VSlice)
		if !ok {
			return unit()
		}
		c.x.mon.WriteRange(c, sl.obj, sl.off, sl.len)
		c.x.mon.CopyInto(c, sl.obj, sl.obj, c.s.newDim())
		// an arbitrary permutation: every tracked element moves anywhere in range
		n := c.s.mut(sl.obj)
		var moved []Lin
		for i := range n.elems {
			in := c.s.num.entails(n.elems[i].idx.sub(sl.off)) && c.s.num.entails(sl.off.add(sl.len).sub(n.elems[i].idx).addc(-1))
			if !in {
				continue
			}
			d := c.s.newDim()
			c.s.assume(d.sub(sl.off))
			c.s.assume(sl.off.add(sl.len).sub(d).addc(-1))
			n.elems[i].idx = d
			moved = append(moved, d)
		}
		for i := range moved {
			for _, d := range moved[:i] {
				if c.x.choose(c.s, 2) == 0 {
					c.x.must(c.s, moved[i].sub(d).addc(-1))
				} else {
					c.x.must(c.s, d.sub(moved[i]).addc(-1))
				}
			}
		}
		return unit()
	})
	vfm("SortPos", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		if v := c.x.mon.Intrinsic(c, "SortPos", args); v != nil {
			return v
		}
		return vint(-1)
	})
	for _, n := range []string{"Out", "Mark", "poolTake", "poolNew", "poolGive"} {
		n := n
		vfm(n, func(c *Ctx, args []Val, fn *ssa.Function) Val {
			if v := c.x.mon.Intrinsic(c, n, args); v != nil {
				return v
			}
			switch n {
			case "poolTake":
				return c.poolTake(args[0])
			case "poolNew":
				return c.poolNew(args[0])
			}
			return unit()
		})
	}
	vfm("sfEnter", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		obj, k := c.place(args[0])
		k = "sf" + k + valKey(args[1])
		if v, ok := c.s.heap[obj].gv[k]; ok {
			return v
		}
		c.s.mut(obj).gv[k] = args[2]
		return VNil{}
	})
	vfm("sfLeave", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		obj, k := c.place(args[0])
		delete(c.s.mut(obj).gv, "sf"+k+valKey(args[1]))
		return unit()
	})
	vfm("attached", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		obj, k := c.place(unbox(args[0]))
		if v, ok := c.s.heap[obj].gv["at"+k]; ok {
			return v
		}
		return VNil{}
	})
	vfm("attach", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		obj, k := c.place(unbox(args[0]))
		c.s.mut(obj).gv["at"+k] = args[1]
		return unit()
	})
	vfm("onceFirst", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		obj, k := c.place(args[0])
		if c.s.heap[obj].gh["once"+k] != "" {
			return vbool(false)
		}
		c.s.mut(obj).gh["once"+k] = "1"
		return vbool(true)
	})
	vfm("Len", func(c *Ctx, args []Val, fn *ssa.Function) Val {
		v := args[0]
		if i, ok := v.(VIface); ok {
			v = i.v
			if y, ok := v.(VSym); ok {
				v = c.x.materialize(c, y, i.T)
			}
		}
		if sl, ok := v.(VSlice); ok {
			return VInt{sl.len}
		}
		return vint(0)
	})
}

func atoi(s string) int {
	n := 0
	neg := false
	for _, r := range s {
		if r == '-' {
			neg = true
			continue
		}
		n = n*10 + int(r-'0')
	}
	if neg {
		return -n
	}
	return n
}

// slice views a value as a slice, materialising unknown ones.
func (c *Ctx) slice(v Val, T types.Type) (VSlice, bool) {
	if y, ok := v.(VSym); ok {
		v = c.x.materialize(c, y, T)
	}
	sl, ok := v.(VSlice)
	return sl, ok
}

func (c *Ctx) threadKey() string {
	t := c.s.cur()
	return t.kind + "@" + t.site
}

func (c *Ctx) tidOf() string { return c.s.cur().gh["id"] }

// cmpPred is an uninterpreted binary predicate on strings: the result is
// forked and remembered for identical arguments.
func cmpPred(name string) model {
	return func(c *Ctx, args []Val, fn *ssa.Function) Val {
		a, oka := asStr(args[0])
		b, okb := asStr(args[1])
		if oka && okb {
			switch name {
			case "prefix":
				return vbool(strings.HasPrefix(a, b))
			case "suffix":
				return vbool(strings.HasSuffix(a, b))
			case "contains":
				return vbool(strings.Contains(a, b))
			}
		}
		return c.memoPred(name, args[0], args[1])
	}
}

// memoPred forks on an uninterpreted predicate and remembers the answer.
func (c *Ctx) memoPred(name string, args ...Val) Val {
	k := "pred:" + name
	for _, a := range args {
		k += ":" + valKey(a)
	}
	for _, a := range args {
		if y, ok := a.(VSym); ok {
			// facts live on the first symbolic argument, keyed by the other ones
			key := "pred:" + name
			var others []Val
			for _, b := range args {
				if z, ok := b.(VSym); !ok || z.id != y.id {
					others = append(others, b)
				}
			}
			si := c.s.syms[y.id]
			if len(others) == 0 {
				if f, ok := si.facts[key]; ok {
					return vbool(f)
				}
				b := c.x.choose(c.s, 2) == 0
				c.s.mutSym(y.id).facts[key] = b
				return vbool(b)
			}
			break
		}
	}
	// binary facts are kept in the global ghosts
	gk := "P:" + name
	i := 0
	for ; ; i++ {
		kk := fmt.Sprintf("%s#%d", gk, i)
		v, ok := c.s.gv[kk]
		if !ok {
			break
		}
		st := v.(VStruct)
		same := true
		for j, a := range args {
			if valKey(st.f[j]) != valKey(a) {
				same = false
			}
		}
		if same {
			return st.f[len(args)]
		}
	}
	b := c.x.choose(c.s, 2) == 0
	if c.s.gh["rempred"] != "" {
		c.s.gv[fmt.Sprintf("%s#%d", gk, i)] = VStruct{append(append([]Val(nil), args...), vbool(b))}
	}
	return vbool(b)
}

// runeClass is the uninterpreted class predicate of a rune.
func (c *Ctx) runeClass(name string, r Val) Val {
	if v := c.x.mon.Intrinsic(c, "class:"+name, []Val{r}); v != nil {
		return v
	}
	return vbool(c.x.choose(c.s, 2) == 0)
}

// bld updates the ghost length of a builder.
func (c *Ctx) bld(p Val, op string, v Val, n Lin) {
	obj, k := c.place(p)
	cur := c.bldLen(p)
	m := c.s.mut(obj)
	if op == "reset" {
		m.gv["len"+k] = vint(0)
	} else {
		m.gv["len"+k] = VInt{cur.add(n)}
	}
	c.x.mon.Ext(c, "builder."+op, p, v, VInt{n})
}

// Concatter is implemented by monitors that follow string concatenations.
type Concatter interface {
	Concat(c *Ctx, v Val) Val
}

func (c *Ctx) bldLen(p Val) Lin {
	obj, k := c.place(p)
	if v, ok := c.s.heap[obj].gv["len"+k]; ok {
		return v.(VInt).E
	}
	return lc(0)
}

func (c *Ctx) bldString(p Val) Val {
	if v := c.x.mon.Intrinsic(c, "builder.String", []Val{p}); v != nil {
		return v
	}
	r := c.x.freshStr(c, "built")
	c.s.assumeEq(c.x.strLen(c, r).sub(c.bldLen(p)))
	return r
}

// wgDone records what the current thread did before the Done.
func (c *Ctx) wgDone(p Val) {
	obj, k := c.place(p)
	t := c.s.cur()
	for _, g := range sortedKeys(t.gv) {
		if !strings.HasPrefix(g, "sent") {
			continue
		}
		ch := t.gv[g].(VRef).obj
		n := c.s.mut(ch)
		n.gh["unj"] = "wg"
		n.gv["unjwg"] = VAddr{obj: obj}
		n.gh["unjk"] = k
		delete(t.gv, g)
	}
	t.gh["done"] = "1"
	c.x.mon.Sync(c, "done", VAddr{obj: obj})
}

func (c *Ctx) wgWait(p Val) {
	obj, k := c.place(p)
	for id, o := range c.s.heap {
		if o.kind == oChan && o.gh["unj"] == "wg" {
			if a, ok := o.gv["unjwg"].(VAddr); ok && a.obj == obj && o.gh["unjk"] == k {
				n := c.s.mut(id)
				n.gh["unj"], n.gh["unjk"] = "", ""
				delete(n.gv, "unjwg")
			}
		}
	}
	c.x.mon.Sync(c, "wait", VAddr{obj: obj})
}

// atomic is a sequentially consistent operation on a plain word.
func (c *Ctx) atomic(op, T string, args []Val) Val {
	a := c.x.addrOf(c, args[0], nilType)
	if v := c.x.mon.Intrinsic(c, "atomic."+op, append([]Val{a}, args[1:]...)); v != nil {
		return v
	}
	get := func() Val { return c.x.loadRaw(c, a, c.s) }
	switch op {
	case "load":
		return get()
	case "store":
		c.x.storeRaw(c, a, args[1])
		return unit()
	case "swap":
		v := get()
		c.x.storeRaw(c, a, args[1])
		return v
	case "add":
		v := VInt{get().(VInt).E.add(args[1].(VInt).E)}
		c.x.storeRaw(c, a, v)
		return v
	case "cas":
		if c.x.equal(c, get(), args[1], nil) {
			c.x.storeRaw(c, a, args[2])
			return vbool(true)
		}
		return vbool(false)
	}
	panic(op)
}

// atomicBox is an operation on a typed atomic.
func (c *Ctx) atomicBox(op, T string, args []Val) Val {
	a := c.x.addrOf(c, args[0], nilType)
	if v := c.x.mon.Intrinsic(c, "atomicbox."+op, append([]Val{a}, args[1:]...)); v != nil {
		return v
	}
	k := "at" + fmt.Sprint(a.path)
	if a.idx != nil {
		c.fail("undecided", "atomic inside an array")
	}
	get := func() Val {
		if v, ok := c.s.heap[a.obj].gv[k]; ok {
			return v
		}
		switch T {
		case "Bool":
			return vbool(false)
		case "Value":
			return VNil{}
		}
		return vint(0)
	}
	put := func(v Val) {
		if T == "Value" {
			if isNil(v) {
				c.x.rtPanic(c, "atomic.Value: store of nil value")
			}
			old := get()
			fo, ok1 := old.(VIface)
			fv, ok2 := v.(VIface)
			switch {
			case isNil(old):
			case ok1 && ok2 && types.Identical(fo.T, fv.T):
			case ok1 && ok2:
				c.x.rtPanic(c, "atomic.Value: store of inconsistently typed value")
			default:
				if c.x.choose(c.s, 2) == 1 {
					c.x.rtPanic(c, "atomic.Value: store of inconsistently typed value")
				}
			}
			if y, ok := v.(VSym); ok && !c.s.syms[y.id].nn {
				if c.x.equal(c, v, VNil{}, nil) {
					c.x.rtPanic(c, "atomic.Value: store of nil value")
				}
			}
		}
		c.s.mut(a.obj).gv[k] = v
	}
	switch op {
	case "load":
		return get()
	case "store":
		put(args[1])
		return unit()
	case "swap":
		v := get()
		put(args[1])
		return v
	case "add":
		v := VInt{get().(VInt).E.add(args[1].(VInt).E)}
		put(v)
		return v
	case "cas":
		if T == "Value" {
			nv := args[2]
			if isNil(nv) {
				c.x.rtPanic(c, "atomic.Value: compare and swap of nil value into Value")
			}
			if y, ok := nv.(VSym); ok && !c.s.syms[y.id].nn {
				if c.x.equal(c, nv, VNil{}, nil) {
					c.x.rtPanic(c, "atomic.Value: compare and swap of nil value into Value")
				}
			}
			old := get()
			if fo, ok := old.(VIface); ok {
				if fn, ok := nv.(VIface); ok && !types.Identical(fo.T, fn.T) {
					c.x.rtPanic(c, "atomic.Value: compare and swap of inconsistently typed values")
				}
			}
			if _, ok := old.(VSym); ok {
				if c.x.choose(c.s, 2) == 1 {
					c.x.rtPanic(c, "atomic.Value: compare and swap of inconsistently typed values")
				}
			}
			if fo, ok := args[1].(VIface); ok {
				if fn, ok := nv.(VIface); ok && !types.Identical(fo.T, fn.T) {
					c.x.rtPanic(c, "atomic.Value: compare and swap of inconsistently typed old and new values")
				}
			}
		}
		if c.x.equal(c, get(), args[1], nil) {
			put(args[2])
			return vbool(true)
		}
		return vbool(false)
	}
	panic(op)
}

// purePkgs are packages whose functions neither keep nor change their arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true,
	"fmt": true, "time": true, "runtime": true, "runtime/debug": true, "regexp": true, "bytes": true, "hash/fnv": true, "math/rand": true,
}

// external models a call of a function outside the repository.
func (x *Exec) external(c *Ctx, fn *ssa.Function, args []Val) Val {
	if v, done := x.mon.External(c, fn, args); done {
		return v
	}
	if purePkgs[pkgOf(fn)] {
		r := x.results(c, fn.Signature, "ext:"+fn.String(), args...)
		switch fn.String() {
		case "errors.New", "fmt.Errorf":
			y := r.(VSym)
			c.s.mutSym(y.id).nn = true
		}
		return r
	}
	c.flag("undecided", "call of %s is not modelled", fn)
	return x.results(c, fn.Signature, "ext:"+fn.String(), args...)
}

// invoke models a method call on an unknown interface value.
func (x *Exec) invoke(c *Ctx, m VMeth, args []Val) Val {
	if v, done := x.mon.Invoke(c, m, args); done {
		return v
	}
	sig := m.m.Type().(*types.Signature)
	switch m.m.FullName() {
	case "(context.Context).Done":
		return c.ctxDone(m.recv)
	case "(context.Context).Err":
		return c.ctxErr(m.recv)
	case "(error).Error":
		return x.freshStr(c, "errtext", m.recv)
	}
	return x.results(c, sig, "inv:"+m.m.Name(), append([]Val{m.recv}, args...)...)
}

// ctxDone returns the done channel of a context: an external channel that is
// only ever closed.
func (c *Ctx) ctxDone(recv Val) Val {
	y, ok := recv.(VSym)
	if !ok {
		c.fail("undecided", "context of unknown shape")
	}
	k := "ctxdone:" + valKey(y)
	for _, g := range sortedKeys(c.s.gv) {
		if strings.HasPrefix(g, "ctxof:") {
			if z, ok := c.s.gv[g].(VSym); ok && z.id == y.id {
				return c.s.gv["ctxch:"+g[6:]]
			}
		}
	}
	_ = k
	n := 0
	for c.s.gv[fmt.Sprintf("ctxof:%d", n)] != nil {
		n++
	}
	T := types.NewChan(types.RecvOnly, types.NewStruct(nil, nil))
	ch := VRef{c.s.newObj(&Obj{kind: oChan, T: T, site: "ctx.Done", ext: true, gh: map[string]string{"ctx": "1"}})}
	c.s.gv[fmt.Sprintf("ctxof:%d", n)] = y
	c.s.gv[fmt.Sprintf("ctxch:%d", n)] = ch
	return ch
}

// ctxErr is nil until the context is known to have ended.
func (c *Ctx) ctxErr(recv Val) Val {
	ch := c.ctxDone(recv).(VRef)
	o := c.s.heap[ch.obj]
	if v, ok := o.gv["err"]; ok {
		return v
	}
	if o.gh["closed"] != "1" && c.x.choose(c.s, 2) == 1 {
		return VNil{}
	}
	y := c.s.newSym(types.Universe.Lookup("error").Type(), "ctxerr", recv)
	c.s.mutSym(y.id).nn = true
	n := c.s.mut(ch.obj)
	n.gh["closed"] = "1"
	n.gv["err"] = y
	return y
}

// poolTake is sync.Pool.Get without New: an arbitrary object the pool may hold.
func (c *Ctx) poolTake(p Val) Val {
	if c.x.choose(c.s, 2) == 1 {
		return VNil{}
	}
	y := c.s.newSym(types.NewInterfaceType(nil, nil), "pooled", p)
	c.s.mutSym(y.id).nn = true
	return y
}

// poolNew is the New field of a sync.Pool.
func (c *Ctx) poolNew(p Val) Val {
	a := c.x.addrOf(c, p, nilType)
	T := c.s.heap[a.obj].T
	for _, i := range a.path {
		T = T.Underlying().(*types.Struct).Field(i).Type()
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		c.fail("undecided", "sync.Pool of unknown shape")
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			a.path = append(append([]int(nil), a.path...), i)
			return c.x.loadRaw(c, a, c.s)
		}
	}
	c.fail("undecided", "sync.Pool without New")
	return nil
}
