package main

import (
	"golang.org/x/tools/go/ssa"
)

// fnInfo caches per-function facts: register numbering, liveness, join points.
type fnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	vals    []ssa.Value
	liveOut []map[int]bool
	cache   map[[2]int][]bool
	memo    []bool // block is a memoisation point
	header  []bool // block is a loop header
	recIn   map[int]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, cache: map[[2]int][]bool{}}
	fnInfos[fn] = fi
	add := func(v ssa.Value) {
		fi.num[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	n := len(fn.Blocks)
	liveIn := make([]map[int]bool, n)
	fi.liveOut = make([]map[int]bool, n)
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
		fi.liveOut[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := map[int]bool{}
			for _, s := range b.Succs {
				for r := range liveIn[s.Index] {
					out[r] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if r, ok := fi.num[phi.Edges[pi]]; ok {
								out[r] = true
							}
						}
					}
				}
			}
			in := map[int]bool{}
			for r := range out {
				in[r] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				fi.xfer(b.Instrs[i], in)
			}
			if len(out) != len(fi.liveOut[bi]) || len(in) != len(liveIn[bi]) {
				changed = true
			}
			fi.liveOut[bi], liveIn[bi] = out, in
		}
	}
	if fn.Recover != nil {
		fi.recIn = liveIn[fn.Recover.Index]
	}
	// loop headers: targets of DFS back edges; memo points: joins and headers
	fi.memo = make([]bool, n)
	fi.header = make([]bool, n)
	color := make([]int, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b.Index] = 1
		for _, s := range b.Succs {
			if color[s.Index] == 1 {
				fi.header[s.Index] = true
			} else if color[s.Index] == 0 {
				dfs(s)
			}
		}
		color[b.Index] = 2
	}
	if n > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range fn.Blocks {
		fi.memo[i] = fi.header[i] || len(b.Preds) > 1
	}
	return fi
}

func (fi *fnInfo) xfer(in ssa.Instruction, live map[int]bool) {
	if v, ok := in.(ssa.Value); ok {
		delete(live, fi.num[v])
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	var ops [16]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if r, ok := fi.num[*o]; ok {
			live[r] = true
		}
	}
}

// liveAt tells which registers of f may still be read. For frames below the
// top the instruction at pc is a call in progress whose operands are dead.
func (fi *fnInfo) liveAt(f *Frame, topmost bool) []bool {
	pc := f.pc
	if !topmost {
		pc++
	}
	k := [2]int{f.block, pc}
	if l, ok := fi.cache[k]; ok {
		return l
	}
	b := fi.fn.Blocks[f.block]
	live := map[int]bool{}
	for r := range fi.liveOut[f.block] {
		live[r] = true
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		fi.xfer(b.Instrs[i], live)
	}
	for r := range fi.recIn {
		live[r] = true
	}
	l := make([]bool, len(fi.vals))
	for r := range live {
		l[r] = true
	}
	fi.cache[k] = l
	return l
}
