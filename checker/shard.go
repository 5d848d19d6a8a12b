package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sync"
)

type shardOut struct {
	Viol    map[string]*Violation
	Obl     map[string]int
	Entries int
	Names   []string
	Fns     []string
	Steps   int
	States  int
	Ends    int
}

// parallel runs n independent explorations on all processors: the check starts
// itself once per processor, each copy runs its share and hands back what it
// found.
func (r *Run) parallel(n int, f func(i int)) {
	if r.shards > 0 {
		for i := 0; i < n; i++ {
			// whoever creates the file explores the share
			c, err := os.OpenFile(filepath.Join(os.Getenv("VERIF_CLAIMS"), fmt.Sprint(i)), os.O_CREATE|os.O_EXCL, 0600)
			if err != nil {
				if os.IsExist(err) {
					continue
				}
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			c.Close()
			f(i)
			if r.alarms() {
				break // the verdict is known
			}
		}
		st := &r.w.stats
		o := shardOut{r.w.viol, r.w.obl, st.entries, st.entryNames, sortedKeys(st.fnNames), st.steps, st.states, st.ends}
		b, err := json.Marshal(o)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Stdout.Write(b)
		pprof.StopCPUProfile()
		os.Exit(0)
	}
	k := runtime.NumCPU()
	if k > n {
		k = n
	}
	claims, err := os.MkdirTemp("", "claims")
	if err != nil {
		r.fail("undecided", "analysis", "", "%v", err)
		return
	}
	defer os.RemoveAll(claims)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stopped := false
	cmds := make([]*exec.Cmd, k)
	out := make([]shardOut, k)
	errs := make([]string, k)
	for i := 0; i < k; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-repo", r.repo, "-verif", r.verif, "-prop", r.prop, "-tier", r.tier, "-shard", fmt.Sprintf("%d/%d", i, k))
			cmd.Env = append(os.Environ(), "VERIF_CLAIMS="+claims)
			var so bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, os.Stderr
			mu.Lock()
			skip := stopped
			err := error(nil)
			if !skip {
				cmds[i] = cmd
				err = cmd.Start()
			}
			mu.Unlock()
			if skip {
				return
			}
			if err == nil {
				err = cmd.Wait()
			}
			mu.Lock()
			defer mu.Unlock()
			cmds[i] = nil
			if stopped {
				return
			}
			if err != nil {
				errs[i] = err.Error()
			} else if err := json.Unmarshal(so.Bytes(), &out[i]); err != nil {
				errs[i] = err.Error()
			}
			for _, v := range out[i].Viol {
				if !r.isKnown(v) {
					stopped = true
				}
			}
			if stopped {
				for _, c := range cmds {
					if c != nil {
						c.Process.Kill()
					}
				}
			}
		}()
	}
	wg.Wait()
	r.cut = stopped
	// every share was explored
	if done, _ := os.ReadDir(claims); len(done) != n && !stopped {
		r.fail("undecided", "analysis", "", "only %d of %d parts were analysed", len(done), n)
	}
	st := &r.w.stats
	for i := 0; i < k; i++ {
		if errs[i] != "" {
			r.fail("undecided", "analysis", "", "a part of the analysis did not finish: %s", errs[i])
		}
		o := out[i]
		for _, key := range sortedKeys(o.Viol) {
			if r.w.viol[key] == nil {
				r.w.viol[key] = o.Viol[key]
			}
		}
		for key, c := range o.Obl {
			r.w.obl[key] += c
		}
		st.entries += o.Entries
		st.entryNames = append(st.entryNames, o.Names...)
		st.steps += o.Steps
		st.states += o.States
		st.ends += o.Ends
		for _, fn := range o.Fns {
			st.fnNames[fn] = true
		}
	}
}

// alarms: some violation found so far is not a known finding.
func (r *Run) alarms() bool {
	for _, v := range r.w.viol {
		if !r.isKnown(v) {
			return true
		}
	}
	return false
}

func (r *Run) isKnown(v *Violation) bool {
	return loadKnown(filepath.Join(r.verif, "known-findings.txt"))[r.prop+"|"+v.Rule+"|"+v.Construct]
}
