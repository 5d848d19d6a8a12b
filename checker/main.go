package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.String("shard", "", "run one part only (internal)")
	flag.Parse()
	d := checks[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if p := os.Getenv("VPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	t0 := time.Now()
	r := &Run{prop: *prop, tier: *tier, repo: *repo, verif: *verif}
	if *shard != "" {
		fmt.Sscanf(*shard, "%d/%d", &r.shard, &r.shards)
	}
	if d.noLoad {
		r.w = &World{repoDir: *repo, viol: map[string]*Violation{}, obl: map[string]int{}}
	} else {
		w, err := loadWorld(*repo, *verif, d.harness)
		if w == nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.w = w
		if err != nil {
			r.fail("analysis", "load", "", "%v", err)
			os.Exit(r.finish(t0, "other"))
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VPANIC") != "" {
					panic(e)
				}
				r.fail("undecided", "analysis", "", "the analysis does not cover this code: %v", e)
			}
		}()
		d.run(r)
	}()
	code := r.finish(t0, "other")
	pprof.StopCPUProfile()
	os.Exit(code)
}
