package main

import (
	"context"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vcg check|func|list ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	verbose := fs.Bool("v", false, "verbose")
	name := fs.String("name", "", "function key (substring)")
	limit := fs.Int("limit", 0, "seconds per function")
	safety := fs.Bool("safety", false, "check run-time safety")
	retract := fs.String("retract", "", "comma separated contracts to inline")
	prof := fs.String("cpuprofile", "", "")
	fs.Parse(os.Args[2:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ss := NewSpecSet()
	if err := ss.LoadDir(*verif + "/specs"); err != nil {
		die("specs: %v", err)
	}
	t0 := time.Now()
	switch cmd {
	case "check":
		os.Exit(runCheck(ss, *repo, *verif, *prop, *tier, *limit, *verbose))
	case "replay":
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		h := runHarness(context.Background(), *repo, *verif, *prop, *tier, seed)
		fmt.Println(h.Output)
		if len(h.Fails) > 0 {
			os.Exit(1)
		}
	case "list":
		w, err := LoadWorld(*repo)
		if err != nil {
			die("%v", err)
		}
		p := &propRun{prop: *prop, w: w, ss: ss, funcs: w.repoFuncs()}
		var ks []string
		for k, l := range p.funcs {
			c := " "
			if ss.Contracts[k] != nil {
				c = "*"
			}
			ks = append(ks, fmt.Sprintf("%s %s (%d)", c, k, len(l)))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	case "func":
		w, err := LoadWorld(*repo)
		if err != nil {
			die("%v", err)
		}
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		dir, _ := os.MkdirTemp("", "vcg")
		if os.Getenv("VCG_KEEP") == "" {
			defer os.RemoveAll(dir)
		}
		p := &propRun{prop: *prop, w: w, ss: ss, funcs: w.repoFuncs()}
		_, p.safety = ss.roots(*prop)
		ret := map[string]bool{}
		for _, k := range strings.Split(*retract, ",") {
			if k != "" {
				ret[k] = true
			}
		}
		var keys []string
		for k := range p.funcs {
			if k == *name || strings.Contains(k, *name) && (ss.Contracts[k] != nil) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		bad := 0
		for _, k := range keys {
			if len(keys) > 1 && k != *name && !strings.Contains(k, *name) {
				continue
			}
			for _, f := range p.instances(k) {
				lim := time.Duration(*limit) * time.Second
				r := verifyFunc(w, ss, f, p.contractFor(k), VerifyOpts{prop: *prop, safety: *safety || p.safety, retract: ret, dir: dir, limit: lim, verbose: *verbose})
				fmt.Println(r.summary())
				if *verbose {
					for _, o := range r.Obls {
						s := "ok  "
						if o.Failed {
							s = "FAIL"
						}
						fmt.Printf("   %s %s [%d VCs %dms] %s\n", s, o.Name, o.VCs, o.Ms, o.Clause)
					}
					fmt.Println("   uses:", keysOf(r.used), "assumes:", keysOf(r.usedX), "inlined:", keysOf(r.inlined), "invs:", keysOf(r.usedInv))
				}
				if r.failed() {
					bad++
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	default:
		die("unknown command %s", cmd)
	}
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
