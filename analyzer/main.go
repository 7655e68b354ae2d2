package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type prop struct {
	level   string
	explain string
	run     func(c *Check)
	specs   []string // reference model files
}

var props = map[string]prop{}

func main() {
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	dump := flag.String("dump", "", "debug: interpret one function and print its summary")
	names := flag.String("names", "", "record the declarations of the repository in a file")
	flag.Parse()
	if *names != "" {
		if err := writeNames(*repo, *names); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	os.Exit(realMain(*repo, *verif, *tier, *dump, flag.Args()))
}

func realMain(repo, verif, tier, dump string, args []string) (code int) {
	start := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(3 << 30)
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(Undecided); ok {
				fmt.Fprintln(os.Stderr, "check error: undecided:", u.msg)
				if os.Getenv("VERIF_TRACE") != "" {
					debug.PrintStack()
				}
			} else {
				fmt.Fprintln(os.Stderr, "check error: panic:", e)
				debug.PrintStack()
			}
			code = 3
		}
	}()
	var overlay map[string][]byte
	if len(args) == 1 {
		overlay = specOverlay(repo, specsFor(args[0]))
	}
	r, err := loadRepo(repo, overlay)
	if err != nil {
		fmt.Fprintln(os.Stderr, "check error:", err)
		return 3
	}
	if dump != "" {
		dumpFn(r, dump)
		return 0
	}
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: analyzer [flags] <property>")
		return 2
	}
	p, ok := props[args[0]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		return 2
	}
	c := &Check{r: r, id: args[0], tier: tier, start: start, counts: map[string]int{}}
	for _, n := range r.renames {
		c.note("renamed: %s", n)
	}
	c.attempt(c.compareModels)
	if p.run != nil {
		c.attempt(func() { p.run(c) })
	}
	return c.finish(verif, p.level, p.explain)
}

func dumpFn(r *Repo, name string) {
	f := r.fn(name)
	ip := newInterp(r)
	res := ip.analyze(f)
	for i, v := range res.rets {
		fmt.Printf("ret%d = %s\n", i, ip.showMT(v))
	}
	for _, e := range ip.effects {
		fmt.Printf("%3d %-9s %s  [%s] pc=%s", e.seq, e.kind, e.name, r.instrPos(e.instr), ip.showMT(e.pc))
		for _, a := range e.args {
			if a != nil {
				fmt.Printf(" | %s", ip.showMT(a))
			}
		}
		for _, h := range e.held {
			fmt.Printf(" {%s:%s}", ip.show(h.lock), h.mode)
		}
		fmt.Println()
	}
	fmt.Println("steps", ip.steps, "terms", len(ip.terms), "nodes", ip.nextMT)
}

// debugf prints when VERIF_DEBUG is set.
func debugf(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
