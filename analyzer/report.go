package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check collects what one property run analysed and found.
type Check struct {
	r          *Repo
	id         string
	tier       string
	start      time.Time
	counts     map[string]int
	violations []Violation
	rules      []string
	notes      []string
	obligs     int
	discharged int
	open       []string // what could not be decided
}

type Violation struct {
	Key  string `json:"key"` // stable identification: function and construct
	Pos  string `json:"pos"`
	What string `json:"what"`
}

func (c *Check) rule(format string, a ...any) { c.rules = append(c.rules, fmt.Sprintf(format, a...)) }
func (c *Check) note(format string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(format, a...)) }
func (c *Check) count(name string, n int)     { c.counts[name] += n }

// violate records a violation; key identifies the construct independently of
// line numbers.
func (c *Check) violate(key, pos, format string, a ...any) {
	what := fmt.Sprintf(format, a...)
	for _, v := range c.violations {
		if v.Key == key && v.What == what {
			return
		}
	}
	c.violations = append(c.violations, Violation{key, pos, what})
}

// ok records one obligation that was discharged.
func (c *Check) ok(cond bool, key, pos, format string, a ...any) bool {
	c.obligs++
	if cond {
		c.discharged++
		return true
	}
	c.violate(key, pos, format, a...)
	return false
}

// atLeast asserts that a rule actually met enough instances.
func (c *Check) atLeast(name string, min int) {
	if c.counts[name] < min {
		undecided("rule %q met %d instances, expected at least %d: the analysis no longer sees what it is meant to judge", name, c.counts[name], min)
	}
}

type knownFinding struct{ prop, key, text string }

// known findings: lines "known: property=<id> key=<key> <text>".
func loadKnown(verif string) []knownFinding {
	var out []knownFinding
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(rest, "key=")
		key, text, _ := strings.Cut(rest, " ")
		out = append(out, knownFinding{id, key, text})
	}
	return out
}

func (c *Check) finish(verif string, level string, explain string) int {
	known := loadKnown(verif)
	var bad []Violation
	nKnown := 0
	printed := map[string]bool{}
	for _, v := range c.violations {
		hit := false
		for _, k := range known {
			if k.prop == c.id && k.key == strings.ReplaceAll(v.Key, " ", "_") {
				hit = true
				if !printed[k.key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.text)
					printed[k.key] = true
				}
			}
		}
		if hit {
			nKnown++
			continue
		}
		bad = append(bad, v)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation": explain,
		"rules":       c.rules,
		"analysed":    c.counts,
		"obligations": c.obligs,
		"discharged":  c.discharged,
		"packages":    len(c.r.pkgs),
		"functions":   len(c.r.funcs),
		"known":       nKnown,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.id,
		"tier":     c.tier,
		"seed":     seed,
		"level":    level,
		"coverage": cov,
		"wall_s":   time.Since(c.start).Seconds(),
		"assumptions": []string{
			"go/types and go/ssa represent the source faithfully",
			"distinct pointer expressions not known to be equal do not alias, except where the analysis invalidates by field or element type",
			"functions outside the repository behave as documented",
		},
		"violations": len(bad),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	for _, o := range c.open {
		fmt.Fprintln(os.Stderr, "check error: undecided:", o)
	}
	if len(bad) == 0 && len(c.open) > 0 {
		return 3
	}
	if len(bad) == 0 {
		os.Remove(filepath.Join(verif, "evidence", c.id+".violations.json"))
		fmt.Printf("ok property=%s obligations=%d\n", c.id, c.obligs)
		return 0
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i].Pos < bad[j].Pos })
	shown := map[string]int{}
	for _, v := range bad {
		if shown[v.Key]++; shown[v.Key] <= 4 {
			fmt.Printf("%s: [%s] %s\n", v.Pos, v.Key, v.What)
		}
	}
	replay := filepath.Join(verif, "evidence", c.id+".violations.json")
	b, _ = json.MarshalIndent(bad, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}
