package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Check collects the obligations of one property.
type Check struct {
	ID      string
	P       *Program
	W       *World
	Rules   map[string]string // rule -> what it demands
	obs     map[string]*Obl
	order   []string
	Fns     map[string]bool
	Counts  map[string]int
	Assume  []string
	t0      time.Time
	onEvent func(x *ai.Exec, e *ai.Event)
	view    *View // being analysed
}

// Obl is one obligation: a rule applied to a construct.
type Obl struct {
	Rule, Where, What string
	OK                bool
	N                 int
	Fails             int
	Pos               string
}

func (c *Check) pos(p token.Pos) string {
	if c.P == nil || c.P.Prog == nil || !p.IsValid() {
		return ""
	}
	q := c.P.Prog.Fset.Position(p)
	r, err := filepath.Rel(c.P.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// Ob records that rule holds (or not) at a construct. Several instances at the
// same construct count as one obligation that fails if any instance does.
func (c *Check) Ob(ok bool, rule, where, pos, format string, args ...any) bool {
	if !ok && os.Getenv("DBGR") != "" {
		fmt.Println("OBFAIL", rule, where, pos, fmt.Sprintf(format, args...))
	}
	k := rule + "|" + where
	o := c.obs[k]
	if o == nil {
		o = &Obl{Rule: rule, Where: where, OK: true, Pos: pos}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.N++
	if !ok {
		o.Fails++
	}
	if !ok && o.OK {
		o.OK = false
		o.Pos = pos
		o.What = fmt.Sprintf(format, args...)
	}
	return ok
}

// Fail reports that the analysis itself could not be done.
func (c *Check) Fail(where, format string, args ...any) {
	c.Ob(false, "analysis", where, "", format, args...)
}

// Need resolves a function the property is anchored at.
func (c *Check) Need(name string) *ssa.Function {
	f := c.P.fn(name)
	if f == nil {
		c.Fail(name, "anchor function %s not found", name)
	}
	return f
}

func (c *Check) Errs(x *ai.Exec, where string) {
	for f := range x.Seen {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), module) {
			c.saw(f)
		}
	}
	for _, e := range x.Err {
		c.Fail(where, "analysis incomplete: %s", e)
	}
}

func fnShort(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, module+"/", "")
	return strings.ReplaceAll(s, module, "")
}

func (c *Check) saw(f *ssa.Function) {
	if f != nil {
		c.Fns[fnShort(f)] = true
	}
}

func (c *Check) finish() int {
	var bad []*Obl
	rules := map[string][2]int{}
	n, inst := 0, 0
	var samples []string
	for _, k := range c.order {
		o := c.obs[k]
		n++
		inst += o.N
		r := rules[o.Rule]
		r[0]++
		if o.OK {
			r[1]++
		} else {
			bad = append(bad, o)
		}
		rules[o.Rule] = r
	}
	seen := map[string]int{}
	for _, k := range c.order {
		o := c.obs[k]
		if seen[o.Rule] < 6 {
			seen[o.Rule]++
			samples = append(samples, fmt.Sprintf("%s: %s %s (%d instances)", o.Rule, o.Where, o.Pos, o.N))
		}
	}
	if n == 0 {
		bad = append(bad, &Obl{Rule: "analysis", Where: c.ID, What: "no obligations found"})
	}
	root := verifDir()
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	replay := filepath.Join(root, "evidence", c.ID+".violations.txt")
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rl := map[string]any{}
	for r, v := range rules {
		rl[r] = map[string]any{"obligations": v[0], "held": v[1], "demands": c.Rules[r]}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	viol := []any{}
	for _, o := range bad {
		viol = append(viol, fmt.Sprintf("%s at %s %s: %s", o.Rule, o.Where, o.Pos, o.What))
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(c.t0).Seconds(),
		"coverage": map[string]any{
			"explanation":        "static analysis of the current source: every obligation is a rule applied to one construct (call site, instruction, path outcome, declaration); an obligation that cannot be decided counts as failed",
			"obligations":        n,
			"discharged":         n - len(bad),
			"instances":          inst,
			"rules":              rl,
			"functions_analysed": fns,
			"counts":             c.Counts,
			"samples":            samples,
			"failed":             viol,
		},
		"assumptions": c.Assume,
		"violations":  len(viol),
	}
	if c.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(bad) == 0 {
		os.Remove(replay)
		fmt.Printf("%s: %d obligations hold (%d instances, %d functions)\n", c.ID, n, inst, len(fns))
		return 0
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintln(&sb, v)
	}
	os.WriteFile(replay, []byte(sb.String()), 0644)
	for i, v := range viol {
		if i < 40 {
			fmt.Println(" ", v)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

var checks = map[string]func(c *Check){}

func runCheck(id string, p *Program, lerr error) (code int) {
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	c := &Check{ID: id, P: p, obs: map[string]*Obl{}, Fns: map[string]bool{}, Counts: map[string]int{}, Rules: map[string]string{}, t0: time.Now()}
	func() {
		defer func() {
			if os.Getenv("NORECOVER") != "" {
				return
			}
			if r := recover(); r != nil {
				if os.Getenv("DBGR") != "" {
					debug.PrintStack()
				}
				c.Fail("checker", "internal error: %v", r)
			}
		}()
		if lerr != nil {
			c.Fail("load", "the program does not type-check: %v", lerr)
			return
		}
		c.W = newWorld(p)
		f(c)
	}()
	return c.finish()
}

// failures counts the obligations that do not hold.
func (c *Check) failures() int {
	n := 0
	for _, o := range c.obs {
		if !o.OK {
			n += o.Fails
		}
	}
	return n
}
