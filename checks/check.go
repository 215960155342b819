// Package checks holds one static rule set per property.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

// Obligation is one rule instance decided on this run.
type Obligation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	OK        bool     `json:"ok"`
	Detail    string   `json:"detail,omitempty"`
	Where     string   `json:"where,omitempty"`
	Path      []string `json:"path,omitempty"`
	Known     bool     `json:"known_finding,omitempty"`
}

// C is the run of one property's check.
type C struct {
	P     *engine.Program
	ID    string
	Tier  string
	obls  map[string]*Obligation
	order []string
	rules map[string]string
	fns   map[*ssa.Function]bool
	sites map[ssa.Instruction]bool
	steps int
	terms int
	assum []string
}

// Thorough reports the tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Rule documents a rule.
func (c *C) Rule(name, text string) { c.rules[name] = text }

// Assume records an assumption of the check.
func (c *C) Assume(s string) { c.assum = append(c.assum, s) }

// Obl registers an obligation as discharged unless it already failed.
func (c *C) Obl(rule, construct string) {
	k := rule + " | " + construct
	if _, ok := c.obls[k]; !ok {
		c.obls[k] = &Obligation{Rule: rule, Construct: construct, OK: true}
		c.order = append(c.order, k)
	}
}

// Fail records a violated obligation.
func (c *C) Fail(rule, construct, where, detail string, path []string) {
	c.Obl(rule, construct)
	o := c.obls[rule+" | "+construct]
	if o.OK {
		o.OK, o.Detail, o.Where, o.Path = false, detail, where, path
	}
}

// Need registers an obligation and its outcome.
func (c *C) Need(ok bool, rule, construct, where, detail string) {
	c.Obl(rule, construct)
	if !ok {
		c.Fail(rule, construct, where, detail, nil)
	}
}

// Min fails when fewer instances than confirmed by reading were found.
func (c *C) Min(rule string, n, min int, what string) {
	c.Need(n >= min, rule, "instance count: "+what, "", fmt.Sprintf("found %d, at least %d expected; the rule would pass vacuously", n, min))
}

// Fn resolves a function or fails the check.
func (c *C) Fn(name string) *ssa.Function {
	f := c.P.Func(name)
	if f == nil {
		c.Fail("anchor", name, "", "the anchored function no longer exists", nil)
		panic(abort{})
	}
	return f
}

type abort struct{}

// Absorb adds an analysis to the evidence.
func (c *C) Absorb(e *engine.Eng) {
	for f := range e.Fns {
		c.fns[f] = true
	}
	for s := range e.Sites {
		c.sites[s] = true
	}
	c.steps += e.Steps
	c.terms += e.NumTerms()
}

// CheckFn decides one property.
type CheckFn func(c *C)

// Registry of checks.
var Registry = map[string]CheckFn{}

// Explain holds what each check covers, in a sentence or two.
var Explain = map[string]string{}

func register(id, explain string, f CheckFn) {
	Registry[id] = f
	Explain[id] = explain
}

type known struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
	Fixed     string `json:"fixed"`
}

func loadKnown(dir string) []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

// Run decides one property and returns the exit code.
func Run(p *engine.Program, loadErr error, dir, id, tier string, seed int, t0 time.Time) int {
	c := &C{P: p, ID: id, Tier: tier, obls: map[string]*Obligation{}, rules: map[string]string{}, fns: map[*ssa.Function]bool{},
		sites: map[ssa.Instruction]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				c.Fail("engine", "the analysis did not complete", "", fmt.Sprint(r)+"\n"+string(debug.Stack()), nil)
			}
		}()
		if loadErr != nil {
			c.Fail("load", "type-check /repo", "", loadErr.Error(), nil)
			return
		}
		f := Registry[id]
		if f == nil {
			c.Fail("engine", "no such check", "", id, nil)
			return
		}
		f(c)
	}()
	if len(c.obls) == 0 {
		c.Fail("engine", "no obligations", "", "the check decided nothing", nil)
	}
	kn := loadKnown(dir)
	bad := []*Obligation{}
	nknown := 0
	for _, k := range c.order {
		o := c.obls[k]
		if o.OK {
			continue
		}
		for _, f := range kn {
			if f.Property == id && f.Rule == o.Rule && f.Construct == o.Construct {
				o.Known = true
				nknown++
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", id, o.Construct, f.What, o.Rule)
				break
			}
		}
		if !o.Known {
			bad = append(bad, o)
		}
	}
	report := filepath.Join("evidence", id+".report.json")
	writeReport(filepath.Join(dir, report), c)
	writeEvidence(dir, c, tier, seed, len(bad), nknown, t0)
	for _, o := range bad {
		fmt.Printf("%s: rule %s broken at %s", id, o.Rule, o.Construct)
		if o.Where != "" {
			fmt.Printf(" (%s)", o.Where)
		}
		fmt.Printf("\n    %s\n", o.Detail)
		if len(o.Path) > 0 {
			fmt.Printf("    path: %s\n", strings.Join(o.Path, "\n          "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	}
	if len(bad) > 0 {
		return 1
	}
	fmt.Printf("%s: %d obligations discharged, %d known findings, %d functions, %d call sites, %.1fs\n", id, len(c.obls)-nknown, nknown, len(c.fns), len(c.sites), time.Since(t0).Seconds())
	return 0
}

func writeReport(path string, c *C) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	var os_ []*Obligation
	for _, k := range c.order {
		os_ = append(os_, c.obls[k])
	}
	b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "rules": c.rules, "obligations": os_}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func writeEvidence(dir string, c *C, tier string, seed, nbad, nknown int, t0 time.Time) {
	var fns, samples []string
	for f := range c.fns {
		fns = append(fns, c.P.FnName(f))
	}
	sort.Strings(fns)
	nf := len(fns)
	if len(fns) > 60 {
		fns = fns[:60]
	}
	ok := 0
	for i, k := range c.order {
		o := c.obls[k]
		if o.OK {
			ok++
		}
		if i < 40 {
			s := o.Rule + ": " + o.Construct
			if !o.OK {
				s += " — BROKEN"
			}
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"explanation":            Explain[c.ID],
		"rules":                  c.rules,
		"obligations":            len(c.obls),
		"discharged":             ok,
		"known_findings":         nknown,
		"functions_analysed":     nf,
		"functions":              fns,
		"call_sites_interpreted": len(c.sites),
		"abstract_steps":         c.steps,
		"abstract_terms":         c.terms,
		"module_functions":       0,
		"samples":                samples,
	}
	if c.P != nil {
		cov["module_functions"] = len(c.P.Funcs())
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nbad,
		"assumptions": append([]string{
			"Go's type checker and golang.org/x/tools/go/ssa represent the program that the compiler builds.",
			"External (standard library and vendored) functions behave as classified in engine/calls.go and checks/fsops.go.",
			"Distinct symbolic pointers do not alias; goroutine bodies are joined into the state at their start.",
		}, c.assum...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}
