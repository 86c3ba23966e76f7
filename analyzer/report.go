package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var maxSteps = 60000

type Viol struct {
	Rule, Construct, Pos, Msg string
	Trace                     []string
	Entry                     string
	n                         int
}

// Ctx collects what one property's check analysed and found.
type Ctx struct {
	P         *Program
	ID        string
	Tier      string
	viol      map[string]*Viol
	obl       map[string]bool
	counts    map[string]int
	rules     map[string]string
	fns       map[string]bool
	entries   []string
	entry     string
	states    int
	steps     int
	undecided []string
	exits     int
	calls     int
	configs   []string
}

func newCtx(id string) *Ctx {
	return &Ctx{ID: id, viol: map[string]*Viol{}, obl: map[string]bool{}, counts: map[string]int{}, rules: map[string]string{}, fns: map[string]bool{}}
}

// Ob records that rule was applied to construct.
func (c *Ctx) Ob(rule, construct string) {
	c.obl[rule+"|"+construct] = true
}

// N counts instances of a rule; Min fails if there were fewer than expected.
func (c *Ctx) N(what string) { c.counts[what]++ }
func (c *Ctx) Min(what string, n int) {
	if c.counts[what] < n && len(c.undecided) == 0 {
		c.Bad(nil, "instances", what, token.NoPos, fmt.Sprintf("the rule matched %d constructs (%s), at least %d expected: the code it is about is gone or no longer recognised", c.counts[what], what, n))
	}
}

func (c *Ctx) Bad(st *State, rule, construct string, pos token.Pos, msg string) {
	if dbg && st != nil {
		st.dump(rule + ": " + msg)
	}
	key := rule + "|" + construct
	c.obl[key] = true
	v := &Viol{Rule: rule, Construct: construct, Pos: c.P.pos(pos), Msg: msg, Entry: c.entry, n: 1 << 30}
	if st != nil {
		v.n = 0
		for t := st.trace; t != nil; t = t.up {
			v.Trace = append(v.Trace, c.P.pos(t.pos)+": "+t.what)
			v.n++
		}
		for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
			v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
		}
	}
	if o := c.viol[key]; o == nil || v.n < o.n {
		c.viol[key] = v
	}
}

// Fn finds a function by package and name; a missing one is a violation.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	f := c.P.fn(pkg, name)
	if f == nil || f.Blocks == nil {
		c.Bad(nil, "anchor", pkg+"."+name, token.NoPos, "function not found")
		return nil
	}
	return f
}

// Run interprets entry to a fixpoint.
func (c *Ctx) Run(entry *ssa.Function, cfg *Config, init func(st *State, params []*Term)) *Exec {
	if entry == nil {
		return nil
	}
	c.entry = fname(entry)
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = maxSteps
	}
	x := newExec(c.P, cfg)
	x.Run(entry, init)
	c.absorb(x, c.entry)
	return x
}

func (c *Ctx) absorb(x *Exec, name string) {
	c.entries = append(c.entries, name)
	c.states += x.States
	c.steps += x.Steps
	c.exits += x.Exits
	c.calls += x.Calls
	for f := range x.Fns {
		c.fns[f] = true
	}
	if x.Over {
		c.Undecided(name, "the analysis did not reach its fixpoint within its budget of steps and time")
	}
	if x.Err != "" {
		c.Undecided(name, x.Err)
	}
}

// Undecided records that part of the property was neither shown nor refuted.
// It is reported, but it is not an alarm: nothing was found to be wrong.
func (c *Ctx) Undecided(what, why string) {
	s := what + ": " + why
	for _, o := range c.undecided {
		if o == s {
			return
		}
	}
	c.undecided = append(c.undecided, s)
}

func where(ev *Ev) string { return fname(ev.Fn) }

type knownFinding struct{ prop, key, text string }

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<rule|construct> :: text
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		h := strings.SplitN(parts[0], " key=", 2)
		if len(h) != 2 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(h[0], "property="), h[1], parts[1]})
	}
	return out
}

// finish prints the verdict, writes evidence and replay, and returns the exit status.
func (c *Ctx) finish(root, expl string, assumptions []string, start time.Time) int {
	if expl == "" {
		var rs []string
		for r, text := range c.rules {
			rs = append(rs, r+": "+text)
		}
		sort.Strings(rs)
		expl = "Rules applied to every construct listed. " + strings.Join(rs, "; ") + "."
	}
	known := map[string]knownFinding{}
	for _, k := range readKnown(filepath.Join(root, "known_findings.txt")) {
		if k.prop == c.ID {
			known[k.key] = k
		}
	}
	var keys []string
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad []string
	for _, k := range keys {
		if kf, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, kf.text)
			continue
		}
		bad = append(bad, k)
	}
	ev := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	replay := filepath.Join(ev, "replay", c.ID+".txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		for _, k := range bad {
			v := c.viol[k]
			fmt.Fprintf(&b, "property %s: rule %s violated\n  construct: %s\n  at: %s\n  %s\n", c.ID, v.Rule, v.Construct, v.Pos, v.Msg)
			if v.Entry != "" {
				fmt.Fprintf(&b, "  entry point: %s\n", v.Entry)
			}
			if len(v.Trace) > 0 {
				b.WriteString("  path:\n")
				for _, t := range v.Trace {
					fmt.Fprintf(&b, "    %s\n", t)
				}
			}
			b.WriteString("\n")
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	}
	var obl []string
	for k := range c.obl {
		obl = append(obl, k)
	}
	sort.Strings(obl)
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var rs []string
	for r, t := range c.rules {
		rs = append(rs, r+": "+t)
	}
	sort.Strings(rs)
	samples := obl
	if len(samples) > 60 {
		samples = samples[:60]
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	out := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          expl,
			"rules":                rs,
			"obligations":          len(obl),
			"discharged":           len(obl) - len(bad) - (len(keys) - len(bad)),
			"known_findings":       len(keys) - len(bad),
			"obligation_list":      samples,
			"instances":            c.counts,
			"entry_points":         c.entries,
			"functions_analysed":   fns,
			"abstract_paths":       c.states,
			"interpreter_steps":    c.steps,
			"exits_examined":       c.exits,
			"call_sites":           c.calls,
			"build_configurations": c.configs,
			"undecided":            append([]string{}, c.undecided...),
			"source_files":         c.P.fileCount(),
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}
	j, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(ev, c.ID+".json"), append(j, '\n'), 0o644)
	for _, u := range c.undecided {
		fmt.Printf("UNDECIDED: property=%s %s\n", c.ID, u)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		return 1
	}
	fmt.Printf("%s: held: %d obligations over %d entry points, %d abstract paths, %d exits\n", c.ID, len(obl), len(c.entries), c.states, c.exits)
	return 0
}

func (p *Program) fileCount() int {
	if p == nil {
		return 0
	}
	return p.NFile
}

var dbg = os.Getenv("GOSBDBG") != ""

// dump prints what a state knows, for debugging the analyser.
func (st *State) dump(title string) {
	fmt.Fprintln(os.Stderr, "---", title)
	for _, k := range st.monKeys("") {
		fmt.Fprintln(os.Stderr, "  mon", k, "=", st.mon[k])
	}
	for t, v := range st.cond {
		fmt.Fprintln(os.Stderr, "  cond", t, "=", v)
	}
	for _, l := range st.lin {
		fmt.Fprintln(os.Stderr, "  lin", l.key(func(t *Term) string { return t.String() }))
	}
	for a, v := range st.heap {
		fmt.Fprintln(os.Stderr, "  heap", a, "=", v)
	}
}
