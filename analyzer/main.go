package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// One obligation: a rule applied to one construct.
type Ob struct {
	Rule string `json:"rule"`
	Key  string `json:"key"`
	Pos  string `json:"pos,omitempty"`
	OK   bool   `json:"ok"`
	Msg  string `json:"msg,omitempty"`
}

type Ctx struct {
	P     *Program
	Prop  string
	Tier  string
	obs   map[string]*Ob
	order []string
	funcs map[string]bool
	sites int
	nodes int
	paths int
	notes []string
	need  map[string]int
	count map[string]int
}

// Ob records an obligation. Obligations with the same rule+key are merged; one failure fails it.
func (c *Ctx) Ob(rule, key string, ok bool, pos, msg string) {
	k := rule + "|" + key
	if o := c.obs[k]; o != nil {
		if !ok && o.OK {
			o.OK, o.Pos, o.Msg = false, pos, msg
		}
		return
	}
	c.obs[k] = &Ob{rule, key, pos, ok, msg}
	c.order = append(c.order, k)
	c.count[rule]++
}

// Need: the rule must have matched at least n constructs.
func (c *Ctx) Need(rule string, n int) {
	c.need[rule] = n
	if c.count[rule] < n {
		c.Ob(rule, "coverage", false, "", fmt.Sprintf("rule matched %d constructs, %d were confirmed by hand: the mechanism it checks is gone or was not recognised", c.count[rule], n))
	}
}

func (c *Ctx) Note(f string, a ...interface{}) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

// Missing reports an unresolved anchor.
func (c *Ctx) Missing(rule, what string) {
	c.Ob(rule, "anchor "+what, false, "", "anchor not found in the current tree: "+what)
}

func (c *Ctx) sawFn(fn *ssa.Function) { c.funcs[fn.String()] = true }

// Flow builds the inlined graph of fn and runs the interpretation.
func (c *Ctx) Flow(fn *ssa.Function, ic InlineCfg, fc FlowCfg) *Flow {
	if c.Tier == "thorough" {
		if ic.MaxDepth == 0 {
			ic.MaxDepth = 12
		}
		if fc.MaxStates == 0 {
			fc.MaxStates = 128
		}
	}
	g := BuildGraph(c.P, fn, ic)
	f := NewFlow(g, fc)
	f.Run()
	for k := range g.inl {
		c.funcs[k] = true
	}
	c.nodes += len(g.Nodes)
	c.paths += f.edges
	return f
}

type Check struct {
	ID    string
	Title string
	Rule  string
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, title, rule string, run func(c *Ctx)) {
	checks[id] = &Check{id, title, rule, run}
}

func main() {
	prop := flag.String("prop", "", "property id (comma separated, or all)")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	dump := flag.String("dump", "", "dump the inlined graph of pkg.func or pkg.Type.method")
	opq := flag.String("opq", "", "with -sum: regexp of functions kept opaque")
	sum := flag.String("sum", "", "print the summary of a function")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else if *prop != "" {
		ids = strings.Split(*prop, ",")
	}
	start := time.Now()
	p, err := LoadProgram(*repo)
	if err != nil {
		for _, id := range ids {
			fail(*verif, id, tier, start, "the tree could not be loaded and type-checked: "+err.Error())
		}
		os.Exit(1)
	}
	if *dump != "" {
		fn := p.FindFunc(*dump)
		if fn == nil {
			fmt.Println("not found")
			os.Exit(2)
		}
		BuildGraph(p, fn, InlineCfg{}).Dump()
		return
	}
	if *sum != "" {
		fn := p.FindFunc(*sum)
		if fn == nil {
			fmt.Println("not found")
			os.Exit(2)
		}
		c := &Ctx{P: p, funcs: map[string]bool{}, count: map[string]int{}}
		sc := SumCfg{}
		if *opq != "" {
			re := regexp.MustCompile(*opq)
			sc.Opaque = func(f *ssa.Function) bool { return defaultOpaque(f) || re.MatchString(short(f.String())) }
		}
		c.Sum(fn, sc).Dump()
		return
	}
	rc := 0
	for _, id := range ids {
		if runCheck(p, *verif, id, tier, *verbose) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func (p *Program) FindFunc(s string) *ssa.Function {
	for _, fn := range p.funcs {
		if strings.NewReplacer("(*", "", "(", "", ")", "").Replace(short(fn.String())) == s || short(fn.String()) == s || fn.String() == s {
			return fn
		}
	}
	return nil
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func fail(verif, id, tier string, start time.Time, msg string) {
	rp := writeReport(verif, id, []string{"VIOLATION " + id + ": " + msg})
	writeEvidence(verif, id, tier, map[string]interface{}{"explanation": "analysis failed: " + msg, "obligations_checked": 0}, time.Since(start).Seconds(), 1)
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
}

func writeReport(verif, id string, lines []string) string {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, id+".report.txt")
	os.WriteFile(path, []byte(strings.Join(lines, "\n")+"\n"), 0644)
	return path
}

func writeEvidence(verif, id, tier string, cov map[string]interface{}, wall float64, viol int) {
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed(), "level": "other", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"Go semantics as modelled by go/types and go/ssa; reflection, cgo and unsafe are not followed",
			"functions outside the module behave as documented; they do not write the repository's private fields",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644)
}

type finding struct{ prop, key, text string }

func readFindings(verif string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C02 key=<rule|key> :: text
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, finding{l[:i], l[i+5 : j], l[j+4:]})
	}
	return out
}

func runCheck(p *Program, verif, id, tier string, verbose bool) (rc int) {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 1
	}
	c := &Ctx{P: p, Prop: id, Tier: tier, obs: map[string]*Ob{}, funcs: map[string]bool{}, need: map[string]int{}, count: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			fail(verif, id, tier, start, fmt.Sprintf("analysis did not complete: %v\n%s", r, debug.Stack()))
			rc = 1
		}
	}()
	ck.Run(c)
	known := map[string]finding{}
	for _, f := range readFindings(verif) {
		if f.prop == id {
			known[f.key] = f
		}
	}
	var lines []string
	viol, okc, kn := 0, 0, 0
	var samples []interface{}
	perRule := map[string]int{}
	for _, k := range c.order {
		o := c.obs[k]
		perRule[o.Rule]++
		if o.OK {
			okc++
			if len(samples) < 12 {
				samples = append(samples, map[string]string{"rule": o.Rule, "construct": o.Key, "at": o.Pos, "verdict": "holds", "why": o.Msg})
			}
			if verbose {
				fmt.Printf("ok   %-28s %s  %s\n", o.Rule, o.Key, o.Pos)
			}
			continue
		}
		if f, ok := known[k]; ok {
			kn++
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", id, k, o.Pos, f.text)
			continue
		}
		viol++
		lines = append(lines, fmt.Sprintf("%s: rule %s, construct %s: %s", o.Pos, o.Rule, o.Key, o.Msg))
	}
	cov := map[string]interface{}{
		"explanation":          ck.Rule,
		"obligations_checked":  len(c.order),
		"obligations_holding":  okc,
		"known_findings":       kn,
		"functions_analysed":   len(c.funcs),
		"ir_nodes_interpreted": c.nodes,
		"flow_edges_explored":  c.paths,
		"call_sites_inspected": c.sites,
		"per_rule":             perRule,
		"minimum_required":     c.need,
		"samples":              samples,
		"notes":                c.notes,
	}
	writeEvidence(verif, id, tier, cov, time.Since(start).Seconds(), viol)
	if viol > 0 {
		rp := writeReport(verif, id, append([]string{fmt.Sprintf("property %s (%s): %d violated obligation(s)", id, ck.Title, viol)}, lines...))
		for _, l := range lines {
			fmt.Println(l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d rules=%v\n", id, len(c.order), len(c.funcs), perRule)
	return 0
}

// ---- shared rule helpers ----

func fieldOwner(t *Term) (string, string) {
	if t == nil || (t.K != TFieldAddr && t.K != TField) || t.Args[0].T == nil {
		return "", ""
	}
	bt := t.Args[0].T
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	return short(types.TypeString(bt, nil)), t.fieldName()
}
