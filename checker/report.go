package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obl is one obligation: an instance of a rule at a construct.
type Obl struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"` // stable construct key (no line numbers)
	Pos    string `json:"pos"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

// Ctx collects the obligations of one check.
type Ctx struct {
	P       *Program
	ID      string
	Tier    string
	Obls    []Obl
	Rules   map[string]string // rule -> text
	Floors  map[string]int    // rule -> minimal number of instances
	Extra   map[string]any
	fixture bool
}

func (c *Ctx) Rule(name, text string, floor int) {
	c.Rules[name] = text
	c.Floors[name] = floor
}

func (c *Ctx) Add(rule, key, pos string, ok bool, detail string) {
	if _, known := c.Rules[rule]; !known {
		panic("undeclared rule " + rule)
	}
	c.Obls = append(c.Obls, Obl{rule, key, pos, ok, detail})
}

func (c *Ctx) Ok(rule, key, pos string)          { c.Add(rule, key, pos, true, "") }
func (c *Ctx) Bad(rule, key, pos, detail string) { c.Add(rule, key, pos, false, detail) }

func (c *Ctx) Cond(ok bool, rule, key, pos, detail string) {
	if ok {
		detail = ""
	}
	c.Add(rule, key, pos, ok, detail)
}

type known struct {
	prop, key, text string
}

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C01 key=<rule>|<construct> :: text
		var k known
		rest := strings.TrimPrefix(l, "known: ")
		if i := strings.Index(rest, " :: "); i >= 0 {
			k.text = rest[i+4:]
			rest = rest[:i]
		}
		if i := strings.Index(rest, " key="); i >= 0 {
			k.key = rest[i+5:]
			rest = rest[:i]
		}
		k.prop = strings.TrimPrefix(rest, "property=")
		out = append(out, k)
	}
	return out
}

func (c *Ctx) finish(start time.Time, verif string, selftest []string, selfInfo map[string]any) int {
	counts := map[string]int{}
	bad := map[string]int{}
	for _, o := range c.Obls {
		counts[o.Rule]++
		if !o.OK {
			bad[o.Rule]++
		}
	}
	for r, fl := range c.Floors {
		if counts[r] < fl {
			c.Obls = append(c.Obls, Obl{r, "instance-count", "", false,
				fmt.Sprintf("the rule matched %d constructs, fewer than the %d confirmed by hand: what it protects has disappeared from the code or can no longer be resolved", counts[r], fl)})
		}
	}
	for _, s := range selftest {
		c.Obls = append(c.Obls, Obl{"self-test", s, "", false, "the checker no longer decides its own examples: " + s})
	}
	ks := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viol []Obl
	var knownHit []string
	for _, o := range c.Obls {
		if o.OK {
			continue
		}
		hit := false
		for _, k := range ks {
			if k.prop == c.ID && k.key == o.Rule+"|"+o.Key {
				hit = true
				knownHit = append(knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s|%s at %s: %s", c.ID, o.Rule, o.Key, o.Pos, k.text))
				break
			}
		}
		if !hit {
			viol = append(viol, o)
		}
	}
	sort.Strings(knownHit)
	knownHit = dedup(knownHit)
	for _, k := range knownHit {
		fmt.Println(k)
	}
	evdir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	rules := map[string]any{}
	var names []string
	for r := range c.Rules {
		names = append(names, r)
	}
	sort.Strings(names)
	samples := []Obl{}
	discharged := 0
	for _, o := range c.Obls {
		if o.OK {
			discharged++
		}
	}
	for _, r := range names {
		rules[r] = map[string]any{"rule": c.Rules[r], "instances": counts[r], "violated": bad[r], "confirmed_floor": c.Floors[r]}
		n := 0
		for _, o := range c.Obls {
			if o.Rule == r && n < 4 {
				samples = append(samples, o)
				n++
			}
		}
	}
	expl := fmt.Sprintf("Static analysis of the resolved program (types + SSA, go/packages + x/tools/go/ssa) rebuilt from %s on this run: %d packages, %d files, %d functions. Each rule below was instantiated on every matching construct; an obligation is discharged when the rule holds on all paths of the construct. No code of the module was executed.", c.P.Dir, len(c.P.Pkgs), c.P.Files, len(c.P.Funcs))
	cov := map[string]any{
		"explanation": expl,
		"packages":    len(c.P.Pkgs), "files": c.P.Files, "functions": len(c.P.Funcs),
		"obligations": len(c.Obls), "discharged": discharged,
		"rules": rules, "samples": samples,
		"checker_cmd":   "bash /verif/check.sh " + c.ID,
		"trusted_base":  []string{"go/types", "golang.org/x/tools/go/ssa v0.52.0", "the rule tables in /verif/checker"},
		"self_test":     selfInfo,
		"known_matched": knownHit,
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": []string{"the Go type checker and SSA construction are faithful to the compiler", specialImports(c.P)},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(evdir, c.ID+".json"), b, 0o644)
	replay := filepath.Join(evdir, c.ID+".violations.txt")
	_ = os.Remove(replay)
	if len(viol) == 0 {
		fmt.Printf("property %s holds: %d obligations over %d rules (%d functions analysed), %d known findings\n", c.ID, len(c.Obls), len(c.Rules), len(c.P.Funcs), len(knownHit))
		return 0
	}
	var sb strings.Builder
	for _, o := range viol {
		l := fmt.Sprintf("[%s] %s (%s): %s", o.Rule, o.Key, o.Pos, o.Detail)
		sb.WriteString(l + "\n    rule: " + c.Rules[o.Rule] + "\n")
		fmt.Println(l)
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}

// specialImports states which packages of the module import what the analyses cannot see through
func specialImports(p *Program) string {
	var bad []string
	for _, pk := range p.Pkgs {
		for _, im := range pk.Types.Imports() {
			switch im.Path() {
			case "unsafe", "reflect", "C":
				bad = append(bad, shortPkg(pk.Types)+" imports "+im.Path())
			}
		}
	}
	if len(bad) == 0 {
		return "no package of the module imports unsafe, reflect or C (looked up on this run)"
	}
	sort.Strings(bad)
	return "not followed: " + strings.Join(bad, ", ")
}

func dedup(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}
