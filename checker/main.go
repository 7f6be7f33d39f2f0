package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

type checkFn func(*Ctx)

var checks = map[string]checkFn{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property-id|all> [tier]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	if id == "all" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		p, err := Load(repoDir(), nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		rc := 0
		for _, k := range ids {
			if run(k, tier, verif, p) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	if checks[id] == nil {
		fmt.Println("no check for", id)
		os.Exit(2)
	}
	os.Exit(run(id, tier, verif, nil))
}

func fail(id, verif, msg string) int {
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", id+".violations.txt")
	_ = os.WriteFile(replay, []byte(msg+"\n"), 0o644)
	_ = os.WriteFile(filepath.Join(verif, "evidence", id+".json"), []byte(fmt.Sprintf(
		`{"property":%q,"tier":"quick","seed":1,"level":"other","coverage":{"explanation":%q},"wall_s":0,"violations":1}`, id, msg)), 0o644)
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func run(id, tier, verif string, p *Program) (rc int) {
	start := time.Now()
	defer func() {
		if r := recover(); r != nil {
			rc = fail(id, verif, fmt.Sprintf("undecided: the analysis did not complete: %v\n%s", r, debug.Stack()))
		}
	}()
	if p == nil {
		var err error
		p, err = Load(repoDir(), nil)
		if err != nil {
			return fail(id, verif, "undecided: "+err.Error())
		}
	}
	c := &Ctx{P: p, ID: id, Tier: tier, Rules: map[string]string{}, Floors: map[string]int{}, Extra: map[string]any{}}
	checks[id](c)
	st, info := selfTest(id, p)
	return c.finish(start, verif, st, info)
}
