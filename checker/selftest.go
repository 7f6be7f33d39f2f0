package main

import (
	"os"
	"path/filepath"
	"strings"
)

// selfTest analyses the small example package testdata/<ID>.go.txt, laid as an
// overlay package next to the module's own packages.  Every function named
// Bad* must be reported, no function named Good* may be.
func selfTest(id string, real *Program) ([]string, map[string]any) {
	info := map[string]any{"examples": 0}
	src, err := os.ReadFile(filepath.Join(checkerDir(), "testdata", id+".go.txt"))
	if err != nil {
		return nil, info
	}
	file := filepath.Join(repoDir(), "zzverif", "zz.go")
	p, err := Load(repoDir(), map[string][]byte{file: src}, "./...", "./zzverif")
	if err != nil {
		// the public API the examples use has changed: the examples cannot
		// be checked, the rules themselves still are.
		info["skipped"] = err.Error()
		return nil, info
	}
	c := &Ctx{P: p, ID: id, Rules: map[string]string{}, Floors: map[string]int{}, Extra: map[string]any{}, fixture: true}
	checks[id](c)
	flagged := map[string]bool{}
	for _, o := range c.Obls {
		if !o.OK && strings.Contains(o.Key, "zzverif.") {
			flagged[o.Key] = true
		}
	}
	var errs []string
	n := 0
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "zzverif" || f.Parent() != nil {
			continue
		}
		name := f.Name()
		hit := false
		for k := range flagged {
			if mentions(k, name) {
				hit = true
			}
		}
		if strings.HasPrefix(name, "Bad") {
			n++
			if !hit {
				errs = append(errs, name+" is not reported")
			}
		} else if strings.HasPrefix(name, "Good") {
			n++
			if hit {
				errs = append(errs, name+" is reported")
			}
		}
	}
	info["examples"] = n
	return errs, info
}

func mentions(key, name string) bool {
	i := strings.Index(key, name)
	for i >= 0 {
		j := i + len(name)
		if j == len(key) || !isIdent(key[j]) {
			if i == 0 || !isIdent(key[i-1]) {
				return true
			}
		}
		k := strings.Index(key[i+1:], name)
		if k < 0 {
			return false
		}
		i += 1 + k
	}
	return false
}

func isIdent(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func checkerDir() string {
	if d := os.Getenv("VERIF_CHECKER"); d != "" {
		return d
	}
	return "/verif/checker"
}
