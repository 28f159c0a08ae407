package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	prelude := flag.String("prelude", "", "prelude file")
	outDir := flag.String("out", ".", "output directory")
	cover := flag.Bool("cover", false, "emit reachability assertions (they must fail)")
	writeLocals := flag.String("write-locals", "", "write the locals of the functions under contract to this file")
	flag.Parse()
	all := map[string][]local{}
	loops := map[string]map[string]loopVar{}
	pre, err := os.ReadFile(*prelude)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rc := 0
	ld := NewLoader(*repo)
	for _, sf := range flag.Args() {
		spec := &UnitSpec{funcs: map[string]*FuncSpec{}, aliases: map[string]string{}, triggers: map[string]string{}}
		if err := parseSpecFile(spec, sf, true, map[string]bool{}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if us, ok := x.(unsupported); ok {
						fmt.Fprintf(os.Stderr, "%s: %s\n", sf, us.msg)
						rc = 3
						return
					}
					panic(x)
				}
			}()
			u, err := NewUnit(ld, spec)
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s: %v\n", sf, err)
				rc = 3
				return
			}
			u.cover = *cover
			if *writeLocals != "" {
				if _, _, err := u.generate(string(pre)); err != nil {
					fmt.Fprintf(os.Stderr, "%s: %v\n", sf, err)
					rc = 2
				}
				for k, m := range u.loopsNow {
					loops[k] = m
				}
				for k, fi := range u.fns {
					if u.spec.funcs[k] != nil {
						all[k] = localsOf(fi)
					}
				}
				return
			}
			u.loops = loadLoops(filepath.Join(filepath.Dir(sf), "loops.json"))
			u.locals = loadLocals(filepath.Join(filepath.Dir(sf), "locals.json"))
			text, out, err := u.generate(string(pre))
			if err != nil {
				fmt.Fprintf(os.Stderr, "%s: %v\n", sf, err)
				rc = 2
				return
			}
			base := filepath.Join(*outDir, spec.name)
			os.WriteFile(base+".rs", []byte(text), 0o644)
			j, _ := json.MarshalIndent(out, "", " ")
			os.WriteFile(base+".json", j, 0o644)
		}()
	}
	if *writeLocals != "" {
		j, _ := json.MarshalIndent(all, "", " ")
		os.WriteFile(*writeLocals, append(j, '\n'), 0o644)
		j, _ = json.MarshalIndent(loops, "", " ")
		os.WriteFile(filepath.Join(filepath.Dir(*writeLocals), "loops.json"), append(j, '\n'), 0o644)
	}
	os.Exit(rc)
}
