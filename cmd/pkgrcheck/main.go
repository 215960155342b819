// pkgrcheck decides properties of /repo by static analysis of its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"

	"verif/checks"
	"verif/engine"
)

func main() {
	repo := flag.String("repo", "/repo", "module to analyse")
	dir := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", "", "quick or thorough")
	all := flag.Bool("all", false, "run every check")
	flag.Parse()
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if *all {
		ids = nil
		for id := range checks.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := engine.Load(*repo)
	rc := 0
	for _, id := range ids {
		if len(ids) > 1 {
			t0 = time.Now()
		}
		if r := checks.Run(p, err, *dir, id, *tier, seed, t0); r != 0 {
			rc = r
		}
	}
	if len(ids) == 0 {
		fmt.Println("usage: pkgrcheck ID...")
		rc = 1
	}
	os.Exit(rc)
}
