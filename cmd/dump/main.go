// dump prints the calls an entry reaches, with the provenance of their arguments (development aid).
package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"

	"verif/engine"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	rel := flag.String("rel", "", "inlining relevance regexp")
	show := flag.String("show", ".", "calls to show")
	op := flag.String("opaque", "", "comma separated")
	facts := flag.Bool("facts", false, "")
	br := flag.Bool("br", false, "branches")
	max := flag.Int("max", 200, "")
	fine := flag.Bool("fine", false, "")
	fl := flag.Bool("ex", true, "exits")
	flag.Parse()
	p, err := engine.Load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, name := range flag.Args() {
		e := engine.New(p)
		e.UnrollFew = true
		e.Unroll = os.Getenv("UNROLL") != ""
		e.Fine = *fine
		e.InitGlobals()
		for _, o := range strings.Split(*op, ",") {
			if o != "" {
				e.Opaque[o] = true
			}
		}
		if *rel != "" {
			re := regexp.MustCompile(*rel)
			e.Relevant = re.MatchString
		}
		sh := regexp.MustCompile(*show)
		n := 0
		seen := map[string]bool{}
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if !sh.MatchString(ev.Name) {
				return nil
			}
			var as []string
			for _, a := range ev.Args {
				as = append(as, e.SV(a))
			}
			s := fmt.Sprintf("%s %s %s(%s)", ev.Pos(), ev.Kind, ev.Name, strings.Join(as, ", "))
			if *facts {
				for f, v := range ev.G.Facts {
					s += fmt.Sprintf("\n      %v %s", v, e.S(f))
				}
			}
			if !seen[s] && n < *max {
				seen[s] = true
				n++
				fmt.Println(s)
			}
			return nil
		}
		if *br {
			e.Branch = func(b *engine.BranchEv) {
				s := fmt.Sprintf("branch %s %v %s", e.P.InstrPos(b.If), b.Val, e.S(b.Term))
				if !seen[s] && n < *max {
					seen[s] = true
					n++
					fmt.Println(s)
				}
			}
		}
		xs := e.Run(p.Func(name), e.Start())
		if *fl {
			for _, x := range xs {
				e.Dump(x)
			}
		}
		fmt.Println("steps", e.Steps, "terms", e.NumTerms(), "maxparts", e.MaxPartsSeen)
	}
}
