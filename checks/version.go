package checks

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C14", "Abstract evaluation of the version comparison under every ordering of the five components, and a dataflow rule for where each component is read from.", c14)
	register("C15", "Abstract evaluation of the R version constraint under every operator and ordering, and of the operator's recognition.", c15)
	register("C16", "Abstract evaluation of the outdated-package selection under every ordering of the versions, and of what the plan does with it.", c16)
}

var comps = []string{"Major", "Minor", "Patch", "Dev", "Other"}

const (
	fnCompare  = "desc.CompareVersions"
	fnCompareS = "desc.CompareVersionStrings"
	fnParseV   = "desc.ParseVersion"
)

// orderings calls f with every ordering of n components.
func orderings(n int, f func(o []int)) {
	o := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(o)
			return
		}
		for _, v := range []int{-1, 0, 1} {
			o[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

func lexSign(o []int) int {
	for _, v := range o {
		if v != 0 {
			return v
		}
	}
	return 0
}

// versionModel values the components of two versions. Each component has a
// range of its own, so that a comparison with another one shows.
func versionModel(o, base []int, side func(t *engine.Term) int) *Model {
	return &Model{Atom: func(t *engine.Term) (any, bool) {
		if t.Op != "field" {
			return nil, false
		}
		for i, n := range comps {
			if t.Str != n {
				continue
			}
			switch side(deref(t.Args[0])) {
			case 1:
				return int64(base[i] + o[i]), true
			case 2:
				return int64(base[i]), true
			}
		}
		return nil, false
	}}
}

func c14(c *C) {
	c.Rule("ordering", "for each of the 243 orderings of the five components, the comparison returns the sign of the first component that differs")
	c.Rule("components", "component k of a parsed version is the number in the k-th part between dots and dashes, and absent parts count as zero")
	type cs struct {
		name string
		bool bool
	}
	n := 0
	for _, f := range []cs{{fnCompare, false}, {fnCompareS, false}, {"desc.isLowerVersion", true}} {
		fn := c.P.Func(f.name)
		if fn == nil {
			if f.bool {
				continue // not part of the interface
			}
			c.Fn(f.name)
		}
		at := c.P.FnName(fn)
		c.Obl("ordering", at)
		for _, base := range [][]int{{10, 20, 30, 40, 50}, {50, 40, 30, 20, 10}, {5, 5, 5, 5, 5}} {
			orderings(5, func(o []int) {
				n++
				e := c.Eng()
				e.Opaque[fnParseV] = true
				side := func(t *engine.Term) int {
					if t.Op == "call" && t.Str == fnParseV && len(t.Args) == 1 {
						t = deref(t.Args[0])
					}
					if t.Op == "alloc" || t.Op == "param" {
						for i, p := range fn.Params {
							if t.Str == p.Name() {
								return i + 1
							}
						}
					}
					return 0
				}
				m := versionModel(o, base, side)
				m.Use(e)
				for _, x := range e.Run(fn, e.Start()) {
					want := any(int64(lexSign(o)))
					if f.bool {
						want = lexSign(o) < 0
					}
					var got any
					ok := false
					if x.Kind == "return" && len(x.Res) == 1 {
						got, ok = m.EvalVal(x.Res[0])
					}
					if !ok || got != want {
						c.Fail("ordering", at, c.P.InstrPos(x.At), fmt.Sprintf("components compare as %v, the result is %v (%s), it should be %v", o, got, short(fmt.Sprint(x.Kind)), want), nil)
					}
				}
				if o[0] == 0 && o[1] == 0 {
					c.Absorb(e)
				}
			})
		}
	}
	c.Min("ordering", n, 1458, "orderings evaluated")

	fn := c.Fn(fnParseV)
	e := c.Eng()
	xs := e.Run(fn, e.Start())
	c.Absorb(e)
	p := fn.Params[0].Name()
	for _, x := range xs {
		if x.Kind != "return" {
			c.Fail("components", "end of "+fnParseV, c.P.InstrPos(x.At), "parsing a version can end with "+x.Kind, nil)
			continue
		}
		for k, f := range comps {
			at := f
			c.Obl("components", at)
			v := e.FieldOf(x.G, x.Res[0], f)
			n := 0
			for _, t := range v {
				if i, ok := t.ConstInt(); ok && i == 0 || t.Op == "zero" {
					continue
				}
				if why := partNumber(t, p, k); why != "" {
					c.Fail("components", at, c.P.InstrPos(x.At), why+": "+short(e.S(t)), nil)
				}
				n++
			}
			if n == 0 && !shortVersion(e, x.G, k) {
				c.Fail("components", at, c.P.InstrPos(x.At), "the component is not read from the version although it may have it", x.G.Path(6))
			}
		}
		s := e.FieldOf(x.G, x.Res[0], "String")
		c.Obl("components", "String")
		if !s.All(func(t *engine.Term) bool { return t.Op == "param" && t.Str == p }) {
			c.Fail("components", "String", c.P.InstrPos(x.At), "the text kept is "+short(e.SV(s)), nil)
		}
	}
}

// shortVersion: the facts say there is no part k.
func shortVersion(e *engine.Eng, g *engine.G, k int) bool {
	for t, v := range g.Facts {
		if t.Op == "empty" && v {
			return true
		}
		if t.Op != "bin" || t.Str != "<" {
			continue
		}
		if i, ok := t.Args[0].ConstInt(); ok && !v && int(i) <= k && lenArg(t.Args[1]) {
			return true // !(i < len)
		}
		if i, ok := t.Args[1].ConstInt(); ok && v && int(i) <= k+1 && lenArg(t.Args[0]) {
			return true // len < i
		}
	}
	return false
}

func lenArg(t *engine.Term) bool { return t.Op == "call" && t.Str == "len" }

// partNumber checks that t is the number read from part k of the parameter.
func partNumber(t *engine.Term, p string, k int) string {
	t = engine.Strip(t)
	if t.Op != "res" || t.Str != "0" {
		return "not a number read from the version"
	}
	call := t.Args[0]
	if call.Op != "call" || call.Str != "strconv.Atoi" {
		return "not a number read from the version"
	}
	ix := engine.Strip(call.Args[0])
	if (ix.Op != "index" && ix.Op != "elem") || len(ix.Args) < 2 {
		return "not a part of the version"
	}
	if i, ok := ix.Args[1].ConstInt(); !ok || int(i) != k {
		return fmt.Sprintf("read from another part than number %d", k+1)
	}
	sp := engine.Strip(ix.Args[0])
	if sp.Op != "call" {
		return "not a part of the version"
	}
	arg := func(i int) *engine.Term { return engine.Strip(sp.Args[i]) }
	switch sp.Str {
	case "(*regexp.Regexp).Split":
		re := arg(0)
		if re.Op == "load" {
			return "the pattern is not fixed"
		}
		if re.Op != "call" || len(re.Args) == 0 {
			return "the pattern is not fixed"
		}
		pat, ok := re.Args[0].ConstString()
		if !ok {
			return "the pattern is not fixed"
		}
		r, err := regexp.Compile(pat)
		if err != nil {
			return "the pattern does not compile"
		}
		for b := 32; b < 127; b++ {
			sep := b == '.' || b == '-'
			if m := r.MatchString(string(rune(b))); m != sep {
				return fmt.Sprintf("the separator pattern treats %q wrongly", string(rune(b)))
			}
		}
		if i, ok := sp.Args[2].ConstInt(); !ok || i >= 0 && i < 5 && int64(k) >= i-1 {
			return "the split stops before this part ends"
		}
		if a := arg(1); a.Op != "param" || a.Str != p {
			return "not split from the version given"
		}
		return ""
	case "strings.FieldsFunc":
		if a := arg(0); a.Op != "param" || a.Str != p {
			return "not split from the version given"
		}
		return ""
	case "strings.Split":
		if s, ok := sp.Args[1].ConstString(); !ok || s != "." && s != "-" {
			return "split at another separator"
		}
		a := arg(0)
		if a.Op == "call" && (a.Str == "strings.ReplaceAll" || a.Str == "strings.Replace") {
			return ""
		}
		return "split at one of the two separators only"
	}
	return "not a part of the version"
}

func c15(c *C) {
	c.Rule("constraint", "under every operator and ordering, a package is usable exactly when the running R satisfies its constraint; without a constraint it always is")
	c.Rule("applied", "a package of a repository's list is offered exactly when it is usable with the running R and not a special version")
	c.Rule("running", "the version compared with the constraint is the full version of the running R")
	c.Rule("operator", "each operator is recognised as itself, and the version is what remains without it")
	consts := map[string]int64{}
	for _, n := range []string{"None", "GTE", "GT", "Equals", "LTE", "LT"} {
		v, ok := c.P.ConstInt("desc", n)
		if !ok {
			c.Fail("anchor", "desc."+n, "", "the constraint constant no longer exists", nil)
			return
		}
		consts[n] = v
	}
	sat := func(n string, o int) bool {
		switch n {
		case "GTE":
			return o >= 0
		case "GT":
			return o > 0
		case "Equals":
			return o == 0
		case "LTE":
			return o <= 0
		case "LT":
			return o < 0
		}
		return true
	}
	fn := c.Fn("cran.isRVersionCompatible")
	n := 0
	for _, present := range []bool{true, false} {
		for name, cv := range consts {
			for _, o := range []int{-1, 0, 1} {
				if !present && (name != "None" || o != 0) {
					continue
				}
				n++
				e := c.Eng()
				e.Opaque[fnParseV], e.Opaque[fnCompare], e.Opaque[fnCompareS] = true, true, true
				isR := func(t *engine.Term) bool {
					m, k := lookupOf(t)
					if m == nil || !isField(m, "Depends") {
						return false
					}
					s, ok := k.ConstString()
					return ok && s == "R"
				}
				m := &Model{}
				m.Atom = func(t *engine.Term) (any, bool) {
					if t.Op == "haskey" && isR(t) {
						return present, true
					}
					if chain(t, isR, "Constraint") {
						return cv, true
					}
					if t.Op == "call" && (t.Str == fnCompare || t.Str == fnCompareS) && len(t.Args) == 2 {
						a, b := verSide(t.Args[0], isR), verSide(t.Args[1], isR)
						if a == 1 && b == 2 {
							return int64(o), true
						}
						if a == 2 && b == 1 {
							return int64(-o), true
						}
					}
					return nil, false
				}
				m.Use(e)
				at := "constraint " + name
				if !present {
					at = "no constraint"
				}
				c.Obl("constraint", at)
				for _, x := range e.Run(fn, e.Start()) {
					bi := -1
					for i := 0; i < fn.Signature.Results().Len(); i++ {
						if fn.Signature.Results().At(i).Type().String() == "bool" {
							bi = i
						}
					}
					if x.Kind != "return" || bi < 0 {
						c.Fail("constraint", at, c.P.InstrPos(x.At), "ends with "+x.Kind, nil)
						continue
					}
					want := sat(name, o)
					got, ok := m.EvalVal(x.Res[bi])
					if !ok {
						switch {
						case e.IsTrue(x.G, x.Res[bi]):
							got, ok = true, true
						case e.IsFalse(x.G, x.Res[bi]):
							got, ok = false, true
						}
					}
					if !ok || got != any(want) {
						c.Fail("constraint", at, c.P.InstrPos(x.At), fmt.Sprintf("running R %s the version in the constraint: usable is %v, it should be %v", [3]string{"below", "equal to", "above"}[o+1], got, want), nil)
					}
				}
				c.Absorb(e)
			}
		}
	}
	c.Min("constraint", n, 19, "operator and ordering combinations")
	c15running(c)
	c15operators(c, consts)
	c15applied(c)
}

// c15running requires that the version compared with the constraint has all
// components of the running R.
func c15running(c *C) {
	fn := c.Fn("cran.isRVersionCompatible")
	e := c.Eng()
	tx := &Text{M: &Model{Atom: fullVersion}}
	tx.Use(e)
	e.Opaque[fnCompare], e.Opaque[fnCompareS] = true, true
	e.Opaque[fnParseV] = true
	n := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name != fnCompare && ev.Name != fnCompareS {
			return nil
		}
		for i := range ev.Args {
			for _, t := range ev.Arg(i) {
				u := deref(t)
				mine := t.Contains(func(x *engine.Term) bool {
					_, ok := fullVersion(x)
					return ok && !x.Contains(func(y *engine.Term) bool { return y.Op == "field" && y.Str == "Version" })
				})
				if !mine {
					continue
				}
				n++
				c.Obl("running", "version of the running R")
				got := ""
				switch {
				case u.Op == "call" && u.Str == fnParseV:
					got, _ = tx.Norm(u.Args[0])
				case ev.Name == fnCompareS:
					got, _ = tx.Norm(u)
				default:
					got = c19version(e, tx, ev, engine.Val{t})
				}
				if got != "<Major>.<Minor>.<Patch>" {
					c.Fail("running", "version of the running R", where(ev), "the constraint is compared with "+got, ev.G.Path(6))
				}
			}
		}
		return nil
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("running", n, 1, "comparisons with the running R")
}

// verSide tells the running R (1) from the version of the constraint (2).
func verSide(t *engine.Term, isR func(*engine.Term) bool) int {
	t = deref(t)
	if t.Contains(func(x *engine.Term) bool {
		return chain(x, isR, "Version")
	}) {
		return 2
	}
	if t.Contains(func(x *engine.Term) bool {
		return x.Op == "call" && (hasSuffix(x.Str, ".ToFullString") || x.Str == "fmt.Sprintf")
	}) {
		return 1
	}
	return 0
}

func c15operators(c *C, consts map[string]int64) {
	fn := c.Fn("desc.ParseDep")
	ops := map[string]string{">=": "GTE", ">": "GT", "==": "Equals", "<=": "LTE", "<": "LT"}
	for op, name := range ops {
		e := c.Eng()
		e.Opaque[fnParseV] = true
		m := &Model{}
		m.Atom = func(t *engine.Term) (any, bool) {
			if t.Op == "call" && len(t.Args) >= 2 {
				s, isC := t.Args[1].ConstString()
				switch t.Str {
				case "strings.Contains":
					if isC && s != "(" {
						return strings.Contains(" "+op+" 1", s), true
					}
					if isC {
						return true, true
					}
				case "strings.HasPrefix":
					if isC {
						return strings.HasPrefix(op+" 1", s), true
					}
				}
			}
			if lenArg(t) && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Str, "strings.Split") {
				return int64(2), true
			}
			return nil, false
		}
		m.Use(e)
		at := "operator " + op
		c.Obl("operator", at)
		ok := 0
		for _, x := range e.Run(fn, e.Start()) {
			if x.Kind != "return" {
				c.Fail("operator", at, c.P.InstrPos(x.At), "parsing it ends with "+x.Kind, x.G.Path(6))
				continue
			}
			ok++
			cons := e.FieldOf(x.G, x.Res[0], "Constraint")
			if v, k := m.EvalVal(cons); !k || v != any(consts[name]) {
				c.Fail("operator", at, c.P.InstrPos(x.At), "recognised as "+short(e.SV(cons)), x.G.Path(6))
			}
			ver := e.FieldOf(x.G, x.Res[0], "Version")
			if !ver.All(func(t *engine.Term) bool {
				if t.Op != "call" || t.Str != fnParseV {
					return false
				}
				return t.Contains(func(y *engine.Term) bool {
					if y.Op != "call" || len(y.Args) < 2 {
						return false
					}
					switch y.Str {
					case "strings.Replace", "strings.ReplaceAll", "strings.TrimPrefix", "strings.Trim", "strings.TrimLeft", "strings.Split", "strings.SplitN":
						s, ok := y.Args[1].ConstString()
						return ok && strings.TrimSpace(s) == op
					}
					return false
				}) && t.Contains(func(y *engine.Term) bool {
					return y.Op == "call" && (y.Str == "strings.TrimSpace" || y.Str == "strings.Trim" || y.Str == "strings.Fields")
				})
			}) {
				c.Fail("operator", at, c.P.InstrPos(x.At), "the version is read from "+short(e.SV(ver)), x.G.Path(6))
			}
		}
		c.Absorb(e)
		c.Min("operator", ok, 1, "parses of "+op)
	}
}

func c15applied(c *C) {
	fn := c.Fn("(*cran.RepoDb).FetchPackages")
	e := c.Eng()
	e.Relevant = rel(`^cran\.isRVersionCompatible$|^desc\.ParseDesc$`)
	n := 0
	m := &Model{}
	isDesc := func(t *engine.Term) bool {
		return t.Op == "res" && t.Str == "0" && t.Args[0].Op == "call" && t.Args[0].Str == "desc.ParseDesc"
	}
	for _, ok := range []bool{true, false} {
		for _, path := range []string{"", "older"} {
			e = c.Eng()
			e.MaxDepth = 20
			e.Relevant = rel(`^cran\.isRVersionCompatible$|^desc\.ParseDesc$`)
			e.Opaque["desc.ParseDesc"] = true
			m.Atom = func(t *engine.Term) (any, bool) {
				if t.Op == "field" && t.Str == "Path" && isDesc(deref(t.Args[0])) {
					return path, true
				}
				return nil, false
			}
			m.Use(e)
			want := ok && path == ""
			stored := 0
			e.Call = func(ev *engine.Ev) []engine.Outcome {
				switch ev.Name {
				case "cran.isRVersionCompatible":
					ev.G.Auto["checked"] = "1"
					return []engine.Outcome{{Res: []engine.Val{{e.Sym("constraint", resType(ev, 0))}, {e.Bool(ok)}}}}
				case "mapstore":
					if !ev.Arg(2).Any(isDesc) {
						return nil
					}
					n++
					stored++
					at := "package offered in " + c.P.FnName(ev.Fn())
					c.Obl("applied", at)
					if !want {
						c.Fail("applied", at, where(ev), fmt.Sprintf("a package is offered although it is usable=%v with path %q", ok, path), ev.G.Path(6))
					}
					if ev.G.Auto["checked"] != "1" {
						c.Fail("applied", at, where(ev), "a package is offered without its R constraint having been checked", ev.G.Path(6))
					}
					if !ev.Arg(1).All(func(t *engine.Term) bool { return chain(t, isDesc, "Package") }) {
						c.Fail("applied", at, where(ev), "the package is stored under "+short(e.SV(ev.Arg(1))), nil)
					}
				}
				return nil
			}
			e.BackEdge = func(f *ssa.Function, h *ssa.BasicBlock, g *engine.G) { delete(g.Auto, "checked") }
			e.Run(fn, e.Start())
			c.Absorb(e)
			if want {
				c.Min("applied", stored, 1, "usable packages stored")
			}
		}
	}
	c.Min("applied", n, 1, "packages stored")
}

func c16(c *C) {
	c.Rule("newer", "an installed package is listed as outdated exactly when the version offered is newer, with the installed and offered versions")
	c.Rule("all-listed", "every installed package that is offered is looked at")
	fn := c.Fn("pacman.GetOutdatedPackages")
	n := 0
	for _, installed := range []bool{true, false} {
		for _, o := range []int{-1, 0, 1} {
			e := c.Eng()
			e.Opaque[fnParseV], e.Opaque[fnCompare], e.Opaque[fnCompareS] = true, true, true
			isInst := func(t *engine.Term) bool { m, _ := lookupOf(t); return m != nil && m.Op == "param" }
			side := func(t *engine.Term) int {
				t = deref(t)
				if t.Op == "call" && t.Str == fnParseV {
					t = deref(t.Args[0])
				}
				switch {
				case chain(t, isInst, "Version"):
					return 2
				case chain(t, func(b *engine.Term) bool { return b.Op == "elem" && b.Args[0].Op == "param" }, "Package", "Version"):
					return 1
				}
				return 0
			}
			m := &Model{}
			m.Atom = func(t *engine.Term) (any, bool) {
				if t.Op == "haskey" && isInst(t) {
					return installed, true
				}
				if t.Op == "call" && (t.Str == fnCompare || t.Str == fnCompareS) && len(t.Args) == 2 {
					a, b := side(t.Args[0]), side(t.Args[1])
					if a == 1 && b == 2 {
						return int64(o), true
					}
					if a == 2 && b == 1 {
						return int64(-o), true
					}
				}
				return nil, false
			}
			m.Use(e)
			want := installed && o > 0
			at := "list of outdated packages"
			c.Obl("newer", at)
			c.Obl("all-listed", at)
			each := newEach(e)
			each.Track("p", func(t *engine.Term) bool { return t.Op == "param" })
			each.Iter = func(_ string, _ *engine.Term, g *engine.G, w string) {
				if want && g.Auto["did:p"] != "1" {
					c.Fail("newer", at, w, "a package with a newer version on offer is passed over", g.Path(6))
				}
			}
			e.Call = func(ev *engine.Ev) []engine.Outcome {
				if ev.Name != "append" {
					return nil
				}
				n++
				ev.G.Auto["did:p"] = "1"
				if !want {
					c.Fail("newer", at, where(ev), fmt.Sprintf("a package is listed although installed=%v and the version offered compares as %d", installed, o), ev.G.Path(6))
				}
				for _, w := range []struct {
					f  string
					ok func(*engine.Term) bool
				}{
					{"Package", func(t *engine.Term) bool {
						return chain(t, func(b *engine.Term) bool { return b.Op == "elem" }, "Package", "Package")
					}},
					{"OldVersion", func(t *engine.Term) bool { return side(t) == 2 }},
					{"NewVersion", func(t *engine.Term) bool { return side(t) == 1 }},
				} {
					v := e.FieldOf(ev.G, e.Val1(ev.G, ev.Arg(1)), w.f)
					if !v.All(w.ok) {
						c.Fail("newer", at, where(ev), w.f+" is reported as "+short(e.SV(v)), nil)
					}
				}
				return nil
			}
			for _, x := range e.Run(fn, e.Start()) {
				if x.Kind == "return" && x.G.Auto["all:p"] != "1" && !e.IsNil(x.G, x.Res[0]) {
					c.Fail("all-listed", at, c.P.InstrPos(x.At), "returns before having looked at every package", x.G.Path(6))
				}
				if x.Kind == "return" && x.G.Auto["all:p"] != "1" && !factKnown(x.G, true, func(t *engine.Term) bool { return t.Op == "empty" }) {
					c.Fail("all-listed", at, c.P.InstrPos(x.At), "returns before having looked at every package", x.G.Path(6))
				}
			}
			c.Absorb(e)
		}
	}
	c.Min("newer", n, 1, "listings")
}
