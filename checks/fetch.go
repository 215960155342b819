package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C31", "Abstract interpretation of the package-list downloads under every failing step and server response, with every combination of failed and successful lists of a repository, and of the propagation of the failure to the planning.", c31)
}

const (
	fnFetch   = "(*cran.RepoDb).FetchPackages"
	fnNewRepo = "cran.NewRepoDb"
	fnNewDb   = "cran.NewPkgDb"
)

// fieldOfType names the field of a struct whose type is accepted.
func fieldOfType(t types.Type, is func(types.Type) bool) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			return s.Field(i).Name()
		}
	}
	return ""
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func isDescMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && hasSuffix(types.TypeString(m.Elem(), nil), "desc.Desc")
}

func isNamed(name string) func(types.Type) bool {
	return func(t types.Type) bool { return hasSuffix(types.TypeString(t, nil), name) }
}

func c31(c *C) {
	c.Rule("list-failure", "a package list that could not be requested, was refused, or could not be read or parsed is passed on as failed")
	c.Rule("outcome", "the repository fails, and caches nothing, when none of its lists could be read; otherwise the lists read are kept and cached")
	c.Rule("stored", "the packages stored for a source type are those read from the list of that type")
	c.Rule("propagated", "the failure of a repository is the failure of the package database, and ends the planning")
	fn := c.Fn(fnFetch)
	c.Fn(fnEncode)

	// one list
	sends := 0
	for _, status := range []int64{200, 301, 400, 403, 404, 429, 500, 502, 503} {
		what := fmt.Sprintf("server response %d", status)
		e := c.Eng()
		fetchEnv(c, e)
		m := &Model{Atom: func(t *engine.Term) (any, bool) {
			if isField(t, "StatusCode") {
				return status, true
			}
			return nil, false
		}}
		m.Use(e)
		good := 0
		prev := e.Call
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name == "send" {
				for _, v := range ev.Arg(1) {
					ef := fieldOfType(v.Type, isErrorType)
					if ef == "" || fieldOfType(v.Type, isDescMap) == "" {
						continue
					}
					sends++
					c.Need(ev.G.Auto["sent"] != "1", "list-failure", "one result per list", where(ev), "a second result is passed on for one list")
					ev.G.Auto["sent"] = "1"
					err := e.FieldOf(ev.G, engine.Val{v}, ef)
					bad := ev.G.Auto["failed"]
					if ev.G.Auto["got"] == "1" && status != 200 {
						bad = what
					}
					c.Obl("list-failure", "package list")
					if bad != "" && !e.IsNonNil(ev.G, err) {
						c.Fail("list-failure", "package list", where(ev), "after "+bad+" failed, the list is passed on with the error "+short(e.SV(err)), ev.G.Path(10))
					}
					if bad == "" && !e.IsNonNil(ev.G, err) {
						good++
					}
				}
			}
			return prev(ev)
		}
		e.Go = func(_ *ssa.Go, g *engine.G, end bool) {
			if end {
				c.Need(g.Auto["sent"] == "1", "list-failure", "one result per list", "", "a goroutine ends without passing on a result")
			}
			for _, k := range []string{"failed", "got", "sent"} {
				delete(g.Auto, k)
			}
		}
		e.Run(fn, e.Start())
		c.Absorb(e)
		if status == 200 {
			c.Min("list-failure", good, 1, "lists passed on as read")
		}
	}
	c.Min("list-failure", sends, 1, "lists passed on")

	// one and two lists
	for _, n := range []int{1, 2} {
		c31outcome(c, fn, n)
	}
	c31propagated(c)
}

// fetchEnv gives the steps of a fetch their outcomes.
func fetchEnv(c *C, e *engine.Eng) {
	e.MaxParts = 300
	noURL(c, e)
	e.Opaque[fnEncode] = true
	e.Opaque["(*cran.RepoDb).Decode"] = true
	e.Opaque["(*cran.RepoDb).GetRepoDbCacheFilePath"] = true
	delete(e.Opaque, "desc.ParseDesc")
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		set := func(what string) []engine.Outcome {
			return okFail(ev, nil, map[string]string{"failed": what})
		}
		switch {
		case ev.Name == "desc.ParseDesc":
			return set("parsing a package's entry")
		case hasSuffix(ev.Name, "http.Client).Get") || hasSuffix(ev.Name, "http.Client).Do") || ev.Name == "net/http.Get":
			return okFail(ev, map[string]string{"got": "1"}, map[string]string{"failed": "the request"})
		case ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll" || ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile" || ev.Name == "io.Copy" || hasSuffix(ev.Name, ".ReadFrom"):
			return set("reading the list")
		case ev.Name == "os.Open":
			return set("opening the list")
		}
		return nil
	}
}

// c31outcome runs the fetch of a repository with n lists and follows how many
// were received and how many of them had failed.
func c31outcome(c *C, fn *ssa.Function, n int) {
	e := c.Eng()
	e.Unroll, e.Fine = true, true
	e.MaxParts = 600
	noURL(c, e)
	e.Opaque["(*cran.RepoDb).Decode"] = true
	e.Opaque["(*cran.RepoDb).GetRepoDbCacheFilePath"] = true
	m := &Model{Atom: func(t *engine.Term) (any, bool) {
		if t.Op == "call" && t.Str == "len" && isField(t.Args[0], "DescriptionsBySourceType") {
			return int64(n), true
		}
		if t.Op == "call" && t.Str == "empty" && isField(t.Args[0], "DescriptionsBySourceType") {
			return n == 0, true
		}
		return nil, false
	}}
	m.Use(e)
	what := fmt.Sprintf("repository with %d list(s)", n)
	// the goroutines are replaced by the two results they can have
	e.GoMode = "skip"
	ranged := false
	var good, bad *engine.Term
	e.Recv = func(in ssa.Instruction, et types.Type) engine.Val {
		if fieldOfType(et, isErrorType) == "" || fieldOfType(et, isDescMap) == "" {
			return nil
		}
		good, bad = e.Sym("list read", et), e.Sym("list failed", et)
		return engine.Val{good, bad}
	}
	e.SplitRecv = func(in ssa.Instruction, ctx *engine.Ctx, v *engine.Term, g *engine.G) {
		ef := fieldOfType(v.Type, isErrorType)
		if ef == "" || fieldOfType(v.Type, isDescMap) == "" {
			return
		}
		k := "ok"
		isNil := eqT(e, e.Field(v, ef, types.Universe.Lookup("error").Type()), e.Nil())
		if v == bad {
			k = "bad"
		}
		g.Facts[isNil] = v == good
		if u, ok := in.(*ssa.UnOp); ok && u.CommaOk {
			ranged = true
		}
		g.Auto["results"] += k + " "
	}
	enc, stored := 0, 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch {
		case ev.Name == fnEncode:
			enc++
			ev.G.Auto["encoded"] = "1"
			bad, all := tally(ev.G.Auto["results"])
			if all != n {
				return okFail(ev, nil, map[string]string{"encode": "failed"})
			}
			c.Need(bad < all, "outcome", what+" cached", where(ev), fmt.Sprintf("cached after %d of %d lists had failed", bad, all))
			return okFail(ev, nil, map[string]string{"encode": "failed"})
		case ev.Name == "mapstore" && ev.Arg(0).Any(func(t *engine.Term) bool { return isField(t, "DescriptionsBySourceType") }):
			for _, k := range ev.Arg(1) {
				for _, v := range ev.Arg(2) {
					f, kf := deref(v), deref(k)
					if f.Op != "field" {
						continue // an empty list made beforehand
					}
					stored++
					con := what + ": list stored"
					c.Obl("stored", con)
					if kf.Op != "field" || kf.Args[0] != f.Args[0] {
						c.Fail("stored", con, where(ev), short(e.S(f))+" is stored for "+short(e.S(kf)), ev.G.Path(6))
					}
					if f.Args[0] == bad {
						c.Fail("stored", con, where(ev), "a list that failed is stored", ev.G.Path(6))
					}
				}
			}
		}
		switch ev.Name {
		case "desc.ParseDesc":
			return okFail(ev, nil, nil)
		}
		return nil
	}
	bads := map[string]bool{}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		rs := x.G.Auto["results"]
		if rs == "" {
			continue // from the cache
		}
		bad, all := tally(rs)
		bads[fmt.Sprintf("%d of %d failed", bad, all)] = true
		at := c.P.InstrPos(x.At)
		con := fmt.Sprintf("%s, %d failed", what, bad)
		c.Obl("outcome", con)
		switch {
		case all != n && !ranged:
			c.Fail("outcome", con, at, fmt.Sprintf("%d results were awaited", all), x.G.Path(10))
		case all != n:
		case bad == n && !e.IsNonNil(x.G, x.Res[0]):
			c.Fail("outcome", con, at, "no list could be read and the error can be nil: "+short(e.SV(x.Res[0])), x.G.Path(10))
		case bad < n && x.G.Auto["encoded"] != "1":
			c.Fail("outcome", con, at, "a list was read and nothing is cached", x.G.Path(10))
		case x.G.Auto["encode"] == "failed":
		case bad < n && !e.IsNil(x.G, x.Res[0]):
			c.Fail("outcome", con, at, "a list was read and the repository fails with "+short(e.SV(x.Res[0])), x.G.Path(10))
		}
	}
	c.Absorb(e)
	c.Min("outcome", len(bads), n+1, "numbers of failed lists, "+what)
	c.Min("stored", stored, 1, "lists stored, "+what)
	c.Min("outcome", enc, 1, "places that cache the lists, "+what)
}

func tally(rs string) (bad, all int) {
	w := ""
	for _, r := range rs {
		if r != ' ' {
			w += string(r)
			continue
		}
		all++
		if w != "ok" {
			bad++
		}
		w = ""
	}
	return
}

func c31propagated(c *C) {
	// one repository
	fn := c.Fn(fnNewRepo)
	e := c.Eng()
	noURL(c, e)
	n := 0
	e.Opaque["cran.SupportsBinary"] = true
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnFetch {
			n++
			return okFail(ev, map[string]string{"fetched": "ok"}, map[string]string{"fetched": "failed"})
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		at := c.P.FnName(fn)
		c.Obl("propagated", at)
		switch x.G.Auto["fetched"] {
		case "failed":
			if !e.IsNonNil(x.G, x.Res[1]) {
				c.Fail("propagated", at, c.P.InstrPos(x.At), "the lists could not be read and the error can be nil: "+short(e.SV(x.Res[1])), x.G.Path(6))
			}
		case "":
			if !e.IsNonNil(x.G, x.Res[1]) {
				c.Fail("propagated", at, c.P.InstrPos(x.At), "a repository is returned without its lists having been read", x.G.Path(6))
			}
		}
	}
	c.Absorb(e)
	c.Min("propagated", n, 1, "fetches of a repository")

	// all repositories
	fn = c.Fn(fnNewDb)
	e = c.Eng()
	noURL(c, e)
	n = 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnNewRepo {
			return okFail(ev, nil, nil)
		}
		return nil
	}
	e.SplitRecv = func(in ssa.Instruction, ctx *engine.Ctx, v *engine.Term, g *engine.G) {
		ef := ""
		if v.Type != nil {
			ef = fieldOfType(v.Type, isErrorType)
		}
		if ef == "" {
			return
		}
		if !e.IsNil(g, e.FieldOf(g, engine.Val{v}, ef)) {
			n++
			g.Auto["failed"] = "1"
		}
	}
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		at := c.P.FnName(fn)
		c.Obl("propagated", at)
		if x.G.Auto["failed"] == "1" && !e.IsNonNil(x.G, x.Res[1]) {
			c.Fail("propagated", at, c.P.InstrPos(x.At), "a repository failed and the error can be nil: "+short(e.SV(x.Res[1])), x.G.Path(10))
		}
	}
	c.Absorb(e)
	c.Min("propagated", n, 1, "failed repositories received")

	// planning
	fn = c.Fn(fnPlanning)
	e = c.Eng()
	n = 0
	e.Relevant = rel(`^cran\.NewPkgDb$`)
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnNewDb {
			n++
			return okFail(ev, map[string]string{"db": "ok"}, map[string]string{"db": "failed"})
		}
		if ev.G.Auto["db"] == "failed" && ev.Callee != nil && c.P.InModule(ev.Callee) {
			if strings.Contains(ev.Name, "PkgNexus).") || strings.HasPrefix(ev.Name, "gpsr.") || strings.HasPrefix(ev.Name, "rollback.") {
				c.Fail("propagated", c.P.FnName(fn), where(ev), "the planning goes on without a repository", ev.G.Path(6))
			}
		}
		return nil
	}
	for _, x := range e.Run(fn, e.Start()) {
		c.Obl("propagated", c.P.FnName(fn))
		if x.Kind == "return" && x.G.Auto["db"] != "ok" {
			c.Fail("propagated", c.P.FnName(fn), c.P.InstrPos(x.At), "the planning returns although a repository could not be read", x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Min("propagated", n, 1, "package databases made by the planning")
}
