package checks

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C17", "Typestate of every file written on the way into a cache (opened, written, closed, moved), over every outcome of every file operation, for the package downloads, the package databases, the built binaries and the extracted tarballs.", c17)
	register("C35", "Abstract interpretation of the download of one package under every class of server response and every failing operation, of the collection of the downloads, and of the installation of a package without one.", c35)
}

const (
	fnDownload1 = "cran.DownloadPackage"

	fnEncode  = "(*cran.RepoDb).Encode"
	fnExtract = "internal/archive.Extract"
)

// zeroOr reports values that are certainly the empty string.
func emptyStr(e *engine.Eng, g *engine.G, v engine.Val) bool {
	return v.All(func(t *engine.Term) bool {
		s, ok := t.ConstString()
		return ok && s == "" || t.Op == "zero"
	})
}

func c17(c *C) {
	c.Rule("moved-into-place", "a file comes under its name in the cache only by being moved there after all of it was written without error and it was closed; it is never written in place")
	c.Rule("result", "what is reported as cached was there before, or was moved into place in this run")
	c.Rule("extracted", "the extraction of an entry, and of an archive, reports no error only if every operation succeeded and what was written was closed")
	c.Assume("Renaming within a directory is atomic; a reader sees the old entry or the new one.")
	c.Assume("goutils.Copy, afero.WriteFile and the like write the whole file and close it when they report no error; the archives library passes on an error of the handler of entries.")

	// package downloads
	fn := c.Fn(fnDownload1)
	e := c.Eng()
	e.MaxParts = 200
	noURL(c, e)
	p := newPublish(c, e)
	moved := func(what string) func(ev *engine.Ev, from, to, st string) {
		return func(ev *engine.Ev, from, to, st string) {
			c.Need(st == "closed", "moved-into-place", what, where(ev), "the file moved into the cache is "+describe(st))
		}
	}
	p.Moved = moved("package file")
	n := 0
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" || e.IsNonNil(x.G, x.Res[1]) {
			continue
		}
		for _, r := range x.Res[0] {
			path := e.FieldOf(x.G, engine.Val{r}, "Path")
			if emptyStr(e, x.G, path) {
				continue
			}
			n++
			c17result(c, p, x, path, "package file")
		}
	}
	c.Absorb(e)
	c.Min("result", n, 2, "ways a package file is reported")
	c.Min("moved-into-place", p.moves, 1, "package files moved")

	// package databases
	fn = c.Fn(fnEncode)
	e = c.Eng()
	p = newPublish(c, e)
	p.Moved = moved("package database")
	n = 0
	final := engine.Val{}
	for _, x := range e.Run(fn, e.Start()) {
		if len(final) == 0 {
			final = engine.Val{paramOf(e, fn, len(fn.Params)-1)}
		}
		if x.Kind != "return" || e.IsNonNil(x.G, x.Res[0]) {
			continue
		}
		n++
		c17result(c, p, x, final, "package database")
	}
	c.Absorb(e)
	c.Min("result", n, 1, "ways a package database is written")
	// nothing else writes one
	fetch := c.Fn("(*cran.RepoDb).FetchPackages")
	e = c.Eng()
	e.Opaque[fnEncode] = true
	e.Opaque["(*cran.RepoDb).GetRepoDbCacheFilePath"] = true
	noURL(c, e)
	n = 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnEncode {
			n++
		}
		for _, f := range fsEffects(ev) {
			switch f.Kind {
			case "write", "rename":
				c.Fail("moved-into-place", "package database", where(ev), "the package database is written outside "+fnEncode, ev.G.Path(6))
			}
		}
		return nil
	}
	e.Relevant = rel(`Encode$|Decode$|GetRepoDbCacheFilePath`, mutatingFS)
	e.Run(fetch, e.Start())
	c.Absorb(e)
	c.Min("moved-into-place", n, 1, "package databases written")

	// built binaries: whatever the handler of an update writes
	c17built(c)

	// extracted tarballs
	fn = c.Fn("cmd.untar")
	e = c.Eng()
	e.MaxParts = 100
	e.Opaque[fnExtract] = true
	p = newPublish(c, e)
	p.Moved = moved("extracted tarball")
	nx := 0
	prev := e.Call
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Name == fnExtract {
			nx++
			k := p.key(ev.Arg(1))
			return okFail(ev, map[string]string{"f:" + k: "closed"}, map[string]string{"f:" + k: "bad"})
		}
		return prev(ev)
	}
	n = 0
	for _, x := range e.Run(fn, e.Start()) {
		if x.Kind != "return" {
			continue
		}
		for _, r := range x.Res[0] {
			parts := pathParts(r)
			if len(parts) < 2 {
				c.Fail("result", "extracted tarball", c.P.InstrPos(x.At), "the folder returned is not inside a cached extraction: "+short(e.S(r)), nil)
				continue
			}
			n++
			c17result(c, p, x, p.find(parts[:len(parts)-1]), "extracted tarball")
		}
	}
	c.Absorb(e)
	c.Min("moved-into-place", nx, 1, "tarball extractions")
	extractedWhole(c)
	c.Min("result", n, 1, "ways an extracted tarball is used")
}

func describe(st string) string {
	switch st {
	case "new":
		return "still empty"
	case "data":
		return "not closed"
	case "bad":
		return "incomplete: a write or the close failed"
	case "other":
		return "not one written in this run"
	}
	return st
}

// c17result requires that what is at the path on a successful return was
// found there or moved there, and was not written in place.
func c17result(c *C, p *publish, x *engine.Exit, path engine.Val, what string) {
	e := p.e
	pos := c.P.InstrPos(x.At)
	c.Obl("result", what)
	switch st := p.State(x.G, path); st {
	case "closed":
		return
	case "found":
	case "":
		c.Fail("result", what, pos, "reported as cached although it was neither found nor moved into place: "+short(e.SV(path)), x.G.Path(8))
	case "in place":
		c.Fail("moved-into-place", what, pos, "written in place under its name in the cache, where an interrupted run leaves it incomplete", x.G.Path(8))
	default:
		c.Fail("result", what, pos, "reported as cached although it is "+describe(st), x.G.Path(8))
	}
}

// paramOf is the symbol of a parameter.
func paramOf(e *engine.Eng, fn *ssa.Function, i int) *engine.Term {
	return e.Sym(fn.Params[i].Name(), fn.Params[i].Type())
}

// noURL keeps the construction of addresses out of an analysis.
func noURL(c *C, e *engine.Eng) {
	for _, n := range []string{"cran.cranBinaryURL", "cran.GetPackagesFileURL", "cran.binaryName", "cran.ReadOsRelease", "cran.RepoURLHash", "(cran.RVersion).ToString", "(cran.RVersion).ToFullString", "cran.isRVersionCompatible", "desc.ParseDesc"} {
		if c.P.Func(n) != nil {
			e.Opaque[n] = true
		}
	}
}

// c17built looks at every file that is written while the plan runs: outside
// the temporary folders and the library, only by moving complete files.
func c17built(c *C) {
	fn := c.Fn(fnPlan)
	e := c.Eng()
	e.MaxParts = 100
	e.SymMaps = true
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnTwoPhase:
			return installOutcomes(ev, nil, nil)
		case "(*cran.PkgMap).Get":
			return symRes(ev, "download", "downloaded")
		}
		return nil
	}
	e.Relevant = rel(`InstallQueue|Worker\)|^rcmd\.New|InstallThroughBinary`, mutatingFS)
	for _, n := range []string{"(*gpsr.InstallPlan).GetNumPackagesToInstall", "(gpsr.InstallPlan).GetNumPackagesToInstall", "(*gpsr.InstallPlan).InvertDependencies", "(gpsr.InstallPlan).InvertDependencies", "(*cran.PkgMap).Get"} {
		e.Opaque[n] = true
	}
	p := newPublish(c, e)
	n := 0
	p.Moved = func(ev *engine.Ev, from, to, st string) {
		n++
		c.Need(st == "closed", "moved-into-place", "built binary", where(ev), "the file moved into the cache is "+describe(st))
	}
	e.Run(fn, e.Start())
	c.Absorb(e)
	for k, at := range p.direct {
		c.Need(p.movedFrom[k], "moved-into-place", "built binary", at, "written in place, where an interrupted run leaves it incomplete: "+short(e.SV(p.paths[k])))
	}
	c.Min("moved-into-place", n, 1, "built binaries moved into the cache")
}

func c35(c *C) {
	c.Rule("response", "a server response other than success is a failed download, and its body never becomes a package file")
	c.Rule("failure", "a download in which anything failed reports an error")
	c.Rule("recorded", "a download is recorded under its package's name exactly when it succeeded")
	c.Rule("attempted", "every package of the plan is attempted")
	c.Rule("no-file", "a package without a package file is never passed to R")
	fn := c.Fn(fnDownload1)
	for _, status := range []int64{200, 302, 400, 403, 404, 410, 429, 500, 502, 503, 504} {
		what := fmt.Sprintf("server response %d", status)
		e := c.Eng()
		e.MaxParts = 200
		noURL(c, e)
		m := &Model{Atom: func(t *engine.Term) (any, bool) {
			if isField(t, "StatusCode") {
				return status, true
			}
			return nil, false
		}}
		m.Use(e)
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			switch {
			case hasSuffix(ev.Name, "http.Client).Get") || hasSuffix(ev.Name, "http.Client).Do") || ev.Name == "net/http.Get":
				return okFail(ev, map[string]string{"got": "1"}, map[string]string{"failed": "1"})
			case hasSuffix(ev.Name, ".Open") && errIndex(ev) >= 0:
				return okFail(ev, nil, map[string]string{"failed": "1"})
			}
			return nil
		}
		p := newPublish(c, e)
		p.Moved = func(ev *engine.Ev, from, to, st string) {
			if status != 200 && ev.G.Auto["got"] == "1" {
				c.Fail("response", what, where(ev), "the body of the response becomes a package file", ev.G.Path(8))
			}
		}
		good := 0
		c.Obl("response", what)
		c.Obl("failure", "download result")
		for _, x := range e.Run(fn, e.Start()) {
			if x.Kind != "return" || e.IsNonNil(x.G, x.Res[1]) {
				continue
			}
			if x.G.Auto["got"] == "1" {
				good++
				if status != 200 {
					c.Fail("response", what, c.P.InstrPos(x.At), "the error of the download can be nil: "+short(e.SV(x.Res[1])), x.G.Path(10))
				}
			}
			if x.G.Auto["failed"] == "1" {
				c.Fail("failure", "download result", c.P.InstrPos(x.At), "something failed and the error of the download can be nil: "+short(e.SV(x.Res[1])), x.G.Path(10))
			}
		}
		c.Absorb(e)
		if status == 200 {
			c.Min("response", good, 1, "successful downloads")
		}
	}

	// all packages
	fn = c.Fn(fnDownload)
	e := c.Eng()
	e.GoMode = "seq"
	noURL(c, e)
	each := newEach(e)
	list := e.Sym(fn.Params[1].Name(), fn.Params[1].Type())
	each.Track("pkgs", func(coll *engine.Term) bool { return coll == list })
	isPkg := func(t *engine.Term) bool {
		t = deref(t)
		return t.Op == "elem" && engine.Strip(t.Args[0]) == list
	}
	nd, np := 0, 0
	did, skipped := map[string]string{}, map[string]string{} // by loop
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		switch ev.Name {
		case fnDownload1:
			nd++
			own := ev.Arg(1).All(func(t *engine.Term) bool { return isPkg(t) || fromElem(t, isPkg) })
			c.Need(own, "recorded", "package downloaded", where(ev), "not the package of this iteration: "+short(e.SV(ev.Arg(1))))
			return okFail(ev, map[string]string{"dl": "ok", "did:pkgs": "1"}, map[string]string{"dl": "fail", "did:pkgs": "1"})
		case "(*cran.PkgMap).Put":
			np++
			c.Need(ev.G.Auto["dl"] == "ok", "recorded", "failed download", where(ev), "a download that failed is recorded")
			c.Need(ev.Arg(1).All(func(t *engine.Term) bool { return chain(t, isPkg, "Package", "Package") || fromElemField(t, isPkg) }), "recorded", "name of a download", where(ev), "recorded under "+short(e.SV(ev.Arg(1))))
			c.Need(ev.Arg(2).All(func(t *engine.Term) bool {
				return strings.HasPrefix(t.Str, fnDownload1) || strings.Contains(e.S(t), fnDownload1)
			}), "recorded", "what is recorded", where(ev), "not the result of the download: "+short(e.SV(ev.Arg(2))))
			ev.G.Auto["dl"] = "put"
			return []engine.Outcome{{}}
		}
		return nil
	}
	each.Iter = func(key string, coll *engine.Term, g *engine.G, at string) {
		if g.Auto["did:pkgs"] != "" {
			did[g.Auto["in:pkgs"]] = at
		} else {
			skipped[g.Auto["in:pkgs"]] = at
		}
		c.Need(g.Auto["dl"] != "ok", "recorded", "successful download", at, "a download that succeeded is not recorded")
		delete(g.Auto, "dl")
	}
	e.Relevant = rel(`DownloadPackage$|PkgMap\)`, mutatingFS)
	e.Run(fn, e.Start())
	c.Absorb(e)
	c.Min("attempted", len(did), 1, "loops that download packages")
	for l, at := range did {
		c.Need(skipped[l] == "", "attempted", "packages of "+at, at, "a package is passed over without a download")
	}
	c.Min("attempted", nd, 1, "downloads started")
	c.Min("recorded", np, 1, "downloads recorded")

	// installation without a package file
	fn = c.Fn(fnTwoPhase)
	for _, path := range []string{"", "/cache/CRAN-0/src/pkg_1.0.tar.gz"} {
		e = c.Eng()
		for _, n := range []string{"rcmd.binaryName", "rcmd.binaryExt", "cran.RepoURLHash", "(cran.RVersion).ToString"} {
			e.Opaque[n] = true
		}
		req := e.Sym(fn.Params[1].Name(), fn.Params[1].Type())
		m := &Model{Atom: func(t *engine.Term) (any, bool) {
			if chain(t, func(b *engine.Term) bool { return b == req }, "Metadata", "Path") {
				return path, true
			}
			return nil, false
		}}
		m.Use(e)
		runs := 0
		e.Call = func(ev *engine.Ev) []engine.Outcome {
			if ev.Name != fnInstall {
				return nil
			}
			runs++
			if path == "" {
				cached := ev.Arg(2).All(func(t *engine.Term) bool {
					return t.Contains(func(x *engine.Term) bool { s, ok := x.ConstString(); return ok && s == "binary" }) && containsField(t, "BaseDir")
				})
				c.Need(cached, "no-file", "package that was not downloaded", where(ev), "passed to R as "+short(e.SV(ev.Arg(2))))
			}
			return installOutcomes(ev, nil, nil)
		}
		for _, x := range e.Run(fn, e.Start()) {
			_ = x
		}
		c.Absorb(e)
		c.Min("no-file", runs, 1, "install commands looked at, package file "+fmt.Sprintf("%q", path))
	}
}

func fromElem(t *engine.Term, is func(*engine.Term) bool) bool {
	t = deref(t)
	return t.Op == "record" && t.Contains(func(x *engine.Term) bool { return is(x) })
}

func fromElemField(t *engine.Term, is func(*engine.Term) bool) bool {
	t = deref(t)
	return t.Op == "field" && t.Str == "Package" && t.Contains(func(x *engine.Term) bool { return is(x) })
}
