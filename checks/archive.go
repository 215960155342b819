package checks

import (
	"fmt"
	"strings"

	"verif/engine"
)

func init() {
	register("C20", "Abstract interpretation of the extraction of an archive: every path that an entry leads to is followed from the entry's name to the file operation, with what was established about the name on the way, over every kind of entry and outcome of every operation.", c20)
}

// extraction is the interpretation of archive.Extract, with its handler of
// entries.
type extraction struct {
	e        *engine.Eng
	p        *publish
	extracts int
	handled  int
	// effect sees each file operation of the handler; root says that it goes
	// through a handle that cannot leave its folder.
	effect func(ev *engine.Ev, f Effect, handler, root bool)
	end    func(x *engine.Exit, handler bool)
}

func isRootMethod(ev *engine.Ev) string {
	if strings.HasPrefix(ev.Name, "(*os.Root).") {
		return ev.Name[len("(*os.Root)."):]
	}
	return ""
}

// rootEffects are the effects through an os.Root.
func rootEffects(ev *engine.Ev) []Effect {
	switch isRootMethod(ev) {
	case "Create", "WriteFile":
		return []Effect{{Kind: "write", Path: ev.Arg(1)}}
	case "OpenFile":
		if readOnlyFlag(ev.Arg(2)) {
			return nil
		}
		return []Effect{{Kind: "write", Path: ev.Arg(1)}}
	case "Mkdir", "MkdirAll":
		return []Effect{{Kind: "mkdir", Path: ev.Arg(1)}}
	case "Remove":
		return []Effect{{Kind: "remove", Path: ev.Arg(1)}}
	case "RemoveAll":
		return []Effect{{Kind: "removeall", Path: ev.Arg(1)}}
	case "Rename":
		return []Effect{{Kind: "rename", Path: ev.Arg(1), To: ev.Arg(2)}}
	case "Symlink", "Link":
		return []Effect{{Kind: "link", Path: ev.Arg(2)}}
	case "Chmod", "Chown", "Chtimes", "Lchown":
		return []Effect{{Kind: "chmod", Path: ev.Arg(1)}}
	}
	return nil
}

func (x *extraction) run(c *C) {
	fn := c.Fn(fnExtract)
	e := c.Eng()
	e.MaxParts = 200
	x.e = e
	x.p = newPublish(c, e)
	inHandler := false
	prev := e.Call
	var handle func(ev *engine.Ev) []engine.Outcome
	handle = func(ev *engine.Ev) []engine.Outcome {
		if ev.Callee != nil && e.P.InModule(ev.Callee) {
			return nil
		}
		fs, root := fsEffects(ev), false
		if r := rootEffects(ev); r != nil {
			fs, root = r, true
		}
		for _, f := range fs {
			if x.effect != nil {
				x.effect(ev, f, inHandler, root)
			}
		}
		if ev.Name == "os.OpenRoot" {
			// the handle keeps the folder it was opened on
			h := e.T("call", "opened", resType(ev, 0), e.Alt(ev.Arg(0)))
			return []engine.Outcome{
				{Res: []engine.Val{{h}, {e.Nil()}}},
				{Res: []engine.Val{{e.Nil()}, {e.NonNilErr(ev.Name)}}, Set: map[string]string{"failed": "1"}},
			}
		}
		if root && fs[0].Kind == "write" {
			k := x.p.key(fs[0].Path)
			x.p.writes++
			h := e.Sym("file:"+k, resType(ev, 0))
			x.p.handle[h] = k
			return []engine.Outcome{
				{Res: []engine.Val{{h}, {e.Nil()}}, Set: map[string]string{"f:" + k: "new"}},
				{Res: []engine.Val{{e.Nil()}, {e.NonNilErr(ev.Name)}}, Set: map[string]string{"failed": "1"}},
			}
		}
		if hasSuffix(ev.Name, ".Extract") && !inHandler {
			for i := range ev.Args {
				for _, t := range ev.Arg(i) {
					t = engine.Strip(t)
					if (t.Op != "func" && t.Op != "closure") || len(t.Fn.Blocks) == 0 {
						continue
					}
					x.extracts++
					inHandler = true
					for _, r := range e.RunCallback(ev, t) {
						x.handled++
						x.end(r, true)
					}
					inHandler = false
				}
			}
			return okFail(ev, map[string]string{"extracted": "1"}, map[string]string{"failed": "1"})
		}
		if o := prev(ev); o != nil {
			return o
		}
		// any other operation that can fail, except closing what is only read
		if errIndex(ev) >= 0 && !hasSuffix(ev.Name, ".Close") && !strings.HasPrefix(ev.Name, "fmt.") && !strings.HasPrefix(ev.Name, "errors.") {
			return okFail(ev, nil, map[string]string{"failed": "1"})
		}
		return nil
	}
	e.Call = handle
	for _, r := range e.Run(fn, e.Start()) {
		x.end(r, false)
	}
	c.Absorb(e)
}

// extractedWhole: an extraction without an error extracted everything.
func extractedWhole(c *C) {
	x := &extraction{}
	ok := 0
	x.end = func(r *engine.Exit, handler bool) {
		at := "extraction"
		if handler {
			at = "entry of an archive"
		}
		pos := c.P.InstrPos(r.At)
		c.Obl("extracted", at)
		if r.Kind != "return" {
			return
		}
		if x.e.IsNonNil(r.G, r.Res[0]) {
			return
		}
		// the result of the last operation passed on as it is
		if r.G.Auto["failed"] != "" {
			c.Fail("extracted", at, pos, "something failed and the result can be "+short(x.e.SV(r.Res[0])), r.G.Path(8))
			return
		}
		if !handler && r.G.Auto["extracted"] == "" {
			c.Fail("extracted", at, pos, "nothing was extracted and no error is returned", r.G.Path(8))
			return
		}
		ok++
		for k, v := range r.G.Auto {
			if strings.HasPrefix(k, "f:") && v != "closed" {
				c.Fail("extracted", at, pos, "no error is returned although the file written is "+describe(v), r.G.Path(8))
			}
		}
	}
	x.run(c)
	c.Min("extracted", x.extracts, 1, "handlers of archive entries")
	c.Min("extracted", ok, 3, "ways an entry or an archive is extracted")
	c.Min("extracted", x.p.writes, 1, "writes of an entry's content")
}

func c20(c *C) {
	c.Rule("contained", "what is created for an entry is created through a handle that cannot leave its folder, or under the folder with a name established to be local")
	c.Rule("folder", "outside the handling of entries only the folder to extract to is removed or created, and the handle entries are written through is of that folder")
	c.Rule("kinds", "only directories and regular files are created; entries of any other kind fail the extraction")
	c.Rule("fresh", "the package is extracted to a name of its own in the cache that includes the process, and only that name is ever cleared")
	c.Assume("An os.Root does not follow names or links out of its folder. A local name (filepath.IsLocal) joined to a folder that contains no links stays in it; the extraction creates no links.")
	x := &extraction{}
	var entries, other int
	fn := c.Fn(fnExtract)
	x.effect = func(ev *engine.Ev, f Effect, handler, root bool) {
		at := f.Kind + " in the extraction"
		e := x.e
		dir := func(v engine.Val) bool {
			return v.All(func(t *engine.Term) bool {
				t = engine.Strip(t)
				return t.Op == "param" && t.Str == fn.Params[1].Name()
			})
		}
		if f.Kind == "link" {
			c.Fail("kinds", at, where(ev), "a link is created", ev.G.Path(8))
			return
		}
		if !handler {
			other++
			c.Need(!root && (f.Kind == "removeall" || f.Kind == "mkdir") && dir(f.Path), "folder", at, where(ev), f.Kind+" of "+short(e.SV(f.Path)))
			return
		}
		entries++
		if root {
			ok := rootOf(e, ev.Arg(0), dir)
			c.Need(ok, "contained", at, where(ev), "the handle is not of the folder to extract to: "+short(e.SV(ev.Arg(0))))
			return
		}
		c.Obl("contained", at)
		for _, t := range f.Path {
			if why := inside(e, ev.G, t, dir); why != "" {
				c.Fail("contained", at, where(ev), why+": "+short(e.S(t)), ev.G.Path(8))
			}
		}
		if f.Kind != "mkdir" {
			c.Fail("contained", at, where(ev), "a "+f.Kind+" that can follow a link out of the folder", ev.G.Path(8))
		}
	}
	kinds := 0
	x.end = func(r *engine.Exit, handler bool) {
		if !handler || r.Kind != "return" || x.e.IsNonNil(r.G, r.Res[0]) {
			return
		}
		// which kind of entry this is
		kind := ""
		for t, v := range r.G.Facts {
			if v && t.Op == "call" {
				for _, k := range []string{"IsDir", "IsRegular"} {
					if strings.HasSuffix(t.Str, "FileMode)."+k) || strings.HasSuffix(t.Str, "FileInfo).IsDir") && k == "IsDir" {
						kind = k
					}
				}
			}
		}
		kinds++
		c.Need(kind != "", "kinds", "entry extracted", c.P.InstrPos(r.At), "an entry that is neither a directory nor a regular file is accepted")
	}
	x.run(c)
	c.Min("contained", entries, 2, "file operations for an entry")
	c.Min("folder", other, 2, "file operations on the folder")
	c.Min("kinds", kinds, 2, "kinds of entry accepted")

	// where it is extracted to
	untar := c.Fn("cmd.untar")
	e := c.Eng()
	e.Opaque[fnExtract] = true
	n := 0
	own := func(u *engine.Term) bool {
		return u.Op == "call" && (u.Str == "os.Getpid" || strings.Contains(u.Str, "TempDir") || strings.Contains(u.Str, "MkdirTemp"))
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		for _, f := range fsEffects(ev) {
			if f.Kind != "remove" && f.Kind != "removeall" {
				continue
			}
			for _, t := range f.Path {
				p := pathParts(t)
				if !p[len(p)-1].Contains(own) || t.Contains(func(u *engine.Term) bool {
					return u.Op == "call" && u.Str == "path/filepath.Dir" && u.Contains(own)
				}) {
					c.Fail("fresh", "what is removed", where(ev), "not only what this run extracted is removed: "+short(e.S(t)), ev.G.Path(6))
				}
			}
		}
		if ev.Name == fnExtract {
			n++
			v := ev.Arg(1)
			c.Obl("fresh", "folder to extract to")
			for _, t := range v {
				if !t.Contains(own) {
					c.Fail("fresh", "folder to extract to", where(ev), "another run may be using "+short(e.S(t)), nil)
				}
				p := pathParts(t)
				if len(p) == 0 || !startsInCache(e, p[0]) {
					c.Fail("fresh", "folder to extract to", where(ev), "not in the cache: "+short(e.S(t)), nil)
				}
			}
		}
		return nil
	}
	e.Run(untar, e.Start())
	c.Absorb(e)
	c.Min("fresh", n, 1, "extractions")
}

func startsInCache(e *engine.Eng, t *engine.Term) bool {
	return t.Contains(func(u *engine.Term) bool {
		return u.Op == "param" && strings.Contains(strings.ToLower(u.Str), "cache") || u.Op == "call" && strings.Contains(u.Str, "Cache")
	})
}

// rootOf: the handle was opened on the folder.
func rootOf(e *engine.Eng, v engine.Val, dir func(engine.Val) bool) bool {
	return v.All(func(t *engine.Term) bool {
		return t.Contains(func(u *engine.Term) bool {
			return u.Op == "call" && u.Str == "opened" && dir(engine.Val{u.Args[0]})
		})
	})
}

// inside explains why the path may lead out of the folder.
func inside(e *engine.Eng, g *engine.G, t *engine.Term, dir func(engine.Val) bool) string {
	t = engine.Strip(t)
	for t.Op == "call" && (t.Str == "path/filepath.Dir" || t.Str == "path/filepath.Clean") && len(t.Args) == 1 {
		in := engine.Strip(t.Args[0])
		if t.Str == "path/filepath.Dir" && len(pathParts(in)) < 2 {
			return "the parent of the folder"
		}
		t = in
	}
	ps := pathParts(t)
	if len(ps) == 0 {
		return "not a path under the folder"
	}
	base := engine.Strip(ps[0])
	fromRoot := base.Op == "call" && base.Str == "(*os.Root).Name" && rootOf(e, engine.Val{base.Args[0]}, dir)
	if !fromRoot && !dir(engine.Val{base}) {
		return "not under the folder to extract to"
	}
	for _, p := range ps[1:] {
		p = engine.Strip(p)
		if _, ok := p.ConstString(); ok {
			continue
		}
		local := false
		for t, v := range g.Facts {
			if v && t.Op == "call" && t.Str == "path/filepath.IsLocal" && engine.Strip(t.Args[0]) == p {
				local = true
			}
		}
		if !local {
			return fmt.Sprintf("%s was not established to be local", short(e.S(p)))
		}
	}
	return ""
}
