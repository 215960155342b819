package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/engine"
)

// publish follows files that are written under one name and moved to
// another: what was written to which path, whether all of it arrived, and
// whether the file was closed.
//
// In the state: "f:<path>" is new, data, bad or closed; "pub:<path>" is the
// state of what was moved to the path.
type publish struct {
	e         *engine.Eng
	c         *C
	paths     map[string]engine.Val // by key
	handle    map[*engine.Term]string
	direct    map[string]string // paths written in place, where
	movedFrom map[string]bool
	writes    int
	moves     int
	// Src sees the data written to a file.
	Src func(ev *engine.Ev, data engine.Val)
	// Moved sees every move of a written file.
	Moved func(ev *engine.Ev, from, to, state string)
}

func newPublish(c *C, e *engine.Eng) *publish {
	p := &publish{e: e, c: c, paths: map[string]engine.Val{}, handle: map[*engine.Term]string{}, direct: map[string]string{}, movedFrom: map[string]bool{}}
	prev := e.Call
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if prev != nil {
			if o := prev(ev); o != nil {
				return o
			}
		}
		return p.call(ev)
	}
	return p
}

func (p *publish) key(v engine.Val) string {
	var ids []int
	for _, t := range v {
		ids = append(ids, engine.Strip(t).ID)
	}
	sort.Ints(ids)
	k := fmt.Sprint(ids)
	p.paths[k] = v
	return k
}

// State is what is at the path.
func (p *publish) State(g *engine.G, v engine.Val) string {
	k := p.key(v)
	if s := g.Auto["pub:"+k]; s != "" {
		return s
	}
	if s := g.Auto["f:"+k]; s != "" {
		return "in place"
	}
	if g.Auto["found:"+k] != "" {
		return "found"
	}
	return ""
}

func (p *publish) handleIn(v engine.Val) string {
	k := ""
	for _, t := range v {
		t.Contains(func(x *engine.Term) bool {
			if h, ok := p.handle[x]; ok {
				k = h
				return true
			}
			return false
		})
	}
	return k
}

func (p *publish) call(ev *engine.Ev) []engine.Outcome {
	if ev.Callee != nil && p.e.P.InModule(ev.Callee) {
		return nil
	}
	for _, f := range fsEffects(ev) {
		switch f.Kind {
		case "write":
			k := p.key(f.Path)
			p.writes++
			p.direct[k] = where(ev)
			if strings.Contains(ev.Name, "Create") || strings.Contains(ev.Name, "OpenFile") {
				h := p.e.Sym("file:"+k, resType(ev, 0))
				p.handle[h] = k
				return []engine.Outcome{
					{Res: []engine.Val{{h}, {p.e.Nil()}}, Set: map[string]string{"f:" + k: "new"}},
					{Res: []engine.Val{{p.e.Nil()}, {p.e.NonNilErr(ev.Name)}}, Set: map[string]string{"f:" + k: "", "failed": "1"}},
				}
			}
			if p.Src != nil {
				for i := range ev.Args {
					if i != pathArg(ev, f.Path) {
						p.Src(ev, ev.Arg(i))
					}
				}
			}
			return okFail(ev, map[string]string{"f:" + k: "closed"}, map[string]string{"f:" + k: "bad", "failed": "1"})
		case "rename":
			from, to := p.key(f.Path), p.key(f.To)
			p.moves++
			p.movedFrom[from] = true
			st := ev.G.Auto["f:"+from]
			if st == "" {
				st = "other"
			}
			if p.Moved != nil {
				p.Moved(ev, from, to, st)
			}
			return okFail(ev, map[string]string{"f:" + from: "", "pub:" + to: st}, map[string]string{"failed": "1"})
		case "remove", "removeall":
			k := p.key(f.Path)
			if ev.G.Auto["f:"+k] != "" || ev.G.Auto["pub:"+k] != "" {
				return okFail(ev, map[string]string{"f:" + k: "", "pub:" + k: ""}, nil)
			}
		}
	}
	if hasSuffix(ev.Name, "Exists") || hasSuffix(ev.Name, ".Stat") {
		for i := range ev.Args {
			a := ev.Arg(i)
			if len(a) == 0 || a[0].Type == nil || !isString(a[0].Type) {
				continue
			}
			k := p.key(a)
			if hasSuffix(ev.Name, ".Stat") {
				return okFail(ev, map[string]string{"found:" + k: "1"}, nil)
			}
			if len(resTypes(ev)) != 2 {
				break
			}
			t, f := p.e.Bool(true), p.e.Bool(false)
			return []engine.Outcome{
				{Res: []engine.Val{{t}, {p.e.Nil()}}, Set: map[string]string{"found:" + k: "1"}},
				{Res: []engine.Val{{f}, {p.e.Nil()}}},
				{Res: []engine.Val{{f}, {p.e.NonNilErr(ev.Name)}}},
			}
		}
	}
	if hasSuffix(ev.Name, ".TempFile") || ev.Name == "os.CreateTemp" {
		path := engine.Val{p.e.Sym("tempname:"+ev.Pos(), types.Typ[types.String])}
		k := p.key(path)
		h := p.e.Sym("file:"+k, resType(ev, 0))
		p.handle[h] = k
		return []engine.Outcome{
			{Res: []engine.Val{{h}, {p.e.Nil()}}, Set: map[string]string{"f:" + k: "new"}},
			{Res: []engine.Val{{p.e.Nil()}, {p.e.NonNilErr(ev.Name)}}},
		}
	}
	if hasSuffix(ev.Name, ".Name") && len(ev.Args) == 1 {
		if k := p.handleIn(ev.Arg(0)); k != "" {
			return []engine.Outcome{{Res: []engine.Val{p.paths[k]}}}
		}
	}
	if errIndex(ev) < 0 {
		return nil
	}
	for i := range ev.Args {
		k := p.handleIn(ev.Arg(i))
		if k == "" {
			continue
		}
		cur := ev.G.Auto["f:"+k]
		if cur == "" {
			continue
		}
		if hasSuffix(ev.Name, ".Close") {
			to := cur
			if cur == "data" {
				to = "closed"
			}
			return okFail(ev, map[string]string{"f:" + k: to}, map[string]string{"f:" + k: "bad", "failed": "1"})
		}
		if hasSuffix(ev.Name, ".Name") {
			return nil
		}
		if hasSuffix(ev.Name, ".Stat") || hasSuffix(ev.Name, ".Sync") {
			continue
		}
		// something was written through the handle
		p.writes++
		if p.Src != nil {
			for j := range ev.Args {
				if j != i {
					p.Src(ev, ev.Arg(j))
				}
			}
		}
		ok := "data"
		if cur == "bad" || cur == "closed" {
			ok = "bad"
		}
		return okFail(ev, map[string]string{"f:" + k: ok}, map[string]string{"f:" + k: "bad", "failed": "1"})
	}
	return nil
}

func pathArg(ev *engine.Ev, v engine.Val) int {
	for i := range ev.Args {
		a := ev.Arg(i)
		if len(a) == len(v) && len(a) > 0 && a[0] == v[0] {
			return i
		}
	}
	return -1
}

// find gives the path with these parts.
func (p *publish) find(parts []*engine.Term) engine.Val {
	for _, v := range p.paths {
		if len(v) != 1 {
			continue
		}
		ps := pathParts(v[0])
		same := len(ps) == len(parts)
		for i := range ps {
			same = same && engine.Strip(ps[i]) == engine.Strip(parts[i])
		}
		if same {
			return v
		}
	}
	return engine.Val{parts[0]}
}

func resTypes(ev *engine.Ev) []types.Type {
	var out []types.Type
	for i := 0; ev.Sig != nil && i < ev.Sig.Results().Len(); i++ {
		out = append(out, ev.Sig.Results().At(i).Type())
	}
	return out
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
