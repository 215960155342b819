package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

// Eng makes an engine for the check.
func (c *C) Eng() *engine.Eng {
	e := engine.New(c.P)
	e.UnrollFew = true
	e.InitGlobals()
	return e
}

// rel builds a relevance predicate for slicing.
func rel(re string, preds ...func(string) bool) func(string) bool {
	r := regexp.MustCompile(re)
	return func(n string) bool {
		if re != "" && r.MatchString(n) {
			return true
		}
		for _, p := range preds {
			if p(n) {
				return true
			}
		}
		return false
	}
}

// Where renders the position and function of an event.
func where(ev *engine.Ev) string { return ev.Pos() + " in " + ev.E.P.FnName(ev.Fn()) }

func eqT(e *engine.Eng, a, b *engine.Term) *engine.Term {
	return e.Bin(token.EQL, a, b, types.Typ[types.Bool])
}

// resType is the type of result i of the call.
func resType(ev *engine.Ev, i int) types.Type {
	if ev.Sig == nil || i >= ev.Sig.Results().Len() {
		return nil
	}
	return ev.Sig.Results().At(i).Type()
}

// errIndex is the index of the error result, or -1.
func errIndex(ev *engine.Ev) int {
	if ev.Sig == nil {
		return -1
	}
	for i := 0; i < ev.Sig.Results().Len(); i++ {
		if types.TypeString(ev.Sig.Results().At(i).Type(), nil) == "error" {
			return i
		}
	}
	return -1
}

// okFail gives the two outcomes of a call with an error result; the other
// results are fresh symbols.
func okFail(ev *engine.Ev, ok, fail map[string]string) []engine.Outcome {
	mk := func(err *engine.Term) []engine.Val {
		var rs []engine.Val
		for i := 0; i < ev.Sig.Results().Len(); i++ {
			if i == errIndex(ev) {
				rs = append(rs, engine.Val{err})
			} else {
				rs = append(rs, engine.Val{ev.E.Sym(fmt.Sprintf("%s#%d", ev.Name, i), resType(ev, i))})
			}
		}
		return rs
	}
	return []engine.Outcome{
		{Res: mk(ev.E.Nil()), Set: ok},
		{Res: mk(ev.E.NonNilErr(ev.Name)), Set: fail},
	}
}

// symRes replaces a call by fresh symbols for its results.
func symRes(ev *engine.Ev, names ...string) []engine.Outcome {
	var rs []engine.Val
	for i := 0; i < ev.Sig.Results().Len(); i++ {
		n := fmt.Sprintf("%s#%d", ev.Name, i)
		if i < len(names) {
			n = names[i]
		}
		rs = append(rs, engine.Val{ev.E.Sym(n, resType(ev, i))})
	}
	return []engine.Outcome{{Res: rs}}
}

// installOutcomes models one R CMD INSTALL: success, or an error. That every
// failure comes with an error is C04's subject.
func installOutcomes(ev *engine.Ev, ok, fail map[string]string) []engine.Outcome {
	e := ev.E
	mk := func(kind string, err *engine.Term, set map[string]string) engine.Outcome {
		r := e.Sym("result."+kind, resType(ev, 0))
		o := engine.Outcome{Set: set, Res: []engine.Val{{r}}}
		for i := 1; i < ev.Sig.Results().Len(); i++ {
			if i == errIndex(ev) {
				o.Res = append(o.Res, engine.Val{err})
			} else {
				o.Res = append(o.Res, engine.Val{e.Sym(fmt.Sprintf("%s#%d", ev.Name, i), resType(ev, i))})
			}
		}
		code := e.Field(r, "ExitCode", types.Typ[types.Int])
		if kind == "ok" {
			o.Facts = map[*engine.Term]bool{eqT(e, code, e.Int(0)): true}
		}
		return o
	}
	return []engine.Outcome{mk("ok", e.Nil(), ok), mk("error", e.NonNilErr("install"), fail)}
}

// Each follows the loops that visit every element of a collection.
//
// It remembers, per tracked collection, whether the current path is inside an
// iteration, what has been done for the current element, and whether the loop
// has run to its end.
type Each struct {
	e    *engine.Eng
	sels []eachSel
	// Iter is called at the end of an iteration over a tracked collection.
	Iter func(key string, coll *engine.Term, g *engine.G, at string)
}

type eachSel struct {
	key   string
	match func(coll *engine.Term) bool
}

func newEach(e *engine.Eng) *Each {
	x := &Each{e: e}
	pb, pe := e.Branch, e.BackEdge
	e.Branch = func(b *engine.BranchEv) {
		if pb != nil {
			pb(b)
		}
		x.branch(b)
	}
	e.BackEdge = func(fn *ssa.Function, h *ssa.BasicBlock, g *engine.G) {
		if pe != nil {
			pe(fn, h, g)
		}
		x.back(fn, h, g)
	}
	return x
}

// Track follows loops over the collections that match.
func (x *Each) Track(key string, match func(coll *engine.Term) bool) {
	x.sels = append(x.sels, eachSel{key, match})
}

// collOf recognises a loop condition and returns the collection visited.
func collOf(e *engine.Eng, t *engine.Term) *engine.Term {
	for t.Op == "un" && t.Str == "!" {
		t = t.Args[0]
	}
	switch t.Op {
	case "bin":
		if t.Str == "<" && t.Args[1].Op == "call" && t.Args[1].Str == "len" {
			return e.Rest(t.Args[0], engine.Strip(t.Args[1].Args[0]))
		}
	case "more":
		r := t.Args[0]
		if r.Op == "range" {
			return engine.Strip(r.Args[0])
		}
	}
	return nil
}

func (x *Each) branch(b *engine.BranchEv) {
	t := b.Term
	neg := false
	for t.Op == "un" && t.Str == "!" {
		t = t.Args[0]
		neg = !neg
	}
	coll := collOf(x.e, t)
	if coll == nil {
		return
	}
	for _, s := range x.sels {
		if !s.match(coll) {
			continue
		}
		id := x.e.LoopID(b.If.Block())
		if b.Val != neg {
			b.G.Auto["in:"+s.key] = id
		} else {
			delete(b.G.Auto, "in:"+s.key)
			b.G.Auto["all:"+s.key] = "1"
		}
	}
}

func (x *Each) back(fn *ssa.Function, h *ssa.BasicBlock, g *engine.G) {
	id := x.e.BlockID(h)
	for _, s := range x.sels {
		if g.Auto["in:"+s.key] == id {
			if x.Iter != nil {
				x.Iter(s.key, nil, g, x.e.P.FnName(fn))
			}
			delete(g.Auto, "in:"+s.key)
			for k := range g.Auto {
				if strings.HasPrefix(k, "did:"+s.key) {
					delete(g.Auto, k)
				}
			}
		}
	}
}

// pathParts splits a path term into its join components.
func pathParts(t *engine.Term) []*engine.Term {
	t = engine.Strip(t)
	if t.Op == "call" && t.Str == "path/filepath.Join" && len(t.Args) == 1 && t.Args[0].Op == "vlist" {
		return t.Args[0].Args
	}
	return []*engine.Term{t}
}

// anyConst reports a string constant in the term that satisfies f.
func anyConst(t *engine.Term, f func(string) bool) bool {
	return t.Contains(func(x *engine.Term) bool {
		s, ok := x.ConstString()
		return ok && f(s)
	})
}

// hasField reports a term that ends in .name.
func isField(t *engine.Term, name string) bool {
	t = engine.Strip(t)
	return t.Op == "field" && t.Str == name
}

// containsField reports a field selection inside t.
func containsField(t *engine.Term, name string) bool {
	return t.Contains(func(x *engine.Term) bool { return x.Op == "field" && x.Str == name })
}

// str renders the alternatives, sorted by identity, for messages.
func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// mod reports whether a name belongs to the module.
func inModuleName(p *engine.Program, ev *engine.Ev) bool {
	return ev.Callee != nil && p.InModule(ev.Callee)
}

// factTrue reports whether some fact whose term satisfies f is known true/false.
func factKnown(g *engine.G, val bool, f func(*engine.Term) bool) bool {
	for t, v := range g.Facts {
		if v == val && f(t) {
			return true
		}
	}
	return false
}

// watch splits the states on the branches whose condition f names, and
// records the outcome (T or F) under that name.
func watch(e *engine.Eng, f func(t *engine.Term) string) {
	prev := e.Branch
	e.Branch = func(b *engine.BranchEv) {
		if prev != nil {
			prev(b)
		}
		t, v := b.Term, b.Val
		for t.Op == "un" && t.Str == "!" {
			t, v = t.Args[0], !v
		}
		if n := f(t); n != "" {
			if v {
				b.G.Auto[n] = "T"
			} else {
				b.G.Auto[n] = "F"
			}
		}
	}
}

// isMember recognises a test for a key in a map, or for an element in a list.
func isMember(t *engine.Term, coll func(*engine.Term) bool) bool {
	switch t.Op {
	case "haskey", "lookup":
		return coll(engine.Strip(t.Args[0]))
	case "call":
		switch t.Str {
		case "github.com/thoas/go-funk.Contains", "github.com/thoas/go-funk.ContainsString", "slices.Contains":
			return coll(engine.Strip(t.Args[0]))
		}
	}
	return false
}

// opaqueBut treats the module's functions as opaque unless their name starts
// with prefix.
func opaqueBut(e *engine.Eng, c *C, prefix string) {
	for _, f := range c.P.Funcs() {
		if n := c.P.FnName(f); !strings.HasPrefix(strings.TrimLeft(n, "(*"), prefix) {
			e.Opaque[n] = true
		}
	}
}

// Sets are the maps made here that serve as sets of the members of a
// collection: all of their keys are.
type Sets map[*engine.Term]bool

// See looks at the keys stored by a mapstore event.
func (s Sets) See(ev *engine.Ev, member func(*engine.Term) bool) {
	if ev.Name != "mapstore" {
		return
	}
	all := ev.Arg(1).All(func(t *engine.Term) bool {
		for _, a := range altsOf(ev.E.Unprev(t)) {
			if !member(a) {
				return false
			}
		}
		return true
	})
	for _, m := range ev.Arg(0) {
		if m = engine.Strip(m); m.Op == "make" {
			if was, ok := s[m]; ok && !was {
				continue
			}
			s[m] = all
		}
	}
}

// Has reports whether m is such a map.
func (s Sets) Has(m *engine.Term) bool { return s[engine.Strip(m)] }
