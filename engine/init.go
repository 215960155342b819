package engine

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// InitGlobals interprets the package variable initialisers of the module and
// keeps the values of the variables nothing else ever assigns.
func (e *Eng) InitGlobals() {
	mutable := map[*ssa.Global]bool{}
	for _, fn := range e.P.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.MapUpdate:
								if y.Map == ssa.Value(x) && fn.Name() != "init" {
									mutable[g] = true
								}
							case *ssa.IndexAddr:
								for _, rr := range *y.Referrers() {
									if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
										mutable[g] = true
									}
								}
							}
						}
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && fn.Synthetic != "" && fn.Name() == "init" {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						ro := true
						for _, r := range *in.(ssa.Value).Referrers() {
							if u, ok := r.(*ssa.UnOp); !ok || u == nil {
								ro = false
							}
						}
						if ro || fn.Name() == "init" && fn.Synthetic != "" {
							continue
						}
					}
					mutable[g] = true
				}
			}
		}
	}
	old := e.Call
	e.Call = func(ev *Ev) []Outcome {
		n := ev.Name
		if strings.HasSuffix(n, ".init") || strings.Contains(n, ".init#") {
			return []Outcome{{}}
		}
		return nil
	}
	defer func() { e.Call = old }()
	for _, sp := range e.P.byPath {
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		for _, x := range e.runFrame(fn, e.RootCtx(fn), nil, nil, NewG()) {
			if x.Kind != "return" {
				continue
			}
			for k, v := range x.G.Mem {
				r := k
				for len(r.Args) > 0 && (r.Op == "faddr" || r.Op == "iaddr") {
					r = r.Args[0]
				}
				if r.Op == "global" {
					g := e.globalOf(r)
					if g == nil || mutable[g] || strings.Contains(r.Str, "init$guard") {
						continue
					}
				}
				if k.Op == "mapcell" {
					if e.constMap[k.Args[0]] == nil {
						e.constMap[k.Args[0]] = map[*Term]Val{}
					}
					e.constMap[k.Args[0]][k.Args[1]] = v
					continue
				}
				e.constG[k] = v
			}
		}
	}
}

func (e *Eng) globalOf(t *Term) *ssa.Global {
	for _, sp := range e.P.byPath {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && e.GlobalAddr(g) == t {
				return g
			}
		}
	}
	return nil
}

// Start is a fresh global state; constant package variables are read through
// to their initial values.
func (e *Eng) Start() *G { return NewG() }

// mapCells calls f for every cell of map m.
func (e *Eng) mapCells(g *G, m *Term, f func(k *Term, v Val)) {
	for c, v := range g.Mem {
		if c.Op == "mapcell" && c.Args[0] == m {
			f(c.Args[1], v)
		}
	}
	for c, v := range e.constMap[m] {
		if _, ok := g.Mem[e.mapCell(m, c)]; !ok {
			f(c, v)
		}
	}
}
