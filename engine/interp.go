package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

// Eng is one analysis.
type Eng struct {
	P        *Program
	terms    map[string]*Term
	MaxDepth int
	MaxAlts  int
	MaxParts int
	MaxInl   int

	// Assume decides boolean terms by the assumptions of the rule.
	Assume func(t *Term) (val bool, ok bool)
	// Call sees every call before it happens; it may decide the outcomes.
	Call func(ev *Ev) []Outcome
	// After sees every return of an inlined module function.
	After func(ev *Ev, x *Exit)
	// AfterExtern sees every return of another function that no hook replaced.
	AfterExtern func(ev *Ev, x *Exit)
	// Branch sees every decided edge of a conditional branch.
	Branch func(b *BranchEv)
	// BackEdge sees every state about to start another iteration.
	BackEdge func(fn *ssa.Function, header *ssa.BasicBlock, g *G)
	// StoreHook sees every memory write.
	StoreHook func(ev *Ev, addr, val Val)
	// InstrHook sees selected instructions (map updates, sends, receives,
	// index, division...) before they execute.
	InstrHook func(fn *ssa.Function, ctx *Ctx, in ssa.Instruction, st *State)
	// SplitRecv, when set, makes a receive continue once per value that was
	// sent on the channel, and is told which.
	SplitRecv func(in ssa.Instruction, ctx *Ctx, val *Term, g *G)
	// Recv, when it returns values, replaces what was sent on the channel.
	Recv func(in ssa.Instruction, et types.Type) Val
	// Go sees the state in which a goroutine starts, and the states in which
	// it ends.
	Go func(in *ssa.Go, g *G, end bool)
	// PreRecv is called where a goroutine is about to wait for a receive or
	// a select.
	PreRecv func(in ssa.Instruction, ctx *Ctx, g *G)
	// GoMode decides how a go statement is handled: "seq" (inlined there),
	// "skip" (event only).
	GoMode string

	eqIndex   map[*Term][]*Term
	siteIDs   map[ssa.Instruction]int
	fnIDs     map[*ssa.Function]int
	typeNames map[types.Type]string
	// Relevant, when set, restricts inlining to functions from which a call
	// it accepts can be reached, or that write memory their caller can see.
	Relevant   func(name string) bool
	sum        *summaries
	sizes      map[*ssa.Function]int
	InlineSize int
	// KeyIs tells which constant a key stands for when it is looked up in a
	// map that is a constant of the program.
	KeyIs   func(k *Term) *Term
	SymMaps bool // leave the presence of a key in a locally made map open
	Unroll  bool // follow loop counters by value instead of one term per loop
	// Known replaces what is read from memory (load, field and lookup terms) by values
	// the rule takes it to have.
	Known func(t *Term) *Term

	UnrollFew  bool // the same, for loops over a list of a few known elements only
	Fine       bool // keep states apart on integer, string, slice and struct classes too
	ctxs       map[ctxKey]*Ctx
	infos      map[*ssa.Function]*fnInfo
	chans      map[*Term]Val
	chanChg    bool
	chanPass   int // the number of times Run has started again
	chanDead   map[*Term]types.Type
	chanClosed map[*Term]bool
	constG     map[*Term]Val
	constMap   map[*Term]map[*Term]Val
	// Opaque lists module functions treated as pure functions of their arguments.
	Opaque       map[string]bool
	Steps        int
	MaxSteps     int
	Fns          map[*ssa.Function]bool // functions analysed
	Calls        map[string]int         // call sites interpreted, by name
	Sites        map[ssa.Instruction]bool
	Debug        bool
	FnSteps      map[string]int
	KeyDbg       func(fn *ssa.Function, b *ssa.BasicBlock, key string)
	stack        []*ssa.Function
	goSnaps      [][]*G
	MaxPartsSeen int
}

type ctxKey struct {
	p    *Ctx
	site ssa.Instruction
	fn   *ssa.Function
}

// Ev is a call event.
type Ev struct {
	E      *Eng
	Kind   string // call, go, defer
	Name   string
	Callee *ssa.Function // nil when external or dynamic
	Args   []Val
	Types  []types.Type
	Instr  ssa.Instruction
	Ctx    *Ctx
	G      *G
	Sig    *types.Signature
	st     *State
}

// Env reads the value of an SSA value at the event.
func (ev *Ev) Env(v ssa.Value) Val { return ev.E.get(ev.st, v) }

// Arg returns the alternatives of argument i (receiver first).
func (ev *Ev) Arg(i int) Val {
	if i < len(ev.Args) {
		return ev.Args[i]
	}
	return nil
}

func (ev *Ev) Pos() string { return ev.E.P.InstrPos(ev.Instr) }

// Fn is the function that contains the call.
func (ev *Ev) Fn() *ssa.Function { return ev.Instr.Parent() }

// Outcome is one possible result of a call decided by a rule.
type Outcome struct {
	Res   []Val
	Set   map[string]string
	Facts map[*Term]bool
	Exit  string // "", "panic", "exit", "none"
	Do    func(g *G)
}

type BranchEv struct {
	E    *Eng
	Term *Term // positive canonical or raw condition
	Val  bool
	G    *G
	Fn   *ssa.Function
	If   *ssa.If
	Ctx  *Ctx
}

// Exit is one way a function ends.
type Exit struct {
	Kind string // return, panic, exit
	Res  []Val
	G    *G
	At   ssa.Instruction
}

func New(p *Program) *Eng {
	e := &Eng{P: p, terms: map[string]*Term{}, MaxDepth: 14, MaxAlts: 10, MaxParts: 80, MaxInl: 30,
		eqIndex: map[*Term][]*Term{}, siteIDs: map[ssa.Instruction]int{}, sizes: map[*ssa.Function]int{}, InlineSize: 150, fnIDs: map[*ssa.Function]int{}, typeNames: map[types.Type]string{}, ctxs: map[ctxKey]*Ctx{}, infos: map[*ssa.Function]*fnInfo{},
		chans: map[*Term]Val{}, chanClosed: map[*Term]bool{}, chanDead: map[*Term]types.Type{}, constG: map[*Term]Val{}, constMap: map[*Term]map[*Term]Val{}, Opaque: map[string]bool{}, GoMode: "seq", MaxSteps: 6000000,
		Fns: map[*ssa.Function]bool{}, Calls: map[string]int{}, Sites: map[ssa.Instruction]bool{}}
	return e
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo        map[*ssa.BasicBlock]int
	live       map[*ssa.BasicBlock][]ssa.Value // live-in, excluding the block's own phis
	liveS      map[*ssa.BasicBlock]map[ssa.Value]bool
	loops      map[*ssa.BasicBlock]*loopInfo
	order      map[ssa.Value]int
	induct     map[*ssa.Phi]int64
	inductEdge map[*ssa.Phi]map[int]bool
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, order: map[ssa.Value]int{},
		live: map[*ssa.BasicBlock][]ssa.Value{}, liveS: map[*ssa.BasicBlock]map[ssa.Value]bool{}, induct: map[*ssa.Phi]int64{}}
	// reverse postorder
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		fi.rpo[post[len(post)-1-i]] = i
	}
	// natural loops
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] || !seen[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	// value order
	n := 0
	for _, p := range fn.Params {
		fi.order[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.order[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.order[v] = n
				n++
			}
		}
	}
	// liveness
	tracked := func(v ssa.Value) bool {
		_, ok := fi.order[v]
		return ok
	}
	for _, b := range fn.Blocks {
		fi.liveS[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveS[s] {
					live[v] = true
				}
				pi := predIndex(b, s)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
					for _, k := range pi {
						if tracked(ph.Edges[k]) {
							live[ph.Edges[k]] = true
						}
					}
				}
			}
			// a block's phis are defined on the edge; treat as defined there
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					_ = ph // phis used in the block stay live-in (defined on edges)
				}
			}
			if len(live) != len(fi.liveS[b]) {
				fi.liveS[b] = live
				ch = true
			}
		}
	}
	for b, s := range fi.liveS {
		var vs []ssa.Value
		for v := range s {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return fi.order[vs[i]] < fi.order[vs[j]] })
		fi.live[b] = vs
	}
	// induction variables: header phi with a constant start and, on every
	// back edge, phi + 1
	for h, l := range fi.loops {
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			start, okAll, haveBack := int64(0), true, false
			for i, p := range h.Preds {
				ed := ph.Edges[i]
				if l.blocks[p] {
					bo, ok := ed.(*ssa.BinOp)
					if !ok || bo.Op != token.ADD || bo.X != ssa.Value(ph) {
						okAll = false
						break
					}
					c, ok := bo.Y.(*ssa.Const)
					if !ok || c.Value == nil || c.Int64() != 1 {
						okAll = false
						break
					}
					haveBack = true
				} else {
					c, ok := ed.(*ssa.Const)
					if !ok || c.Value == nil || !isInt(c.Type()) {
						okAll = false
						break
					}
					start = c.Int64()
				}
			}
			if okAll && haveBack {
				fi.induct[ph] = start
			}
		}
	}
	e.infos[fn] = fi
	return fi
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func predIndex(from, to *ssa.BasicBlock) []int {
	var out []int
	for i, p := range to.Preds {
		if p == from {
			out = append(out, i)
		}
	}
	return out
}

// Frame is one activation.
type Frame struct {
	fn    *ssa.Function
	ctx   *Ctx
	fi    *fnInfo
	parts map[*ssa.BasicBlock]*parts
	exits map[string]*Exit
	exOrd []string
	phiN  map[*ssa.Phi]int
	few   map[*ssa.BasicBlock]bool // headers of loops followed by value
	fewV  map[ssa.Value]bool       // their counters
}

type parts struct {
	order []string
	m     map[string]*State
	dirty map[string]bool
}

// RootCtx is the context of an analysis entry.
func (e *Eng) RootCtx(fn *ssa.Function) *Ctx { return e.ctx(nil, nil, fn) }

func (e *Eng) ctx(p *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ctxKey{p, site, fn}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := &Ctx{Parent: p, Site: site, Fn: fn, ID: len(e.ctxs) + 1}
	if p != nil {
		c.Depth = p.Depth + 1
	}
	e.ctxs[k] = c
	return c
}

// Run analyses fn from scratch with symbolic parameters where args is short.
func (e *Eng) Run(fn *ssa.Function, g *G, args ...Val) []*Exit {
	if g == nil {
		g = NewG()
	}
	for i := len(args); i < len(fn.Params); i++ {
		args = append(args, Val{e.Sym(fn.Params[i].Name(), fn.Params[i].Type())})
	}
	var res []*Exit
	for n := 0; ; n++ {
		e.chanChg, e.chanPass = false, n
		e.chanDead = map[*Term]types.Type{}
		res = e.runFrame(fn, e.RootCtx(fn), args, nil, g.Copy())
		if !e.chanChg {
			// receives from channels nobody was seen to send on continue
			// with an unknown value
			for c, t := range e.chanDead {
				if _, ok := e.chans[c]; !ok {
					e.chans[c] = Val{e.T("undef", "", t)}
					e.chanChg = true
				}
			}
		}
		if !e.chanChg {
			break
		}
		if n > 12 {
			panic("values sent on channels do not converge")
		}
	}
	return res
}

func (e *Eng) runFrame(fn *ssa.Function, ctx *Ctx, args []Val, binds []Val, g *G) []*Exit {
	if len(fn.Blocks) == 0 {
		panic("no body: " + fn.String())
	}
	e.Fns[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, ctx: ctx, fi: e.info(fn), parts: map[*ssa.BasicBlock]*parts{}, exits: map[string]*Exit{}, phiN: map[*ssa.Phi]int{}}
	st := &State{env: map[ssa.Value]Val{}, g: g}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		} else {
			st.env[p] = Val{e.T("undef", "", p.Type())}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			st.env[fv] = binds[i]
		} else {
			st.env[fv] = Val{e.Sym(fv.Name(), fv.Type())}
		}
	}
	e.add(fr, fn.Blocks[0], st)
	for {
		var best *ssa.BasicBlock
		for b, p := range fr.parts {
			if len(p.dirty) > 0 && (best == nil || fr.fi.rpo[b] < fr.fi.rpo[best]) {
				best = b
			}
		}
		if best == nil {
			break
		}
		p := fr.parts[best]
		for _, k := range append([]string{}, p.order...) {
			if !p.dirty[k] {
				continue
			}
			delete(p.dirty, k)
			e.exec(fr, best, 0, p.m[k].copy())
		}
	}
	var out []*Exit
	for _, k := range fr.exOrd {
		x := fr.exits[k]
		e.gc(fr, x)
		out = append(out, x)
	}
	return out
}

// gc drops cells of objects allocated by the frame that nothing outside it
// can reach.
func (e *Eng) gc(fr *Frame, x *Exit) { e.collect(fr, x.G, x.Res, true) }

func (e *Eng) collect(fr *Frame, g *G, roots []Val, facts bool) {
	any := false
	for k := range g.Mem {
		if k.bound {
			any = true
			break
		}
	}
	if !any && !facts {
		return
	}
	local := func(t *Term) bool {
		for c := t.Ctx; c != nil; c = c.Parent {
			if c == fr.ctx {
				return true
			}
		}
		return false
	}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, v := range roots {
		for _, t := range v {
			mark(t)
		}
	}
	root := func(t *Term) *Term {
		for {
			switch t.Op {
			case "faddr", "iaddr", "content", "cell", "mapcell", "prev", "nn":
				t = t.Args[0]
				continue
			}
			return t
		}
	}
	for _, v := range e.chans {
		for _, t := range v {
			mark(t)
		}
	}
	for {
		n := len(reach)
		for k, v := range g.Mem {
			r := root(k)
			if !local(r) || reach[r] {
				for _, t := range v {
					mark(t)
				}
				mark(r)
			}
		}
		if len(reach) == n {
			break
		}
	}
	for k := range g.Mem {
		r := root(k)
		if local(r) && !reach[r] {
			delete(g.Mem, k)
		}
	}
	if !facts {
		return
	}
	// facts about purely local, unreachable values are dropped
	for f := range g.Facts {
		if f.Contains(func(t *Term) bool { return t.Ctx != nil && len(t.Args) == 0 && local(t) && !reach[t] }) {
			delete(g.Facts, f)
		}
	}
}

func (e *Eng) key(fr *Frame, b *ssa.BasicBlock, st *State) string {
	var sb strings.Builder
	sb.WriteString(st.g.autoKey())
	sb.WriteByte('|')
	for _, d := range st.defers {
		fmt.Fprintf(&sb, "%d,", d.instr.Pos())
	}
	sb.WriteByte('|')
	for _, v := range fr.fi.live[b] {
		if e.classable(v.Type()) || fr.fewV[v] {
			sb.WriteString(e.class(st.g, st.env[v]))
		}
		sb.WriteByte(';')
	}
	e.cellKey(&sb, st.g)
	return sb.String()
}

func (e *Eng) cellKey(sb *strings.Builder, g *G) {
	var cs []string
	for k, v := range g.Mem {
		if k.Type == nil {
			continue
		}
		et := e.elemType(k.Type)
		if et == nil || !e.classable(et) {
			continue
		}
		c := e.class(g, v)
		if c == "?" || c == "u" {
			continue
		}
		cs = append(cs, strconv.Itoa(k.ID)+c)
	}
	sort.Strings(cs)
	sb.WriteByte('|')
	sb.WriteString(strings.Join(cs, ";"))
}

// classable selects the values whose abstract class keeps states apart.
func (e *Eng) classable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return true
		}
		return e.Fine && u.Info()&(types.IsInteger|types.IsString) != 0
	case *types.Interface, *types.Pointer:
		return true
	case *types.Slice, *types.Map, *types.Struct, *types.Signature:
		return e.Fine
	}
	return false
}

func (e *Eng) add(fr *Frame, b *ssa.BasicBlock, st *State) {
	p := fr.parts[b]
	if p == nil {
		p = &parts{m: map[string]*State{}, dirty: map[string]bool{}}
		fr.parts[b] = p
	}
	k := e.key(fr, b, st)
	if _, ok := p.m[k]; !ok && len(p.order) >= e.MaxParts {
		k = "coarse|" + st.g.autoKey()
		for _, d := range st.defers {
			k += fmt.Sprintf("%d,", d.instr.Pos())
		}
	}
	old, ok := p.m[k]
	if !ok {
		if e.KeyDbg != nil {
			e.KeyDbg(fr.fn, b, k)
		}
		p.m[k] = st
		p.order = append(p.order, k)
		if len(p.order) > e.MaxPartsSeen {
			e.MaxPartsSeen = len(p.order)
		}
		p.dirty[k] = true
		return
	}
	j, ch := e.joinState(fr, b, old, st)
	if ch {
		p.m[k] = j
		p.dirty[k] = true
	}
}

func (e *Eng) joinState(fr *Frame, b *ssa.BasicBlock, a, c *State) (*State, bool) {
	g, ch := e.joinG(a.g, c.g)
	n := &State{env: make(map[ssa.Value]Val, len(a.env)), g: g, defers: a.defers}
	for v, x := range a.env {
		y, ok := c.env[v]
		if !ok {
			n.env[v] = x
			continue
		}
		j := e.joinVal(a.g, c.g, x, y)
		n.env[v] = j
		if !sameVal(j, x) {
			ch = true
		}
	}
	for v, y := range c.env {
		if _, ok := a.env[v]; !ok {
			n.env[v] = y
			ch = true
		}
	}
	return n, ch
}

func (e *Eng) addExit(fr *Frame, x *Exit) {
	var sb strings.Builder
	sb.WriteString(x.Kind + "|" + x.G.autoKey() + "|")
	for _, v := range x.Res {
		sb.WriteString(e.class(x.G, v) + ";")
	}
	e.gc(fr, x)
	e.cellKey(&sb, x.G)
	k := sb.String()
	if _, ok := fr.exits[k]; !ok && len(fr.exOrd) > e.MaxParts {
		k = x.Kind + "|coarse|" + x.G.autoKey()
	}
	old, ok := fr.exits[k]
	if !ok {
		fr.exits[k] = x
		fr.exOrd = append(fr.exOrd, k)
		return
	}
	g, _ := e.joinG(old.G, x.G)
	n := &Exit{Kind: x.Kind, G: g, At: old.At}
	for i := range old.Res {
		n.Res = append(n.Res, e.joinVal(old.G, x.G, old.Res[i], x.Res[i]))
	}
	fr.exits[k] = n
}

// ---------------------------------------------------------------- edges

func (e *Eng) flow(fr *Frame, from, to *ssa.BasicBlock, st *State, pi int) {
	l := fr.fi.loops[to]
	back := l != nil && l.blocks[from] && to.Dominates(from)
	byValue := e.Unroll || l != nil && e.few(fr, to, st, back)
	// phis, in parallel
	vals := map[ssa.Value]Val{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if start, ok := fr.fi.induct[ph]; ok && !byValue {
			// all counters of a loop count its iterations
			iv := e.intern(&Term{Op: "iv", Str: "", Ctx: fr.ctx, Site: to.Instrs[0], Type: types.Typ[types.Int]})
			vals[ph] = Val{e.Bin(token.ADD, iv, e.Int(start), ph.Type())}
			continue
		}
		vals[ph] = e.get(st, ph.Edges[pi])
	}
	if back {
		if e.BackEdge != nil {
			e.BackEdge(fr.fn, to, st.g)
		}
		e.rename(fr, l, st, vals)
		for v, x := range vals {
			ph := v.(*ssa.Phi)
			if _, ok := fr.fi.induct[ph]; ok && !byValue {
				continue
			}
			vals[v] = e.widen(fr, to, ph, x)
		}
	}
	env := make(map[ssa.Value]Val, len(fr.fi.live[to]))
	for _, v := range fr.fi.live[to] {
		if x, ok := vals[v]; ok {
			env[v] = x
		} else if x, ok := st.env[v]; ok {
			env[v] = x
		}
	}
	st.env = env
	roots := make([]Val, 0, len(env)+4)
	for _, v := range env {
		roots = append(roots, v)
	}
	for _, d := range st.defers {
		roots = append(roots, d.fn)
		roots = append(roots, d.args...)
	}
	e.collect(fr, st.g, roots, false)
	e.add(fr, to, st)
}

// few reports whether the loop is followed by the value of its counter: it has
// one, and stops at a known small number.
func (e *Eng) few(fr *Frame, h *ssa.BasicBlock, st *State, back bool) bool {
	if !e.UnrollFew || back {
		return fr.few[h]
	}
	if known, ok := fr.few[h]; ok {
		return known
	}
	if fr.few == nil {
		fr.few, fr.fewV = map[*ssa.BasicBlock]bool{}, map[ssa.Value]bool{}
	}
	fr.few[h] = false
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	ph, _ := cmp.X.(*ssa.Phi)
	inc, _ := cmp.X.(*ssa.BinOp)
	if inc != nil {
		ph, _ = inc.X.(*ssa.Phi)
	}
	if ph == nil || ph.Block() != h {
		return false
	}
	if _, ok := fr.fi.induct[ph]; !ok {
		return false
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && fr.fi.loops[h].blocks[in.Block()] {
		return false
	}
	for _, t := range e.get(st, cmp.Y) {
		if i, ok := t.ConstInt(); !ok || i > 12 {
			return false
		}
	}
	fr.few[h] = true
	fr.fewV[ph] = true
	for _, r := range *ph.Referrers() {
		if bo, ok := r.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(ph) {
			fr.fewV[bo] = true
		}
	}
	return true
}

// widen forces convergence of loop-carried values.
func (e *Eng) widen(fr *Frame, h *ssa.BasicBlock, ph *ssa.Phi, x Val) Val {
	switch u := ph.Type().Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsNumeric != 0 {
			known := func(t *Term) bool {
				if t.CV != nil && fewConsts(x) {
					return true
				}
				if i, ok := t.ConstInt(); ok && (e.Unroll || fr.few[h]) && -16 <= i && i <= 16 {
					return true
				}
				for _, s := range fr.parts[h].m {
					for _, o := range s.env[ph] {
						if o == t {
							return true
						}
					}
				}
				return false
			}
			var out []*Term
			for _, t := range x {
				if known(t) {
					out = append(out, t)
				} else {
					out = append(out, e.intern(&Term{Op: "loopint", Ctx: fr.ctx, Site: ph, Type: ph.Type()}))
				}
			}
			return e.V(out...)
		}
		if u.Info()&types.IsString != 0 {
			var out []*Term
			for _, t := range x {
				if t.depth > 6 {
					out = append(out, e.Mix(t))
				} else {
					out = append(out, t)
				}
			}
			return e.V(out...)
		}
	case *types.Slice:
		return Val{e.collapse(ph.Type(), x)}
	}
	return x
}

// collapse merges list-like alternatives into one unordered list.
func (e *Eng) collapse(typ types.Type, x Val) *Term {
	if len(x) == 1 {
		return x[0]
	}
	var parts []*Term
	listy := false
	for _, t := range x {
		switch t.Op {
		case "list", "vlist":
			listy = true
		case "nn":
		}
	}
	if !listy {
		return e.Alt(x)
	}
	may := false
	for _, t := range x {
		parts = append(parts, e.listParts(t)...)
		may = may || e.mayBeEmpty(t)
	}
	if may {
		for i, p := range parts {
			if p.Op != "spread" && p.Op != "mix" && p.Op != "mayelem" {
				parts[i] = e.intern(&Term{Op: "mayelem", Args: []*Term{p}, Type: p.Type})
			}
		}
	}
	return e.List(typ, parts)
}

// mayBeEmpty reports whether the list-like term t can have no elements.
func (e *Eng) mayBeEmpty(t *Term) bool {
	switch t.Op {
	case "nn":
		return e.mayBeEmpty(t.Args[0])
	case "vlist":
		return len(t.Args) == 0
	case "list":
		for _, a := range t.Args {
			if a.Op != "spread" && a.Op != "mix" && a.Op != "mayelem" {
				return false
			}
		}
		return true
	case "make":
		if len(t.Args) > 0 {
			if i, ok := t.Args[0].ConstInt(); ok && i > 0 {
				return false
			}
		}
	}
	return true
}

func (e *Eng) listParts(t *Term) []*Term {
	switch t.Op {
	case "nn":
		return e.listParts(t.Args[0])
	case "nil":
		return nil
	case "zero":
		return nil
	case "vlist", "list":
		return append([]*Term{}, t.Args...)
	case "alt":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, e.listParts(a)...)
		}
		return out
	case "make":
		if len(t.Args) > 0 {
			if i, ok := t.Args[0].ConstInt(); ok && i == 0 {
				return nil
			}
		}
	}
	return []*Term{e.intern(&Term{Op: "spread", Args: []*Term{t}})}
}

// rename turns values bound to the current iteration into values of an
// earlier one and forgets facts about them.
func (e *Eng) rename(fr *Frame, l *loopInfo, st *State, extra map[ssa.Value]Val) {
	inLoop := map[*Term]bool{}
	bound := func(t *Term) bool {
		if t.Ctx == nil {
			return false
		}
		if r, ok := inLoop[t]; ok {
			return r
		}
		r := false
		if t.Ctx == fr.ctx {
			r = t.Site != nil && l.blocks[t.Site.Block()]
		} else {
			for c := t.Ctx; c != nil && c.Parent != nil; c = c.Parent {
				if c.Parent == fr.ctx {
					r = c.Site != nil && c.Site.Block() != nil && l.blocks[c.Site.Block()]
					break
				}
			}
		}
		inLoop[t] = r
		return r
	}
	memo := map[*Term]*Term{}
	var ren func(t *Term) *Term
	ren = func(t *Term) *Term {
		if m, ok := memo[t]; ok {
			return m
		}
		if !t.bound {
			return t
		}
		memo[t] = t
		r := t
		if t.Op == "prev" {
			memo[t] = t
			return t
		}
		if t.Ctx != nil && t.Op != "loopint" && bound(t) {
			// an impure call keeps its arguments, wrapped as a whole
			r = e.Prev(t)
		} else if len(t.Args) > 0 {
			na := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				na[i] = ren(a)
				if na[i] != a {
					ch = true
				}
			}
			if ch {
				r = e.rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	rv := func(v Val) Val {
		ch := false
		out := make([]*Term, len(v))
		for i, t := range v {
			out[i] = e.loosen(ren(t))
			if out[i] != t {
				ch = true
			}
		}
		if !ch {
			return v
		}
		return e.V(out...)
	}
	for k, v := range st.env {
		st.env[k] = rv(v)
	}
	for k, v := range extra {
		if ph, ok := k.(*ssa.Phi); ok {
			if _, ok := fr.fi.induct[ph]; ok && !e.Unroll && !fr.few[ph.Block()] {
				continue
			}
		}
		extra[k] = rv(v)
	}
	mem := make(map[*Term]Val, len(st.g.Mem))
	for k, v := range st.g.Mem {
		nk := ren(k)
		nv := rv(v)
		nv = e.widenCell(fr, l.header, k, nv)
		if k.Op == "content" {
			nv = Val(e.dropPrev(nv))
		}
		if old, ok := mem[nk]; ok {
			nv = e.union(old, nv)
		}
		mem[nk] = nv
	}
	st.g.Mem = mem
	for f := range st.g.Facts {
		if ren(f) != f || f.Contains(func(t *Term) bool { return t.Op == "prev" }) {
			delete(st.g.Facts, f)
		}
	}
	for i := range st.defers {
		for j := range st.defers[i].args {
			st.defers[i].args[j] = rv(st.defers[i].args[j])
		}
	}
}

// widenCell forces convergence of loop-carried memory.
func (e *Eng) widenCell(fr *Frame, h *ssa.BasicBlock, k *Term, v Val) Val {
	et := e.elemType(k.Type)
	if et == nil {
		return v
	}
	switch u := et.Underlying().(type) {
	case *types.Slice:
		long := false
		for _, t := range v {
			if t.Op == "vlist" && len(t.Args) > 8 {
				long = true
			}
		}
		if long || len(v) > 2 {
			return Val{e.collapse(et, v)}
		}
	case *types.Basic:
		if u.Info()&types.IsNumeric != 0 && fr.parts[h] != nil {
			var out []*Term
			for _, t := range v {
				ok := t.Op == "loopint" || t.CV != nil && fewConsts(v)
				for _, s := range fr.parts[h].m {
					for _, o := range e.loadTerm(s.g, k) {
						if o == t {
							ok = true
						}
					}
				}
				if !ok {
					t = e.intern(&Term{Op: "loopint", Str: fmt.Sprint(k.ID), Ctx: fr.ctx, Site: h.Instrs[0], Type: et})
				}
				out = append(out, t)
			}
			return e.V(out...)
		}
	}
	return v
}

// fewConsts reports that v has at most two constants, as a flag has.
func fewConsts(v Val) bool {
	n := 0
	for _, t := range v {
		if t.CV != nil {
			n++
		}
	}
	return n <= 2
}

func (e *Eng) dropPrev(v Val) []*Term {
	have := map[*Term]bool{}
	for _, t := range v {
		have[t] = true
	}
	var out []*Term
	for _, t := range v {
		if t.Op == "prev" && have[t.Args[0]] {
			continue
		}
		out = append(out, t)
	}
	return out
}

// ---------------------------------------------------------------- values

func (e *Eng) get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Val{e.Zero(x.Type())}
		}
		return Val{e.Const(x.Value, x.Type())}
	case *ssa.Global:
		return Val{e.GlobalAddr(x)}
	case *ssa.Function:
		return Val{e.FuncTerm(x)}
	case *ssa.Builtin:
		return Val{e.T("builtin", x.Name(), nil)}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return Val{e.T("undef", "", v.Type())}
}

func (e *Eng) FuncTerm(fn *ssa.Function) *Term {
	return e.intern(&Term{Op: "func", Str: e.P.FnName(fn), Fn: fn, Type: fn.Signature})
}

// GlobalAddr is the address of a package variable.
func (e *Eng) GlobalAddr(g *ssa.Global) *Term {
	return e.T("global", e.P.Short(g.String()), g.Type())
}

// Global finds a package variable's address by module-relative name.
func (e *Eng) Global(name string) *Term {
	i := strings.LastIndex(name, ".")
	pkg := e.P.Pkg(name[:i])
	if pkg == nil {
		return nil
	}
	g := pkg.Var(name[i+1:])
	if g == nil {
		return nil
	}
	return e.GlobalAddr(g)
}

// ---------------------------------------------------------------- execution

func (e *Eng) exec(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		e.Steps++
		if e.FnSteps != nil {
			e.FnSteps[e.P.FnName(fr.fn)]++
		}
		if e.Steps > e.MaxSteps {
			panic(fmt.Sprintf("analysis budget exhausted in %s", fr.fn))
		}
		in := b.Instrs[i]
		if e.InstrHook != nil {
			e.InstrHook(fr.fn, fr.ctx, in, st)
		}
		if e.PreRecv != nil && blocking(in) {
			e.PreRecv(in, fr.ctx, st.g)
		}
		if n := len(e.goSnaps); n > 0 && blocking(in) {
			e.goSnaps[n-1] = e.mergeGs(append(e.goSnaps[n-1], st.g.Copy()))
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.flow(fr, b, b.Succs[0], st, predIndex(b, b.Succs[0])[0])
			return
		case *ssa.If:
			e.branch(fr, b, x, st)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, e.get(st, r))
			}
			e.addExit(fr, &Exit{Kind: "return", Res: res, G: st.g, At: x})
			return
		case *ssa.Panic:
			if mi, ok := x.X.(*ssa.MakeInterface); ok {
				if k, ok := mi.X.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "\"blocking select matched no case\"" {
					return // emitted by the SSA builder, unreachable
				}
			}
			e.addExit(fr, &Exit{Kind: "panic", G: st.g, At: x, Res: e.zeroRes(fr.fn)})
			return
		case *ssa.RunDefers:
			e.runDefers(fr, b, i, st)
			return
		case *ssa.Call:
			exits := e.call(fr, st, x, &x.Call, "call")
			if e.follow(fr, b, i, st, x, exits) {
				return
			}
			continue
		case *ssa.Defer:
			d := deferred{instr: x}
			dup := false
			for _, o := range st.defers {
				if o.instr == x {
					dup = true
				}
			}
			d.fn = e.get(st, x.Call.Value)
			if x.Call.IsInvoke() {
				d.args = append(d.args, e.get(st, x.Call.Value))
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.get(st, a))
			}
			if dup {
				for k := range st.defers {
					if st.defers[k].instr == x {
						for m := range d.args {
							st.defers[k].args[m] = e.union(st.defers[k].args[m], d.args[m])
						}
					}
				}
			} else {
				st.defers = append(st.defers, d)
			}
			continue
		case *ssa.Go:
			if e.GoMode == "skip" {
				e.goEvent(fr, st, x)
				continue
			}
			e.goSnaps = append(e.goSnaps, nil)
			before := st.g.Copy()
			if e.Go != nil {
				e.Go(x, st.g, false)
			}
			exits := e.call(fr, st, x, &x.Call, "go")
			snaps := e.goSnaps[len(e.goSnaps)-1]
			e.goSnaps = e.goSnaps[:len(e.goSnaps)-1]
			ret := false
			for _, y := range exits {
				if y.Kind == "return" {
					ret = true
					if e.Go != nil {
						e.Go(x, y.G, true)
					}
				}
			}
			if !ret {
				// the goroutine outlives the statement: the spawner goes on
				// from any point where it waits
				gs := append([]*G{before}, snaps...)
				for _, g := range e.mergeGs(gs) {
					exits = append(exits, &Exit{Kind: "return", G: g, At: x})
				}
			}
			if e.follow(fr, b, i, st, nil, exits) {
				return
			}
			continue
		case *ssa.Select:
			e.selectStmt(fr, b, i, st, x)
			return
		default:
			e.instr(fr, st, in)
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && len(st.env[u]) == 0 {
				return // nothing is ever sent
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && e.SplitRecv != nil {
				v := st.env[u]
				wrap := func(t *Term) *Term { return t }
				if u.CommaOk && len(v) == 1 && v[0].Op == "tuple" {
					s := st.copy()
					s.env[u] = Val{e.intern(&Term{Op: "tuple", Args: []*Term{e.Zero(u.X.Type().Underlying().(*types.Chan).Elem()), e.Bool(false)}})}
					e.exec(fr, b, i+1, s)
					if v[0].Args[1].IsFalse() {
						return
					}
				}
				if u.CommaOk && len(v) == 1 && v[0].Op == "tuple" {
					tu := v[0]
					v = e.V(tu.Args[0])
					wrap = func(t *Term) *Term {
						return e.intern(&Term{Op: "tuple", Args: []*Term{t, e.Bool(true)}})
					}
				}
				for k, t := range v {
					s := st
					if k < len(v)-1 {
						s = st.copy()
					}
					s.env[u] = Val{wrap(t)}
					e.SplitRecv(in, fr.ctx, t, s.g)
					e.exec(fr, b, i+1, s)
				}
				return
			}
		}
	}
}

// selectStmt continues once per communication that can proceed.
func (e *Eng) selectStmt(fr *Frame, b *ssa.BasicBlock, i int, st *State, x *ssa.Select) {
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	go1 := func(k int, ok Val, pos int, v Val) {
		s := st.copy()
		ts := []*Term{e.Int(int64(k)), e.Alt(ok)}
		j := 0
		for _, c := range x.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			et := c.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == pos {
				ts = append(ts, e.Alt(v))
			} else {
				ts = append(ts, e.Zero(et))
			}
			j++
		}
		s.env[x] = Val{e.intern(&Term{Op: "tuple", Args: ts})}
		if pos >= 0 && e.SplitRecv != nil && len(v) == 1 {
			e.SplitRecv(x, fr.ctx, v[0], s.g)
		}
		e.exec(fr, b, i+1, s)
	}
	j := 0
	for k, c := range x.States {
		if c.Dir != types.RecvOnly {
			e.notify(fr, st, x, "send", e.get(st, c.Chan), e.get(st, c.Send))
			e.send(st, e.get(st, c.Chan), e.get(st, c.Send))
			go1(k, Val{e.Bool(false)}, -1, nil)
			continue
		}
		et := c.Chan.Type().Underlying().(*types.Chan).Elem()
		v := e.recv(fr, st, x, e.get(st, c.Chan), false, et)
		okv := Val{e.fresh("opaque", "selectok", fr, x, types.Typ[types.Bool])}
		if e.SplitRecv != nil {
			for _, t := range v {
				go1(k, okv, j, Val{t})
			}
		} else if len(v) > 0 {
			go1(k, okv, j, v)
		}
		j++
	}
	if !x.Blocking {
		go1(-1, Val{e.Bool(false)}, -1, nil)
	}
}

// IsFalse reports the constant false.
func (t *Term) IsFalse() bool {
	return t.CV != nil && t.CV.Kind() == constant.Bool && !constant.BoolVal(t.CV)
}

func blocking(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	}
	return false
}

func (e *Eng) zeroRes(fn *ssa.Function) []Val {
	var out []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, Val{e.Zero(rs.At(i).Type())})
	}
	return out
}

// follow continues after a call with each of its exits; it reports whether
// the continuation was handled recursively.
func (e *Eng) follow(fr *Frame, b *ssa.BasicBlock, i int, st *State, v ssa.Value, exits []*Exit) bool {
	var rets []*Exit
	for _, x := range exits {
		if x.Kind == "return" {
			rets = append(rets, x)
		} else {
			e.addExit(fr, &Exit{Kind: x.Kind, G: x.G.Copy(), At: x.At, Res: e.zeroRes(fr.fn)})
		}
	}
	if len(rets) == 0 {
		return true
	}
	for k, x := range rets {
		s := st
		if k < len(rets)-1 {
			s = st.copy()
		}
		if len(rets) > 1 {
			s.g = x.G.Copy()
		} else {
			s.g = x.G
		}
		if v != nil {
			e.setResult(s, v, x.Res)
		}
		if len(rets) == 1 {
			*st = *s
			return false
		}
		e.exec(fr, b, i+1, s)
	}
	return true
}

func (e *Eng) setResult(st *State, v ssa.Value, res []Val) {
	if tup, ok := v.Type().(*types.Tuple); ok {
		if tup.Len() == 0 {
			return
		}
		var ts []*Term
		for _, r := range res {
			ts = append(ts, e.Alt(r))
		}
		st.env[v] = Val{e.intern(&Term{Op: "tuple", Args: ts})}
		return
	}
	if len(res) > 0 {
		st.env[v] = res[0]
	}
}

func (e *Eng) runDefers(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	states := []*State{st}
	for len(states[0].defers) > 0 {
		var next []*State
		for _, s := range states {
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			exits := e.callWith(fr, s, d.instr, &d.instr.Call, "defer", d.fn, d.args)
			for _, x := range exits {
				if x.Kind != "return" {
					e.addExit(fr, &Exit{Kind: x.Kind, G: x.G.Copy(), At: x.At, Res: e.zeroRes(fr.fn)})
					continue
				}
				n := s.copy()
				n.g = x.G.Copy()
				next = append(next, n)
			}
		}
		if len(next) == 0 {
			return
		}
		states = next
	}
	for _, s := range states {
		e.exec(fr, b, i+1, s)
	}
}

// branch splits a state on a condition.
func (e *Eng) branch(fr *Frame, b *ssa.BasicBlock, x *ssa.If, st *State) {
	for k, want := range []bool{true, false} {
		s := st
		if k == 0 {
			s = st.copy()
		}
		cond := e.get(s, x.Cond)
		if !e.assume(fr, s, x.Cond, want, 0) {
			continue
		}
		if e.Branch != nil {
			for _, c := range cond {
				e.Branch(&BranchEv{E: e, Term: c, Val: want, G: s.g, Fn: fr.fn, If: x, Ctx: fr.ctx})
			}
		}
		to := b.Succs[k]
		pis := predIndex(b, to)
		pi := pis[0]
		if len(pis) > 1 { // both edges to the same block
			pi = pis[k]
		}
		if len(cond) == 1 && !isBoolConst(cond[0]) && e.Debug {
			s.g.Note(fmt.Sprintf("%s: %s is %v", e.P.InstrPos(x), e.S(cond[0]), want))
		} else if len(cond) == 1 && !isBoolConst(cond[0]) {
			s.g.Note(fmt.Sprintf("%s: %s is %v", e.P.InstrPos(x), trunc(e.S(cond[0]), 120), want))
		}
		e.flow(fr, b, to, s, pi)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// assume restricts st to the executions where v is want; false = infeasible.
func (e *Eng) assume(fr *Frame, st *State, v ssa.Value, want bool, depth int) bool {
	if depth > 6 {
		return true
	}
	alts := e.get(st, v)
	var keep []*Term
	for _, t := range alts {
		r := e.Truth(st.g, t)
		if r == 0 || (r == 1) == want {
			keep = append(keep, t)
		}
	}
	if len(keep) == 0 {
		return false
	}
	if _, isConst := v.(*ssa.Const); !isConst && len(keep) != len(alts) {
		st.env[v] = keep
	}
	if len(keep) == 1 {
		e.assert(st.g, keep[0], want)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.assume(fr, st, x.X, !want, depth+1)
		}
		if x.Op == token.MUL {
			e.refineCell(st, x, keep)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == want
			if !e.refineEq(fr, st, x.X, x.Y, eq) || !e.refineEq(fr, st, x.Y, x.X, eq) {
				return false
			}
		}
	}
	return true
}

// refineCell narrows the memory cell a loaded value came from, when the cell
// still holds that value.
func (e *Eng) refineCell(st *State, x *ssa.UnOp, keep Val) {
	addr := e.get(st, x.X)
	if len(addr) != 1 {
		return
	}
	if cur, ok := st.g.Mem[addr[0]]; ok {
		var n []*Term
		for _, t := range cur {
			for _, k := range keep {
				if k == t {
					n = append(n, t)
					break
				}
			}
		}
		if len(n) > 0 && len(n) < len(cur) {
			st.g.Mem[addr[0]] = n
		}
	}
}

// refineEq filters the alternatives of x by its (in)equality with y.
func (e *Eng) refineEq(fr *Frame, st *State, x, y ssa.Value, eq bool) bool {
	if _, ok := x.(*ssa.Const); ok {
		return true
	}
	ys := e.get(st, y)
	if len(ys) != 1 {
		return true
	}
	xs := e.get(st, x)
	var keep []*Term
	for _, t := range xs {
		c := e.Bin(token.EQL, t, ys[0], types.Typ[types.Bool])
		r := e.Truth(st.g, c)
		if r == 0 || (r == 1) == eq {
			keep = append(keep, t)
		}
	}
	if len(keep) == 0 {
		return false
	}
	if ys[0].Op == "nil" && !eq && (len(keep) > 1 || !e.factable(keep[0])) {
		keep = e.markNNg(st.g, keep)
	}
	if len(keep) == 1 {
		e.assert(st.g, e.Bin(token.EQL, keep[0], ys[0], types.Typ[types.Bool]), eq)
	}
	if !sameVal(keep, xs) {
		switch x.(type) {
		case *ssa.Global, *ssa.Function:
		default:
			st.env[x] = keep
		}
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			e.refineCell(st, u, keep)
		}
	}
	// len(x) == 0 narrows x
	if c, ok := x.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && eq {
			if i, ok := ys[0].ConstInt(); ok && i == 0 {
				_ = i
			}
		}
	}
	return true
}

// factable reports whether facts about t can be recorded.
func (e *Eng) factable(t *Term) bool {
	return !t.Contains(func(x *Term) bool { return x.Op == "mix" || x.Op == "alt" || x.Op == "prev" || x.Op == "loopint" })
}

func (e *Eng) markNNg(g *G, a Val) Val {
	var out []*Term
	for _, t := range a {
		if e.nonNil(g, t) || t.Op == "mix" {
			out = append(out, t)
			continue
		}
		out = append(out, e.intern(&Term{Op: "nn", Args: []*Term{t}, Type: t.Type}))
	}
	return sortTerms(out)
}

// Strip removes a non-nil marker.
func Strip(t *Term) *Term {
	for t.Op == "nn" {
		t = t.Args[0]
	}
	return t
}

// Dump prints an exit for debugging.
func (e *Eng) Dump(x *Exit) {
	var rs []string
	for _, r := range x.Res {
		rs = append(rs, e.SV(r)+" ["+e.class(x.G, r)+"]")
	}
	fmt.Fprintf(os.Stderr, "exit %s at %s: %s\n%s\n", x.Kind, e.P.InstrPos(x.At), strings.Join(rs, " , "), e.GString(x.G))
}

// NumTerms is the number of distinct abstract terms created.
func (e *Eng) NumTerms() int { return len(e.terms) }

// BlockID names a block.
func (e *Eng) BlockID(b *ssa.BasicBlock) string {
	return fmt.Sprintf("%d.%d", e.fnID(b.Parent()), b.Index)
}

// LoopID names the innermost loop that contains b.
func (e *Eng) LoopID(b *ssa.BasicBlock) string {
	fi := e.info(b.Parent())
	var best *loopInfo
	for _, l := range fi.loops {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	if best == nil {
		return ""
	}
	return e.BlockID(best.header)
}

// Call0 adds an observer of call events.
func (e *Eng) Call0(f func(ev *Ev)) {
	prev := e.Call
	e.Call = func(ev *Ev) []Outcome {
		f(ev)
		if prev != nil {
			return prev(ev)
		}
		return nil
	}
}

// Goroutine returns the go statement that the context runs under, or nil.
func (c *Ctx) Goroutine() ssa.Instruction {
	for ; c != nil; c = c.Parent {
		if g, ok := c.Site.(*ssa.Go); ok {
			return g
		}
	}
	return nil
}

// RunCallback runs a function value from the state of an event, with these
// arguments (symbols where there are none).
func (e *Eng) RunCallback(ev *Ev, cb *Term, args ...Val) []*Exit {
	cb = Strip(cb)
	var binds []Val
	for _, a := range cb.Args {
		binds = append(binds, e.V(a))
	}
	for i := len(args); i < len(cb.Fn.Params); i++ {
		args = append(args, Val{e.Sym(cb.Fn.Params[i].Name(), cb.Fn.Params[i].Type())})
	}
	return e.runFrame(cb.Fn, e.RootCtx(cb.Fn), args, binds, ev.G.Copy())
}
