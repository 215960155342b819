package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine"
)

func init() {
	register("C30", "Interprocedural lockset and ordering analysis by abstract interpretation of SSA: every access to memory shared between goroutines, with the locks held, the goroutines running and the wait groups joined.", c30)
}

// place is memory as named by the analysis: a root and the way from there.
type place struct {
	root *engine.Term
	path string
}

// access is one access to memory.
type access struct {
	place
	write, atomic bool
	chain         []*engine.Ctx // the goroutines it happens in, outermost first
	locks         map[string]bool
	waited        map[string]bool // wait groups waited for since the last go statement
	done          map[string]bool // wait groups the goroutine has already reported to
	in            ssa.Instruction
	ctx           *engine.Ctx
	where         string
	fn            string
}

// c30 checks that goroutines share memory only in an orderly way.
func c30(c *C) {
	c.Rule("shared", "memory that several goroutines can reach at the same time, one of them writing, is accessed under a common lock, atomically, or in an order given by a wait group")
	c.Rule("joined", "every download is counted before it starts, has recorded what it downloaded before it reports to the wait group, and is waited for before the downloads are handed on")
	c.Rule("covered", "every go statement is analysed, together with everything it can call")
	c.Assume("library functions do not return memory that they were given")
	c.Assume("values handed over through a channel are not used by the sender afterwards")
	c.Assume("library types that are documented as safe for concurrent use are (loggers, HTTP clients, file systems of the operating system, viper while it is only read)")
	var sites []*ssa.Go
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					sites = append(sites, g)
				}
			}
		}
	}
	seen := map[*ssa.Go]bool{}
	total, joins := 0, 0
	for _, name := range []string{fnPlan, fnDownload, fnNewDb, "cmd.load"} {
		if name == fnDownload {
			total += c30run(c, c.Fn(name), seen, &joins)
		} else {
			total += c30run(c, c.Fn(name), seen, nil)
		}
	}
	for _, g := range sites {
		if !seen[g] {
			f := rootFn(g.Parent())
			total += c30run(c, f, seen, nil)
		}
	}
	for _, g := range sites {
		con := c.P.FnName(g.Parent())
		c.Obl("covered", con)
		if !seen[g] {
			c.Fail("covered", con, c.P.InstrPos(g), "this go statement was not reached by the analysis", nil)
		}
	}
	c.Min("covered", len(sites), 1, "go statements")
	c.Min("joined", joins, 2, "goroutines and returns")
	c.Min("shared", total, 20, "accesses to shared memory")
}

// goChain lists the goroutines that a call context runs in, outermost first.
func goChain(ctx *engine.Ctx) []*engine.Ctx {
	var out []*engine.Ctx
	for x := ctx; x != nil; x = x.Parent {
		if _, ok := x.Site.(*ssa.Go); ok {
			out = append([]*engine.Ctx{x}, out...)
		}
	}
	return out
}

// goID names the goroutines that a go statement starts.
func goID(x *engine.Ctx) string { return goName(x.Site) }

func goName(in ssa.Instruction) string { return fmt.Sprint(in.Pos()) }

// thread names the goroutine of a call context.
func thread(ctx *engine.Ctx) string {
	if ch := goChain(ctx); len(ch) > 0 {
		return fmt.Sprintf("%d ", ch[len(ch)-1].ID)
	}
	return "0 "
}

// selfReach says whether control can come back to an instruction without
// passing through another block.
func selfReach(in ssa.Instruction, avoid *ssa.BasicBlock) bool {
	b := in.Block()
	if b == avoid {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if x == avoid || seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// syncCall says whether a function only synchronises.
func syncCall(name string) bool {
	return strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(sync.") || strings.HasPrefix(name, "sync.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.")
}

func c30run(c *C, fn *ssa.Function, seen map[*ssa.Go]bool, joins *int) int {
	joined := joins != nil
	e := c.Eng()
	e.MaxParts = 6
	e.Relevant = func(name string) bool { return true }
	for _, o := range []string{"desc.ParseDesc", "cmd.planInstall", "desc.CompareVersionStrings", "desc.CompareVersions", "desc.ParseVersion"} {
		e.Opaque[o] = true
	}
	// locate finds what memory an address or a reference stands for
	var locate func(t *engine.Term) []place
	locate = func(t *engine.Term) []place {
		t = engine.Strip(e.Unprev(engine.Strip(t)))
		step := func(x *engine.Term, s string) []place {
			ps := locate(x)
			for i := range ps {
				ps[i].path += s
			}
			return ps
		}
		switch t.Op {
		case "faddr", "field":
			return step(t.Args[0], "."+t.Str)
		case "iaddr", "elem", "val", "lookup", "index":
			return step(t.Args[0], "[]")
		case "load":
			return step(t.Args[0], "*")
		case "slice":
			return step(t.Args[0], "")
		case "alt":
			var out []place
			for _, a := range t.Args {
				out = append(out, locate(a)...)
			}
			return out
		case "alloc", "make", "global", "param":
			return []place{{root: t}}
		}
		return nil
	}
	keyOf := func(v engine.Val) []string {
		var out []string
		for _, t := range v {
			for _, p := range locate(t) {
				out = append(out, fmt.Sprintf("%d%s", p.root.ID, p.path))
			}
		}
		return out
	}
	var all []*access
	index := map[string]bool{}
	doneBy := map[string]map[string]bool{} // goroutine -> wait groups it reports to
	record := func(t *engine.Term, suffix string, write, atomic bool, in ssa.Instruction, ctx *engine.Ctx, g *engine.G) {
		for _, p := range locate(t) {
			p.path += suffix
			a := &access{place: p, write: write, atomic: atomic, chain: goChain(ctx), locks: map[string]bool{}, waited: map[string]bool{}, in: in, ctx: ctx, done: map[string]bool{}, where: c.P.InstrPos(in), fn: c.P.FnName(in.Parent())}
			th := thread(ctx)
			for k := range g.Auto {
				switch {
				case strings.HasPrefix(k, "lock:"+th):
					a.locks[strings.TrimPrefix(k, "lock:"+th)] = true
				case strings.HasPrefix(k, "wait:"+th):
					a.waited[strings.TrimPrefix(k, "wait:"+th)] = true
				case strings.HasPrefix(k, "done:"+th):
					a.done[strings.TrimPrefix(k, "done:"+th)] = true
				}
			}
			k := fmt.Sprint(p.root.ID, p.path, write, atomic, a.where, len(a.chain), keys(a.locks), keys(a.waited), keys(a.done), ctx.ID)
			if n := len(a.chain); n > 0 {
				k += goID(a.chain[n-1])
			}
			if !index[k] {
				index[k] = true
				all = append(all, a)
			}
		}
	}
	one := func(v engine.Val, suffix string, write, atomic bool, in ssa.Instruction, ctx *engine.Ctx, g *engine.G) {
		for _, t := range v {
			record(t, suffix, write, atomic, in, ctx, g)
		}
	}
	e.InstrHook = func(f *ssa.Function, ctx *engine.Ctx, in ssa.Instruction, st *engine.State) {
		g := st.G()
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				one(e.ValOf(st, x.X), "", false, false, in, ctx, g)
			}
		case *ssa.Store:
			one(e.ValOf(st, x.Addr), "", true, false, in, ctx, g)
		case *ssa.MapUpdate:
			one(e.ValOf(st, x.Map), "[]", true, false, in, ctx, g)
		case *ssa.Lookup:
			one(e.ValOf(st, x.X), "[]", false, false, in, ctx, g)
		case *ssa.Range:
			one(e.ValOf(st, x.X), "[]", false, false, in, ctx, g)
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				if _, deferred := in.(*ssa.Defer); !deferred && (b.Name() == "delete" || b.Name() == "clear") {
					one(e.ValOf(st, x.Common().Args[0]), "[]", true, false, in, ctx, g)
				}
			}
		}
	}
	e.Go = func(in *ssa.Go, g *engine.G, end bool) {
		seen[in] = true
		if !end {
			if joined {
				counted := false
				for k := range g.Auto {
					counted = counted || strings.HasPrefix(k, "add:")
				}
				*joins++
				c.Obl("joined", c.P.FnName(in.Parent()))
				if !counted {
					c.Fail("joined", c.P.FnName(in.Parent()), c.P.InstrPos(in), "this goroutine is not counted by any wait group when it starts", g.Path(12))
				}
				g.Auto["go"] = goName(in)
			}
			for k := range g.Auto {
				// the goroutine starts afresh
				if strings.HasPrefix(k, "wait:") || strings.HasPrefix(k, "done:") {
					delete(g.Auto, k)
				}
			}
		}
	}
	e.PreRecv = func(in ssa.Instruction, ctx *engine.Ctx, g *engine.G) {
		// a goroutine that waits for the next message has not reported for it yet
		for k := range g.Auto {
			if strings.HasPrefix(k, "done:"+thread(ctx)) {
				delete(g.Auto, k)
			}
		}
	}
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		g := ev.G
		th := thread(ev.Ctx)
		if joined && len(goChain(ev.Ctx)) > 0 && (ev.Name == "mapstore" || ev.Name == "append" || ev.Callee != nil && c.P.InModule(ev.Callee) || mutatingFS(ev.Name)) {
			for k := range g.Auto {
				if strings.HasPrefix(k, "done:"+th) {
					c.Fail("joined", c.P.FnName(ev.Fn()), where(ev), ev.Name+" comes after the goroutine has reported to the wait group", g.Path(12))
				}
			}
		}
		switch {
		case hasSuffix(ev.Name, "sync.WaitGroup).Add"):
			for _, k := range keyOf(ev.Arg(0)) {
				g.Auto["add:"+k] = "1"
			}
		case hasSuffix(ev.Name, ".Mutex).Lock") || hasSuffix(ev.Name, ".RWMutex).Lock"):
			for _, k := range keyOf(ev.Arg(0)) {
				g.Auto["lock:"+th+k] = "1"
			}
		case hasSuffix(ev.Name, ".RWMutex).RLock"):
			for _, k := range keyOf(ev.Arg(0)) {
				g.Auto["lock:"+th+"r"+k] = "1"
			}
		case hasSuffix(ev.Name, ".Mutex).Unlock") || hasSuffix(ev.Name, ".RWMutex).Unlock"):
			for _, k := range keyOf(ev.Arg(0)) {
				delete(g.Auto, "lock:"+th+k)
			}
		case hasSuffix(ev.Name, ".RWMutex).RUnlock"):
			for _, k := range keyOf(ev.Arg(0)) {
				delete(g.Auto, "lock:"+th+"r"+k)
			}
		case ev.Name == "(*sync.Once).Do":
			for _, k := range keyOf(ev.Arg(0)) {
				g.Auto["lock:"+th+"once "+k] = "1"
			}
		case hasSuffix(ev.Name, "sync.WaitGroup).Done"):
			ch := goChain(ev.Ctx)
			for _, k := range keyOf(ev.Arg(0)) {
				g.Auto["done:"+th+k] = "1"
				for _, x := range ch {
					if doneBy[goID(x)] == nil {
						doneBy[goID(x)] = map[string]bool{}
					}
					doneBy[goID(x)][k] = true
				}
			}
		case hasSuffix(ev.Name, "sync.WaitGroup).Wait"):
			for _, k := range keyOf(ev.Arg(0)) {
				g.Auto["wait:"+th+k] = "1"
			}
		case strings.HasPrefix(ev.Name, "sync/atomic."):
			write := !strings.HasPrefix(ev.Name, "sync/atomic.Load")
			one(ev.Arg(0), "", write, true, ev.Instr, ev.Ctx, g)
		case syncCall(ev.Name):
		case ev.Sig != nil && (ev.Callee == nil || !c.P.InModule(ev.Callee)):
			// a library that is given the address of a variable may write to it
			for i, v := range ev.Args {
				if i == 0 && ev.Sig.Recv() != nil {
					continue
				}
				if !isPointerArg(ev.Instr, i) {
					continue
				}
				for _, t := range v {
					s := engine.Strip(e.Unprev(engine.Strip(t)))
					switch s.Op {
					case "global", "faddr", "alloc":
						if s.Op == "alloc" && s.Str == "varargs" {
							continue
						}
						record(s, "", true, false, ev.Instr, ev.Ctx, g)
					}
				}
			}
		}
		return nil
	}
	e.AfterExtern = func(ev *engine.Ev, x *engine.Exit) {
		if ev.Name == "(*sync.Once).Do" {
			th := thread(ev.Ctx)
			for _, k := range keyOf(ev.Arg(0)) {
				delete(x.G.Auto, "lock:"+th+"once "+k)
				x.G.Auto["lock:"+th+"after "+k] = "1"
			}
		}
	}
	for _, x := range e.Run(fn, e.Start()) {
		id, started := x.G.Auto["go"]
		if !joined || !started || x.Kind != "return" {
			continue
		}
		*joins++
		c.Obl("joined", c.P.FnName(fn))
		waited := false
		for w := range doneBy[id] {
			waited = waited || x.G.Auto["wait:0 "+w] != ""
		}
		if !waited {
			c.Fail("joined", c.P.FnName(fn), c.P.InstrPos(x.At), "returns without waiting for the goroutines it started", x.G.Path(12))
		}
	}
	c.Absorb(e)

	// conflicts
	byRoot := map[*engine.Term][]*access{}
	for _, a := range all {
		byRoot[a.root] = append(byRoot[a.root], a)
	}
	shared := 0
	reported := map[string]bool{}
	for root, as := range byRoot {
		owner := goChain(root.Ctx)
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write || a.atomic && b.atomic || !overlap(a.path, b.path) {
					continue
				}
				if !concurrent(a, b, root, owner, doneBy) {
					continue
				}
				shared++
				con := a.fn
				c.Obl("shared", con)
				if commonLock(a, b) {
					continue
				}
				w, o := a, b
				if !w.write {
					w, o = b, a
				}
				k := w.where + o.where
				if reported[k] {
					continue
				}
				reported[k] = true
				kind := "read"
				if o.write {
					kind = "written"
				}
				c.Fail("shared", w.fn, w.where, fmt.Sprintf("%s is written here while another goroutine may be using it (%s at %s)", e.S(root)+a.path, kind, o.where), nil)
			}
		}
	}
	n := 0
	for _, a := range all {
		if len(a.chain) > 0 {
			n++
		}
	}
	c.Obl("shared", c.P.FnName(fn))
	_ = shared
	return n
}

// isPointerArg says whether a call is given a pointer.
func isPointerArg(in ssa.Instruction, i int) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	args := ci.Common().Args
	if ci.Common().IsInvoke() {
		i--
	}
	if i < 0 || i >= len(args) {
		return false
	}
	a := args[i]
	if m, ok := a.(*ssa.MakeInterface); ok {
		a = m.X
	}
	p, ok := a.Type().Underlying().(*types.Pointer)
	return ok && !isNamed("WaitGroup")(p.Elem()) && !isNamed("Mutex")(p.Elem()) && !isNamed("RWMutex")(p.Elem())
}

// overlap says whether two ways from the same root lead to the same memory.
func overlap(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if !strings.HasPrefix(b, a) {
		return false
	}
	rest := b[len(a):]
	return rest == "" || rest[0] == '.' && !strings.ContainsAny(rest, "*[")
}

func commonLock(a, b *access) bool {
	for k := range a.locks {
		switch {
		case strings.HasPrefix(k, "r"):
			// readers do not exclude each other
			if b.locks[k[1:]] {
				return true
			}
		case strings.HasPrefix(k, "after "):
			if b.locks["once "+k[6:]] {
				return true
			}
		case strings.HasPrefix(k, "once "):
			if b.locks[k] || b.locks["after "+k[5:]] {
				return true
			}
		default:
			if b.locks[k] || b.locks["r"+k] {
				return true
			}
		}
	}
	return false
}

// concurrent says whether two accesses to the memory of a root may happen at
// the same time. owner are the goroutines in which the root was made.
func concurrent(a, b *access, root *engine.Term, owner []*engine.Ctx, doneBy map[string]map[string]bool) bool {
	// within one instance of the goroutine that made the root
	for i, x := range owner {
		if i >= len(a.chain) || i >= len(b.chain) || a.chain[i] != x || b.chain[i] != x {
			return false // handed over through a channel
		}
	}
	p := len(owner)
	ca, cb := a.chain[p:], b.chain[p:]
	same := len(ca) == len(cb)
	for i := 0; same && i < len(ca); i++ {
		same = ca[i] == cb[i]
	}
	if same {
		if len(ca) == 0 {
			return false
		}
		// several instances of the same goroutine
		return repeated(ca[len(ca)-1], root)
	}
	if len(ca) > len(cb) {
		a, b, ca, cb = b, a, cb, ca
	}
	prefix := true
	for i := range ca {
		prefix = prefix && ca[i] == cb[i]
	}
	if !prefix {
		return true
	}
	// a is in a goroutine that starts b's, directly or not
	g := goID(cb[len(ca)])
	if !afterGo(a, cb[len(ca)], root) {
		return false
	}
	// what the goroutine did before it reported to a group that was waited
	// for is over
	for w := range a.waited {
		if !b.done[w] && doneBy[g][w] {
			return false
		}
	}
	return true
}

// siteIn is the instruction of a frame from which another call context was
// reached.
func siteIn(in ssa.Instruction, ctx, frame *engine.Ctx) ssa.Instruction {
	for ctx != frame {
		if ctx == nil {
			return nil
		}
		in, ctx = ctx.Site, ctx.Parent
	}
	return in
}

// reaches says whether control can get from one instruction of a function to
// another without passing a block.
func reaches(from, to ssa.Instruction, avoid *ssa.BasicBlock) bool {
	if from.Block() == to.Block() {
		for _, in := range from.Block().Instrs {
			if in == from {
				return true
			}
			if in == to {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == avoid || seen[x] {
			continue
		}
		if x == to.Block() {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// afterGo says whether an access can come after the start of a goroutine that
// knows the same instance of the root.
func afterGo(a *access, g *engine.Ctx, root *engine.Term) bool {
	// the innermost frame both are in
	up := map[*engine.Ctx]bool{}
	for x := a.ctx; x != nil; x = x.Parent {
		up[x] = true
	}
	y := g.Parent
	for y != nil && !up[y] {
		y = y.Parent
	}
	if y == nil {
		return true
	}
	avoidIn := func(frame *engine.Ctx) *ssa.BasicBlock {
		if root.Ctx == nil || root.Site == nil {
			return nil
		}
		if in := siteIn(root.Site, root.Ctx, frame); in != nil {
			return in.Block()
		}
		return nil
	}
	sa, sg := siteIn(a.in, a.ctx, y), siteIn(g.Site, g.Parent, y)
	if sa == nil || sg == nil || reaches(sg, sa, avoidIn(y)) {
		return true
	}
	for z := y; z != root.Ctx && z != nil && z.Parent != nil; z = z.Parent {
		if z.Site != nil && selfReach(z.Site, avoidIn(z.Parent)) {
			return true
		}
	}
	return false
}

// repeated says whether several instances of a goroutine can share a root.
func repeated(g *engine.Ctx, root *engine.Term) bool {
	for x := g; x != nil && x.Site != nil; x = x.Parent {
		var avoid *ssa.BasicBlock
		if x.Parent == root.Ctx && root.Site != nil && root.Site.Parent() == x.Site.Parent() {
			avoid = root.Site.Block()
		}
		if selfReach(x.Site, avoid) {
			return true
		}
		if root.Ctx != nil && x.Parent == root.Ctx {
			return false
		}
	}
	return false
}
