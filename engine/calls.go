package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
	"github.com/dpastoor/goutils.ListFilesByExt": false,
	"os/exec.Command": true, "os/exec.CommandContext": true, "bufio.NewScanner": true, "bufio.NewReader": true, "bufio.NewWriter": true,
	"bytes.NewBuffer": true, "bytes.NewReader": true, "strings.NewReader": true,
	"github.com/spf13/afero.NewOsFs": true, "crypto/md5.New": true,
	"github.com/sirupsen/logrus.WithFields": true, "github.com/sirupsen/logrus.WithField": true, "github.com/sirupsen/logrus.WithError": true,
	"github.com/sirupsen/logrus.New": true, "strings.Split": true, "strings.Fields": true,
}

// passNil lists calls whose result is nil exactly when their first argument is.
var passNil = map[string]bool{
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithStack": true,
	"github.com/pkg/errors.WithMessage": true,
}

// pureFn reports externals whose result depends on their arguments only (and
// on process constants such as the configuration registry).
func pureFn(name string) bool {
	if v, ok := pureExact[name]; ok {
		return v
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var purePkgs = []string{"strings.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Clean",
	"path/filepath.Rel", "path/filepath.IsAbs", "path/filepath.Match", "path/filepath.ToSlash", "path/filepath.FromSlash", "path/filepath.Split", "path/filepath.SplitList", "path.",
	"strconv.", "unicode.", "unicode/utf8.", "errors.", "github.com/pkg/errors.", "bytes.", "slices.", "maps.", "math.", "cmp.", "net/url.", "regexp.",
	"github.com/spf13/viper.Get", "github.com/spf13/viper.IsSet", "crypto/md5.Sum", "crypto/sha256.Sum", "crypto/sha1.Sum", "encoding/hex.", "encoding/base64.", "html.", "time.Duration", "(time.", "(net/url.", "(*net/url.URL).",
	"github.com/thoas/go-funk.", "(*regexp.Regexp).", "runtime.GOMAXPROCS", "runtime.NumCPU", "(reflect.", "reflect.", "(os.FileMode)", "(io/fs.FileMode)", "(io/fs.FileInfo).", "(io/fs.DirEntry).", "(os.FileInfo).", "(error).Error", "(*os/exec.ExitError).", "(*os.ProcessState).", "github.com/mitchellh/go-homedir.", "unsafe."}

var pureExact = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": false, "errors.New": false,
	"github.com/pkg/errors.New": false, "github.com/pkg/errors.Errorf": false, "path/filepath.Join": true,
	"os.TempDir": true, "os.UserHomeDir": true, "os.UserCacheDir": true, "os.Getenv": true, "os.Environ": true, "os.Hostname": true,
	"strings.NewReader": false, "bytes.NewBuffer": false, "bytes.NewReader": false, "bytes.NewBufferString": false,
	"regexp.MustCompile": true, "path/filepath.Abs": true, "path/filepath.Glob": false, "os.Getwd": false,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "errors.Is": true, "errors.As": false, "runtime.GOOS": true,
	"strings.NewReplacer": true, "len": true, "cap": true, "min": true, "max": true,
	"crypto/md5.New": false,
}

// noHavoc lists external packages that never write through pointers we care
// about.
var noHavoc = []string{"fmt.", "github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus.", "log.", "(*log.", "strings.", "errors.", "github.com/pkg/errors.",
	"sort.", "slices.", "(*sync.", "sync.", "sync/atomic.", "time.", "path", "os.", "strconv.", "io.", "bufio.", "(*bufio.", "net/http.", "(*net/http.",
	"github.com/spf13/afero.", "(github.com/spf13/afero.", "bytes.New", "unicode", "encoding/gob.New", "encoding/json.New", "github.com/spf13/cobra.",
	"(*github.com/spf13/cobra.", "runtime.", "(*os/exec.", "os/exec.", "encoding/json.Marshal", "gopkg.in/yaml.v2.Marshal", "github.com/ghodss/yaml.Marshal",
	"archive/", "compress/", "text/", "reflect.", "(*text/"}

var doesHavoc = map[string]bool{"fmt.Sscanf": true, "fmt.Fscanf": true, "fmt.Sscan": true, "fmt.Scan": true, "fmt.Scanln": true, "errors.As": true}

// NoReturn is how a call of an external ends: "", "exit" or "panic".
func NoReturn(name string) string { return noReturn(name) }

// noReturn classifies externals that end the process or panic.
func noReturn(name string) string {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit":
		return "exit"
	case "log.Panic", "log.Panicf", "log.Panicln":
		return "panic"
	}
	if strings.Contains(name, "sirupsen/logrus") {
		i := strings.LastIndexByte(name, '.')
		m := name[i+1:]
		if strings.HasPrefix(m, "Fatal") || m == "Exit" {
			return "exit"
		}
		if strings.HasPrefix(m, "Panic") {
			return "panic"
		}
	}
	return ""
}

func (e *Eng) call(fr *Frame, st *State, in ssa.CallInstruction, c *ssa.CallCommon, kind string) []*Exit {
	var args []Val
	fnv := e.get(st, c.Value)
	if c.IsInvoke() {
		args = append(args, fnv)
	}
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	return e.callWith(fr, st, in, c, kind, fnv, args)
}

func (e *Eng) goEvent(fr *Frame, st *State, x *ssa.Go) {
	if e.Call == nil {
		return
	}
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, e.get(st, a))
	}
	name := "dynamic"
	if f := x.Call.StaticCallee(); f != nil {
		name = e.P.FnName(f)
	}
	e.Call(&Ev{E: e, Kind: "go", Name: name, Args: args, Instr: x, Ctx: fr.ctx, G: st.g, st: st, Callee: x.Call.StaticCallee()})
}

type target struct {
	fn    *ssa.Function
	binds []Val
	name  string
	bi    string
}

func (e *Eng) callWith(fr *Frame, st *State, in ssa.CallInstruction, c *ssa.CallCommon, kind string, fnv Val, args []Val) []*Exit {
	instr := in.(ssa.Instruction)
	var ts []target
	if c.IsInvoke() {
		ts = e.resolveInvoke(c, fnv)
	} else {
		for _, t := range stripNN(fnv) {
			for t.Op == "prev" {
				t = t.Args[0]
			}
			switch t.Op {
			case "builtin":
				ts = append(ts, target{bi: t.Str})
			case "func":
				ts = append(ts, target{fn: t.Fn, name: e.P.FnName(t.Fn)})
			case "closure":
				var binds []Val
				for _, a := range t.Args {
					binds = append(binds, e.V(a))
				}
				ts = append(ts, target{fn: t.Fn, binds: binds, name: e.P.FnName(t.Fn)})
			case "nil":
				// calling a nil function panics
				ts = append(ts, target{name: "dynamic-nil"})
			default:
				ts = append(ts, target{name: "dynamic " + e.S(t)})
			}
		}
	}
	if len(ts) == 0 {
		ts = append(ts, target{name: "dynamic"})
	}
	var out []*Exit
	for i, t := range ts {
		s := st
		if i < len(ts)-1 {
			s = st.copy()
		}
		out = append(out, e.callOne(fr, s, instr, c, kind, t, args)...)
	}
	return out
}

func (e *Eng) resolveInvoke(c *ssa.CallCommon, recv Val) []target {
	name := "(" + e.P.Short(types.TypeString(c.Value.Type(), nil)) + ")." + c.Method.Name()
	var ts []target
	for _, t := range stripNN(recv) {
		if t.Type != nil && !types.IsInterface(t.Type) {
			if f := e.lookupMethod(t.Type, c.Method.Pkg(), c.Method.Name()); f != nil {
				ts = append(ts, target{fn: f, name: e.P.FnName(f)})
				continue
			}
		}
		ts = append(ts, target{name: name})
	}
	// one implementation in the module for a module interface
	var out []target
	seen := map[string]bool{}
	for _, t := range ts {
		if t.fn == nil {
			if impl := e.soleImpl(c); impl != nil {
				t = target{fn: impl, name: e.P.FnName(impl)}
			}
		}
		if !seen[t.name] {
			seen[t.name] = true
			out = append(out, t)
		}
	}
	return out
}

func (e *Eng) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := e.P.SSA.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.P.SSA.MethodValue(sel)
}

func (e *Eng) soleImpl(c *ssa.CallCommon) *ssa.Function {
	nt, ok := c.Value.Type().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), e.P.Module) {
		return nil
	}
	it := nt.Underlying().(*types.Interface)
	var found *ssa.Function
	n := 0
	for _, sp := range e.P.byPath {
		for _, m := range sp.Members {
			ty, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(ty.Type()) {
				continue
			}
			for _, x := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
				if types.Implements(x, it) {
					if f := e.P.SSA.LookupMethod(x, c.Method.Pkg(), c.Method.Name()); f != nil {
						found = f
						n++
					}
					break
				}
			}
		}
	}
	if n == 1 {
		return found
	}
	return nil
}

func sigResults(c *ssa.CallCommon) []types.Type {
	var out []types.Type
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return out
}

func (e *Eng) callOne(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, kind string, t target, args []Val) []*Exit {
	if t.bi != "" {
		return e.builtin(fr, st, in, c, t.bi, args)
	}
	e.Calls[t.name]++
	e.Sites[in] = true
	ev := &Ev{E: e, Kind: kind, Name: t.name, Callee: t.fn, Args: args, Instr: in, Ctx: fr.ctx, G: st.g, st: st, Sig: c.Signature()}
	if e.Call != nil {
		if outs := e.Call(ev); outs != nil {
			var xs []*Exit
			for i, o := range outs {
				g := st.g
				if i < len(outs)-1 {
					g = st.g.Copy()
				}
				for k, v := range o.Set {
					if v == "" {
						delete(g.Auto, k)
					} else {
						g.Auto[k] = v
					}
				}
				for f, v := range o.Facts {
					e.assert(g, f, v)
				}
				if o.Do != nil {
					o.Do(g)
				}
				kind := o.Exit
				if kind == "" {
					kind = "return"
				}
				if kind == "none" {
					continue
				}
				res := o.Res
				for j := len(res); j < len(sigResults(c)); j++ {
					res = append(res, e.externResult(fr, in, c, t.name, nil, j))
				}
				xs = append(xs, &Exit{Kind: kind, Res: res, G: g, At: in})
			}
			return xs
		}
	}
	if t.fn != nil && len(t.fn.Blocks) > 0 && e.inlinable(t.fn) && !e.Opaque[t.name] && e.wanted(t.fn) {
		if fr.ctx.Depth < e.MaxInl && !e.onStack(t.fn) {
			ctx := e.ctx(fr.ctx, in, t.fn)
			xs := e.runFrame(t.fn, ctx, args, t.binds, st.g)
			if e.After != nil {
				for _, x := range xs {
					e.After(ev, x)
				}
			}
			return xs
		}
	}
	return e.extern(fr, st, in, c, t, args, ev)
}

func (e *Eng) inlinable(fn *ssa.Function) bool {
	return e.P.InModule(fn)
}

func (e *Eng) onStack(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (e *Eng) externResult(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val, i int) Val {
	rts := sigResults(c)
	var as []*Term
	for _, a := range args {
		as = append(as, Strip(e.Alt(stripNN(a))))
	}
	pure := pureFn(name) || e.Opaque[name] || e.pureModule(name)
	base := &Term{Op: "call", Str: name, Args: as}
	if !pure {
		base.Ctx, base.Site = fr.ctx, in
	}
	if len(rts) == 1 {
		base.Type = rts[0]
		return Val{e.intern(base)}
	}
	b := e.intern(base)
	return Val{e.intern(&Term{Op: "res", Str: fmt.Sprint(i), Args: []*Term{b}, Type: rts[i]})}
}

func (e *Eng) extern(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, t target, args []Val, ev *Ev) []*Exit {
	rts := sigResults(c)
	if k := noReturn(t.name); k != "" {
		return []*Exit{{Kind: k, G: st.g, At: in}}
	}
	if strings.Contains(t.name, "sync/atomic.") {
		if xs, ok := e.atomic(st, in, t.name, args, rts, fr); ok {
			return xs
		}
	}
	// callbacks
	var cbs []*Term
	for _, a := range args {
		for _, x := range a {
			x = Strip(x)
			if (x.Op == "func" || x.Op == "closure") && len(x.Fn.Blocks) > 0 && e.inlinable(x.Fn) && !e.onStack(x.Fn) {
				cbs = append(cbs, x)
			}
		}
	}
	gs := []*G{st.g}
	if e.Opaque[t.name] || e.pureModule(t.name) {
		cbs = nil
	}
	if t.name == "(*sync.Once).Do" && len(cbs) == 1 && len(args[0]) == 1 {
		// what it runs at most once is told apart like any other call
		key := fmt.Sprint("once:", Strip(args[0][0]).ID)
		out := []*Exit{}
		if st.g.Auto[key] != "" {
			out = append(out, &Exit{Kind: "return", G: st.g, At: in})
		} else {
			var binds []Val
			for _, a := range cbs[0].Args {
				binds = append(binds, e.V(a))
			}
			g := st.g.Copy()
			g.Auto[key] = "1"
			for _, x := range e.runFrame(cbs[0].Fn, e.ctx(fr.ctx, in, cbs[0].Fn), nil, binds, g) {
				if x.Kind == "return" {
					out = append(out, &Exit{Kind: "return", G: x.G, At: in})
				} else {
					e.addExit(fr, &Exit{Kind: x.Kind, G: x.G.Copy(), At: x.At, Res: e.zeroRes(fr.fn)})
				}
			}
		}
		if e.AfterExtern != nil {
			for _, x := range out {
				e.AfterExtern(ev, x)
			}
		}
		return out
	}
	if len(cbs) > 0 && !strings.HasPrefix(t.name, "(*github.com/spf13/cobra") {
		for _, cb := range cbs {
			var next []*G
			for _, g := range gs {
				var binds []Val
				for _, a := range cb.Args {
					binds = append(binds, e.V(a))
				}
				var as []Val
				for i, p := range cb.Fn.Params {
					as = append(as, Val{e.intern(&Term{Op: "cbarg", Str: fmt.Sprint(i), Ctx: fr.ctx, Site: in, Type: p.Type()})})
				}
				next = append(next, g.Copy())
				ctx := e.ctx(fr.ctx, in, cb.Fn)
				xs := e.runFrame(cb.Fn, ctx, as, binds, g.Copy())
				for _, x := range xs {
					if x.Kind == "return" {
						e.listify(g, x.G)
						next = append(next, x.G)
					} else {
						e.addExit(fr, &Exit{Kind: x.Kind, G: x.G.Copy(), At: x.At, Res: e.zeroRes(fr.fn)})
					}
				}
			}
			gs = e.mergeGs(next)
		}
	}
	var out []*Exit
	for _, g := range gs {
		if t.fn != nil && e.skipped(t.name) && !e.Opaque[t.name] {
			e.havocModule(fr, in, g, t.fn, args)
		} else {
			e.havoc(fr, in, g, t.name, args)
		}
		var res []Val
		if v, ok := e.foldPure(t.name, args, rts); ok {
			res = []Val{v}
		} else {
			for i := range rts {
				res = append(res, e.externResult(fr, in, c, t.name, args, i))
			}
		}
		x := &Exit{Kind: "return", Res: res, G: g, At: in}
		if e.AfterExtern != nil {
			e.AfterExtern(ev, x)
		}
		out = append(out, x)
	}
	return out
}

// listify turns exact lists changed by a callback into unordered ones, since
// the callback may run more than once.
func (e *Eng) listify(before, after *G) {
	for k, v := range after.Mem {
		if sameVal(before.Mem[k], v) {
			continue
		}
		after.Mem[k] = e.mapv(v, func(t *Term) *Term {
			if t.Op == "vlist" && len(t.Args) > 0 {
				return e.List(t.Type, t.Args)
			}
			return t
		})
	}
}

func (e *Eng) mergeGs(gs []*G) []*G {
	m := map[string]*G{}
	var ord []string
	for _, g := range gs {
		k := g.autoKey()
		if o, ok := m[k]; ok {
			m[k], _ = e.joinG(o, g)
			m[k].Auto = g.Auto
		} else {
			m[k] = g
			ord = append(ord, k)
		}
	}
	var out []*G
	for _, k := range ord {
		out = append(out, m[k])
	}
	return out
}

func (e *Eng) havoc(fr *Frame, in ssa.Instruction, g *G, name string, args []Val) {
	if pureFn(name) || e.Opaque[name] || e.skipped(name) {
		return
	}
	if !doesHavoc[name] {
		for _, p := range noHavoc {
			if strings.HasPrefix(name, p) {
				return
			}
		}
	}
	for i, a := range args {
		for _, t := range a {
			t = Strip(t)
			switch t.Op {
			case "alloc", "faddr", "global", "iaddr", "param":
				et := e.elemType(t.Type)
				if et == nil {
					continue
				}
				if t.Op == "param" {
					if _, ok := et.Underlying().(*types.Struct); ok && i == 0 && strings.HasPrefix(name, "(") {
						continue
					}
				}
				out := e.intern(&Term{Op: "out", Str: fmt.Sprintf("%s#%d", name, i), Ctx: fr.ctx, Site: in, Type: et})
				e.killSub(g, t)
				if len(a) == 1 && e.strong(t) {
					g.Mem[t] = Val{out}
				} else {
					g.Mem[t] = e.union(e.loadTerm(g, t), Val{out})
				}
			}
		}
	}
}

// foldPure evaluates a few pure functions on constants (constant folding).
func (e *Eng) foldPure(name string, args []Val, rts []types.Type) (Val, bool) {
	if len(rts) != 1 {
		return nil, false
	}
	one := func(i int) (string, bool) {
		if i >= len(args) || len(args[i]) != 1 {
			return "", false
		}
		return args[i][0].ConstString()
	}
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "strings.TrimSuffix", "strings.TrimPrefix":
		a, ok1 := one(0)
		b, ok2 := one(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch name {
		case "strings.HasPrefix":
			return Val{e.Bool(strings.HasPrefix(a, b))}, true
		case "strings.HasSuffix":
			return Val{e.Bool(strings.HasSuffix(a, b))}, true
		case "strings.Contains":
			return Val{e.Bool(strings.Contains(a, b))}, true
		case "strings.EqualFold":
			return Val{e.Bool(strings.EqualFold(a, b))}, true
		case "strings.TrimSuffix":
			return Val{e.Str(strings.TrimSuffix(a, b))}, true
		case "strings.TrimPrefix":
			return Val{e.Str(strings.TrimPrefix(a, b))}, true
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Clean":
		a, ok := one(0)
		if !ok {
			return nil, false
		}
		switch name {
		case "strings.ToLower":
			return Val{e.Str(strings.ToLower(a))}, true
		case "strings.ToUpper":
			return Val{e.Str(strings.ToUpper(a))}, true
		case "strings.TrimSpace":
			return Val{e.Str(strings.TrimSpace(a))}, true
		case "path/filepath.Base":
			return Val{e.Str(filepath.Base(a))}, true
		case "path/filepath.Dir":
			return Val{e.Str(filepath.Dir(a))}, true
		case "path/filepath.Ext":
			return Val{e.Str(filepath.Ext(a))}, true
		case "path/filepath.Clean":
			return Val{e.Str(filepath.Clean(a))}, true
		}
	case "path/filepath.Join":
		if len(args) == 1 && len(args[0]) == 1 && args[0][0].Op == "vlist" {
			return Val{e.joinPath(args[0][0].Args, rts[0])}, true
		}
	}
	return nil, false
}

// joinPath flattens nested joins so that Join(Join(a,b),c) == Join(a,b,c).
func (e *Eng) joinPath(parts []*Term, typ types.Type) *Term {
	var flat []*Term
	for _, p := range parts {
		p = Strip(p)
		if p.Op == "call" && p.Str == "path/filepath.Join" && p.Args[0].Op == "vlist" {
			flat = append(flat, p.Args[0].Args...)
		} else if isEmptyStr(p) {
			continue
		} else {
			flat = append(flat, p)
		}
	}
	all := true
	var ss []string
	for _, p := range flat {
		s, ok := p.ConstString()
		if !ok {
			all = false
		}
		ss = append(ss, s)
	}
	if all {
		return e.Str(filepath.Join(ss...))
	}
	// merge adjacent constants
	var out []*Term
	for _, p := range flat {
		if s, ok := p.ConstString(); ok && len(out) > 0 {
			if q, ok := out[len(out)-1].ConstString(); ok {
				out[len(out)-1] = e.Str(filepath.Join(q, s))
				continue
			}
		}
		out = append(out, p)
	}
	l := e.intern(&Term{Op: "vlist", Args: out, Type: types.NewSlice(types.Typ[types.String])})
	return e.intern(&Term{Op: "call", Str: "path/filepath.Join", Args: []*Term{l}, Type: typ})
}

func (e *Eng) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []*Exit {
	ret := func(vs ...Val) []*Exit { return []*Exit{{Kind: "return", Res: vs, G: st.g, At: in}} }
	var rt types.Type
	if rs := c.Signature().Results(); rs.Len() > 0 {
		rt = rs.At(0).Type()
	}
	for i := range args {
		args[i] = stripNN(args[i])
	}
	switch name {
	case "len", "cap":
		return ret(e.mapv(args[0], func(t *Term) *Term {
			switch t.Op {
			case "nil":
				return e.Int(0)
			case "vlist":
				return e.Int(int64(len(t.Args)))
			case "const":
				if t.CV.Kind() == constant.String {
					return e.Int(int64(len(constant.StringVal(t.CV))))
				}
			case "make":
				if t.Str == "slice" && len(t.Args) == 1 {
					return t.Args[0]
				}
				if t.Str == "map" {
					n := 0
					e.mapCells(st.g, t, func(*Term, Val) { n++ })
					if n == 0 && !e.SymMaps {
						return e.Int(0)
					}
				}
			}
			return e.pureCall("len", types.Typ[types.Int], t)
		}))
	case "append":
		if e.Call != nil {
			e.Call(&Ev{E: e, Kind: "call", Name: "append", Args: args, Instr: in, Ctx: fr.ctx, G: st.g, st: st, Sig: c.Signature()})
		}
		return ret(e.cross(args[0], args[1], func(a, b *Term) *Term { return e.appendTerm(st.g, a, b, rt) }))
	case "copy":
		for _, d := range args[0] {
			v := e.Val1(st.g, args[1])
			ca := e.contentAddr(d)
			st.g.Mem[ca] = e.union(st.g.Mem[ca], v)
			for k, old := range st.g.Mem {
				if k.Op == "cell" && k.Args[0] == d {
					st.g.Mem[k] = e.union(old, v)
				}
			}
		}
		return ret(Val{e.fresh("opaque", "copy", fr, in, types.Typ[types.Int])})
	case "delete":
		if e.Call != nil {
			e.Call(&Ev{E: e, Kind: "call", Name: "delete", Args: args, Instr: in, Ctx: fr.ctx, G: st.g, st: st, Sig: c.Signature()})
		}
		for _, m := range args[0] {
			for _, k := range args[1] {
				if len(args[0]) == 1 && len(args[1]) == 1 {
					st.g.Mem[e.mapCell(m, k)] = Val{e.absent()}
				} else {
					e.mapStore(st.g, m, k, Val{e.absent()}, false)
				}
			}
		}
		return ret()
	case "close":
		for _, ch := range args[0] {
			ch = Strip(ch)
			for ch.Op == "prev" {
				ch = ch.Args[0]
			}
			if !e.chanClosed[ch] {
				e.chanClosed[ch] = true
				e.chanChg = true
			}
		}
		if e.Call != nil {
			e.Call(&Ev{E: e, Kind: "call", Name: "close", Args: args, Instr: in, Ctx: fr.ctx, G: st.g, st: st, Sig: c.Signature()})
		}
		return ret()
	case "panic":
		return []*Exit{{Kind: "panic", G: st.g, At: in}}
	case "recover":
		return ret(Val{e.Nil()})
	case "min", "max":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, e.Alt(a))
		}
		return ret(Val{e.pureCall(name, rt, ts...)})
	case "print", "println", "clear":
		return ret()
	}
	var vs []Val
	for i := range sigResults(c) {
		vs = append(vs, Val{e.fresh("opaque", name+fmt.Sprint(i), fr, in, sigResults(c)[i])})
	}
	return ret(vs...)
}

// Val1 is the element value of slices v.
func (e *Eng) Val1(g *G, v Val) Val {
	var out Val
	for _, t := range v {
		var et types.Type
		if t.Type != nil {
			if s, ok := t.Type.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		switch t.Op {
		case "vlist", "list":
			out = e.union(out, e.elemOf(t, e.T("any", "", nil), et))
		default:
			out = e.union(out, Val{e.intern(&Term{Op: "elem", Args: []*Term{t, e.T("any", "", nil)}, Type: et})})
		}
	}
	return out
}

func (e *Eng) appendTerm(g *G, a, b *Term, rt types.Type) *Term {
	if b.Op == "nil" || (b.Op == "vlist" && len(b.Args) == 0) {
		return a
	}
	if sl, ok := rt.Underlying().(*types.Slice); ok && e.UnrollFew && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
		// known text goes on as text
		text := func(t *Term) (string, bool) {
			if t = Strip(t); t.Op == "nil" || t.Op == "zero" {
				return "", true
			}
			return t.ConstString()
		}
		x, okA := text(a)
		y, okB := text(b)
		if okA && okB && len(x)+len(y) < 2000 {
			return e.Str(x + y)
		}
	}
	exact := func(t *Term) ([]*Term, bool) {
		switch t.Op {
		case "nil", "zero":
			return nil, true
		case "vlist":
			return t.Args, true
		case "make":
			if t.Str == "slice" && len(t.Args) == 1 {
				if i, ok := t.Args[0].ConstInt(); ok && i == 0 {
					return nil, true
				}
			}
		}
		return nil, false
	}
	la, okA := exact(a)
	lb, okB := exact(b)
	if okA && okB && len(la)+len(lb) <= 40 {
		dup := false
		for _, x := range lb {
			if x.Op == "prev" {
				dup = true
			}
		}
		if !dup {
			return e.intern(&Term{Op: "vlist", Args: append(append([]*Term{}, la...), lb...), Type: rt})
		}
	}
	parts := append(append([]*Term{}, e.contentParts(g, a)...), e.contentParts(g, b)...)
	return e.List(rt, parts)
}

func (e *Eng) contentParts(g *G, t *Term) []*Term {
	if v, ok := g.Mem[e.contentAddr(t)]; ok && t.Op == "make" {
		return v
	}
	return e.listParts(t)
}

// atomic models sync/atomic: the operations act on the addressed memory.
func (e *Eng) atomic(fr0 *State, in ssa.Instruction, name string, args []Val, rts []types.Type, fr *Frame) ([]*Exit, bool) {
	if len(args) == 0 {
		return nil, false
	}
	addr := args[0]
	op := name[strings.LastIndexByte(name, '.')+1:]
	if strings.HasPrefix(name, "(") {
		addr = e.mapv(addr, func(t *Term) *Term {
			var et types.Type
			if len(rts) == 1 && op != "CompareAndSwap" {
				et = rts[0]
			} else if len(args) > 1 && len(args[1]) > 0 {
				et = args[1][0].Type
			}
			if et == nil {
				return e.FieldAddr(t, "v", nil)
			}
			return e.FieldAddr(t, "v", types.NewPointer(et))
		})
	}
	ret := func(g *G, vs ...Val) *Exit { return &Exit{Kind: "return", Res: vs, G: g, At: in} }
	g := fr0.g
	load := func() Val { return e.Load(g, addr) }
	switch {
	case strings.HasPrefix(op, "Store") && len(args) == 2:
		e.store(g, addr, args[1])
		return []*Exit{ret(g)}, true
	case strings.HasPrefix(op, "Load") && len(args) == 1:
		return []*Exit{ret(g, load())}, true
	case strings.HasPrefix(op, "Add") && len(args) == 2 && len(rts) == 1:
		n := e.cross(load(), args[1], func(a, b *Term) *Term { return e.Bin(token.ADD, a, b, rts[0]) })
		e.store(g, addr, n)
		return []*Exit{ret(g, n)}, true
	case strings.HasPrefix(op, "Swap") && len(args) == 2:
		old := load()
		e.store(g, addr, args[1])
		return []*Exit{ret(g, old)}, true
	case strings.HasPrefix(op, "CompareAndSwap") && len(args) == 3:
		h := g.Copy()
		e.store(h, addr, args[2])
		return []*Exit{ret(h, Val{e.Bool(true)}), ret(g, Val{e.Bool(false)})}, true
	}
	return nil, false
}
