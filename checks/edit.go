package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/engine"
)

func init() {
	register("C26", "Abstract interpretation of the commands that edit the configuration over a set of layouts of its text and outcomes of reading and writing it: what is written is compared, line by line, with what was there.", c26)
}

// editWorld is a layout of the configuration, by lines, and packages named on
// the command line.
type editWorld struct {
	name   string
	file   []string
	listed []string // what its Packages list holds
	args   []string
	gone   []int // the lines to be removed
}

var editWorlds = []editWorld{
	{"one package of a list", []string{"Version: 1", "Packages:", "- data", "- other", "Repos:", "- CRAN: x"}, []string{"data", "other"}, []string{"data"}, []int{2}},
	{"an indented list", []string{"Packages:", "  - other", "  - data", "", "Library: lib"}, []string{"other", "data"}, []string{"data"}, []int{2}},
	{"a package whose name another one starts with", []string{"Packages:", "- database", "- data", "- data.table"}, []string{"database", "data", "data.table"}, []string{"data"}, []int{2}},
	{"only packages whose names start with it", []string{"Packages:", "- data.table", "  # data", "- my.data"}, []string{"data.table", "my.data"}, []string{"data"}, nil},
	{"the same name in other sections", []string{"Repos:", "- data: x", "Packages:", "- data", "IgnorePackages:", "- data", "Customizations:", "  Packages:", "  - data:", "      Suggests: true"}, []string{"data"}, []string{"data"}, []int{3}},
	{"comments", []string{"# - data", "Packages:", "# first", "- data # needed", "- other # data"}, []string{"data", "other"}, []string{"data"}, []int{3}},
	{"a name that is not listed", []string{"Packages:", "- other", "Suggests: true"}, []string{"other"}, []string{"data"}, nil},
	{"a name in other letters", []string{"Packages:", "- Data", "- DATA", "- other"}, []string{"Data", "DATA", "other"}, []string{"data"}, nil},
	{"two packages", []string{"Packages:", "- data", "- other", "- third"}, []string{"data", "other", "third"}, []string{"third", "data"}, []int{1, 3}},
}

var addWorlds = []editWorld{
	{"a list", []string{"Version: 1", "Packages:", "- other", "Repos:", "- CRAN: x"}, []string{"other"}, []string{"data"}, nil},
	{"an indented list", []string{"Packages:", "  - other", "Library: lib"}, []string{"other"}, []string{"data"}, nil},
	{"a comment before the list", []string{"Packages:", "# first", "  - other"}, []string{"other"}, []string{"data"}, nil},
	{"already listed", []string{"Packages:", "- data", "- other"}, []string{"data", "other"}, []string{"data"}, nil},
	{"one of two already listed", []string{"Packages:", "- data"}, []string{"data"}, []string{"data", "third"}, nil},
	{"a list of packages whose names start with it", []string{"Packages:", "- database"}, []string{"database"}, []string{"data"}, nil},
	{"no list", []string{"Version: 1", "Repos:", "- CRAN: x"}, nil, []string{"data"}, nil},
	{"an empty list", []string{"Version: 1", "Packages:"}, nil, []string{"data"}, nil},
	{"the same name in other sections", []string{"Repos:", "- data: x", "Packages:", "- other", "Customizations:", "  Packages:", "  - data:", "      Suggests: true"}, []string{"other"}, []string{"data"}, nil},
	{"a package named twice", []string{"Packages:", "- other"}, []string{"other"}, []string{"data", "data"}, nil},
	{"the name in other letters", []string{"Packages:", "- Data"}, []string{"Data"}, []string{"data"}, nil},
	{"a list below others", []string{"Repos:", "  - CRAN: x", "Packages:", "- other", "", "# last", "IgnorePackages:", "    - data"}, []string{"other"}, []string{"data"}, nil},
	{"two packages", []string{"Packages:", "- other", "Threads: 1"}, []string{"other"}, []string{"data", "third"}, nil},
}

func c26(c *C) {
	c.Rule("remove", "of the lines of the configuration exactly those of the Packages section that name a package to be removed are left out")
	c.Rule("add", "every package to be added that is not listed yet gets a line of the Packages section, formed like the other lines of the list, and every other line stays")
	c.Rule("unread", "a configuration that cannot be read or understood is not written")
	c.Rule("reported", "a command that could not read or write the configuration does not end as if it had")
	c.Rule("target", "nothing but the configuration is written")
	for _, w := range editWorlds {
		c26run(c, "remove", w)
	}
	for _, w := range addWorlds {
		c26run(c, "add", w)
	}
	c.Min("remove", len(editWorlds), 8, "layouts a package is removed from")
	c.Min("add", len(addWorlds), 10, "layouts a package is added to")
}

func c26run(c *C, use string, w editWorld) {
	fn := commandFunc(c, use)
	if fn == nil {
		c.Fail(use, "pkgr "+use, "", "the function of the command was not found", nil)
		return
	}
	con := c.P.FnName(fn)
	e := c.Eng()
	e.UnrollFew = true
	e.MaxParts = 400
	files := `^(github.com/)?.*(Stat|ReadFile|WriteFile|ReadLines|WriteLines|ReadLinesFS|WriteLinesFS)$|^os\.(Create|OpenFile|Rename|Remove|RemoveAll|Truncate)$`
	e.Relevant = rel(files + `|^configlib\.(AddPackages|RemovePackage)$|^(strings|bytes|bufio)\.|^\(\*bufio\.Scanner\)|Unmarshal$|ContainsString$`)
	opaqueBut(e, c, "cmd.")
	delete(e.Opaque, con)
	for n := range e.Opaque {
		if strings.HasPrefix(n, "configlib.") && n != "configlib.NewConfig" {
			delete(e.Opaque, n)
		}
	}
	for _, n := range []string{"cmd.initConfig", "cmd.rInstall", "cmd.initAddLog", "cmd.initRemoveLog"} {
		e.Opaque[n] = true
	}
	tx := &Text{M: &Model{Atom: func(t *engine.Term) (any, bool) { return nil, false }}}
	tx.Use(e)
	strs := func(ss []string) *engine.Term {
		var ts []*engine.Term
		for _, s := range ss {
			ts = append(ts, e.Str(s))
		}
		return e.T("vlist", "", nil, ts...)
	}
	e.Known = func(t *engine.Term) *engine.Term {
		if isField(t, "Packages") || t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Str == "Packages" {
			return strs(w.listed)
		}
		return nil
	}
	isConfig := func(v engine.Val) bool {
		return v.All(func(t *engine.Term) bool {
			return t.Op == "call" && strings.HasSuffix(t.Str, "ConfigFileUsed") || t.Op == "res" && t.Contains(func(x *engine.Term) bool { return strings.HasSuffix(x.Str, "ConfigFileUsed") })
		}) && len(v) > 0
	}
	start := strings.Join(w.file, "\n") + "\n"
	textOf := func(v engine.Val) (string, bool) { return tx.NormVal(v) }
	linesOf := func(v engine.Val) ([]string, bool) {
		if len(v) != 1 {
			return nil, false
		}
		t := engine.Strip(v[0])
		if t.Op == "nil" || t.Op == "zero" {
			return nil, true
		}
		if l, ok := tx.list(t); ok {
			var out []string
			for _, x := range l {
				s, ok := x.(string)
				if !ok {
					return nil, false
				}
				out = append(out, s)
			}
			return out, true
		}
		return nil, false
	}
	mk := func(ev *engine.Ev, err *engine.Term, v *engine.Term) []engine.Val {
		var rs []engine.Val
		for i := 0; i < ev.Sig.Results().Len(); i++ {
			switch {
			case i == errIndex(ev):
				rs = append(rs, engine.Val{err})
			case i == 0 && v != nil:
				rs = append(rs, engine.Val{v})
			default:
				rs = append(rs, engine.Val{e.Sym(fmt.Sprintf("%s#%d", ev.Name, i), resType(ev, i))})
			}
		}
		return rs
	}
	bad := func(ev *engine.Ev, rule, msg string) {
		c.Fail(rule, con, where(ev), fmt.Sprintf("%s (%s)", msg, w.name), ev.G.Path(6))
	}
	write := func(ev *engine.Ev, path engine.Val, text string, known bool) []engine.Outcome {
		if !isConfig(path) {
			bad(ev, "target", ev.Name+" writes something that is not the configuration")
			return nil
		}
		if ev.G.Auto["fault"] == "read" {
			bad(ev, "unread", "the configuration is written although it could not be read")
		}
		if !known {
			bad(ev, use, "what is written is not made of the lines of the configuration")
			text = "?"
		}
		return []engine.Outcome{
			{Res: mk(ev, e.Nil(), nil), Set: map[string]string{"file": text}},
			{Res: mk(ev, e.NonNilErr(ev.Name), nil), Set: map[string]string{"fault": "write"}},
		}
	}
	scans := 0
	e.Call = func(ev *engine.Ev) []engine.Outcome {
		if ev.Kind != "call" {
			return nil
		}
		n := ev.Name[strings.LastIndexAny(ev.Name, "./")+1:]
		now := ev.G.Auto["file"]
		trimmed := strings.Split(strings.TrimSuffix(now, "\n"), "\n")
		switch {
		case n == "ConfigFileUsed":
			return nil
		case ev.Sig == nil:
			return nil
		case n == "ReadFile":
			return []engine.Outcome{
				{Res: mk(ev, e.Nil(), e.Str(now))},
				{Res: mk(ev, e.NonNilErr(ev.Name), e.Str("")), Set: map[string]string{"fault": "read"}},
			}
		case n == "ReadLines" || n == "ReadLinesFS":
			return []engine.Outcome{
				{Res: mk(ev, e.Nil(), strs(trimmed))},
				{Res: mk(ev, e.NonNilErr(ev.Name), strs(nil)), Set: map[string]string{"fault": "read"}},
			}
		case n == "WriteFile":
			s, ok := textOf(ev.Arg(len(ev.Args) - 2))
			return write(ev, ev.Arg(len(ev.Args)-3), s, ok)
		case n == "WriteLines":
			l, ok := linesOf(ev.Arg(0))
			return write(ev, ev.Arg(1), strings.Join(l, "\n")+"\n", ok)
		case n == "WriteLinesFS":
			l, ok := linesOf(ev.Arg(1))
			return write(ev, ev.Arg(2), strings.Join(l, "\n")+"\n", ok)
		case ev.Name == "os.Create" || ev.Name == "os.OpenFile" || ev.Name == "os.Truncate" || ev.Name == "os.Remove" || ev.Name == "os.RemoveAll" || ev.Name == "os.Rename":
			bad(ev, "target", ev.Name+": not known to be a change of the lines of the configuration")
			return nil
		case n == "Stat" && errIndex(ev) >= 0:
			return []engine.Outcome{
				{Res: mk(ev, e.Nil(), nil)},
				{Res: mk(ev, e.NonNilErr(ev.Name), nil), Set: map[string]string{"fault": "read"}},
			}
		case n == "Unmarshal":
			into := ev.Arg(len(ev.Args) - 1)
			listed := func(g *engine.G) {
				for _, t := range into {
					g.Mem[e.FieldAddr(engine.Strip(t), "Packages", types.NewPointer(types.NewSlice(types.Typ[types.String])))] = engine.Val{strs(w.listed)}
				}
			}
			return []engine.Outcome{
				{Res: mk(ev, e.Nil(), nil), Do: listed},
				{Res: mk(ev, e.NonNilErr(ev.Name), nil), Set: map[string]string{"fault": "read"}},
			}
		case n == "ContainsString" || n == "Contains" && len(ev.Args) == 2 && !strings.Contains(ev.Name, "strings") && !strings.Contains(ev.Name, "bytes"):
			l, ok := linesOf(ev.Arg(0))
			s, ok2 := textOf(ev.Arg(1))
			if !ok || !ok2 {
				return nil
			}
			in := false
			for _, x := range l {
				in = in || x == s
			}
			return []engine.Outcome{{Res: []engine.Val{{e.Bool(in)}}}}
		case strings.HasSuffix(ev.Name, "bufio.Scanner).Scan"):
			scans++
			i := 0
			fmt.Sscan(ev.G.Auto["line"], &i)
			if i < len(trimmed) {
				return []engine.Outcome{
					{Res: []engine.Val{{e.Bool(true)}}, Set: map[string]string{"line": fmt.Sprint(i + 1)}},
					{Res: []engine.Val{{e.Bool(false)}}, Set: map[string]string{"fault": "read", "cut": "1"}},
				}
			}
			return []engine.Outcome{{Res: []engine.Val{{e.Bool(false)}}}}
		case strings.HasSuffix(ev.Name, "bufio.Scanner).Text") || strings.HasSuffix(ev.Name, "bufio.Scanner).Bytes"):
			i := 0
			fmt.Sscan(ev.G.Auto["line"], &i)
			if i > 0 && i <= len(trimmed) {
				return []engine.Outcome{{Res: []engine.Val{{e.Str(trimmed[i-1])}}}}
			}
		case strings.HasSuffix(ev.Name, "bufio.Scanner).Err"):
			if ev.G.Auto["cut"] == "1" {
				return []engine.Outcome{{Res: []engine.Val{{e.NonNilErr(ev.Name)}}}}
			}
			return []engine.Outcome{{Res: []engine.Val{{e.Nil()}}}}
		case ev.Name == "bytes.Split" || ev.Name == "strings.Split":
			s, ok := textOf(ev.Arg(0))
			sep, ok2 := textOf(ev.Arg(1))
			if ok && ok2 {
				return []engine.Outcome{{Res: []engine.Val{{strs(strings.Split(s, sep))}}}}
			}
		case strings.HasPrefix(ev.Name, "strings.") || strings.HasPrefix(ev.Name, "bytes."):
			// what is known of the text is known of the result
			if ev.Sig.Results().Len() != 1 {
				return nil
			}
			var as []*engine.Term
			for _, a := range ev.Args {
				if len(a) != 1 {
					return nil
				}
				as = append(as, a[0])
			}
			switch v, _ := tx.norm(e.T("call", ev.Name, resType(ev, 0), as...)); v := v.(type) {
			case string:
				if !strings.Contains(v, "<") {
					return []engine.Outcome{{Res: []engine.Val{{e.Str(v)}}}}
				}
			case int64:
				return []engine.Outcome{{Res: []engine.Val{{e.Int(v)}}}}
			case bool:
				return []engine.Outcome{{Res: []engine.Val{{e.Bool(v)}}}}
			}
		}
		return nil
	}
	st := e.Start()
	st.Auto["file"] = start
	var params []engine.Val
	for _, p := range fn.Params {
		if p.Type().String() == "[]string" {
			params = append(params, engine.Val{strs(w.args)})
		} else {
			params = append(params, engine.Val{e.Sym(p.Name(), p.Type())})
		}
	}
	exits := e.Run(fn, st, params...)
	done := 0
	for _, x := range exits {
		at := ""
		if x.At != nil {
			at = c.P.InstrPos(x.At)
		}
		ok := x.Kind == "return" && (len(x.Res) == 0 || x.Res[len(x.Res)-1].All(func(t *engine.Term) bool { return x.G != nil && e.IsNil(x.G, engine.Val{t}) }))
		switch fault := x.G.Auto["fault"]; {
		case x.Kind == "panic":
			c.Fail(use, con, at, fmt.Sprintf("the command fails with a panic (%s)", w.name), x.G.Path(6))
		case fault != "" && ok:
			c.Fail("reported", con, at, fmt.Sprintf("the command ends well although the configuration could not be %s (%s)", map[string]string{"read": "read", "write": "written"}[fault], w.name), x.G.Path(6))
		case fault == "" && ok:
			done++
			if msg := edited(use, w, x.G.Auto["file"]); msg != "" {
				c.Fail(use, con, at, fmt.Sprintf("%s (%s)", msg, w.name), x.G.Path(6))
			}
		case fault == "" && !ok:
			c.Fail(use, con, at, fmt.Sprintf("the command fails although nothing went wrong (%s)", w.name), x.G.Path(6))
		}
	}
	c.Absorb(e)
	c.Obl(use, con+", "+w.name)
	if done == 0 {
		c.Fail(use, con, "", fmt.Sprintf("the command never succeeds (%s)", w.name), nil)
	}
}

// edited compares the configuration afterwards with the one before.
func edited(use string, w editWorld, after string) string {
	got := strings.Split(strings.TrimRight(after, "\n"), "\n")
	if use == "remove" {
		var want []string
		for i, l := range w.file {
			keep := true
			for _, g := range w.gone {
				keep = keep && g != i
			}
			if keep {
				want = append(want, l)
			}
		}
		for i := 0; i < len(got) || i < len(want); i++ {
			switch {
			case i >= len(got):
				return fmt.Sprintf("the line %q is gone", want[i])
			case i >= len(want):
				return fmt.Sprintf("the line %q should not be there", got[i])
			case got[i] != want[i]:
				return fmt.Sprintf("there is the line %q instead of %q", got[i], want[i])
			}
		}
		return ""
	}
	need := map[string]bool{}
	for _, a := range w.args {
		need[a] = true
	}
	indent := ""
	for _, l := range w.listed {
		delete(need, l)
	}
	section, has := "", false
	for _, l := range w.file {
		if k, _, ok := strings.Cut(l, ":"); ok && l != "" && !strings.ContainsAny(l[:1], " -#") {
			section = k
			has = has || k == "Packages"
		}
		if t := strings.TrimLeft(l, " "); section == "Packages" && strings.HasPrefix(t, "- ") {
			indent = l[:len(l)-len(t)]
		}
	}
	section = ""
	i := 0
	for _, l := range got {
		if k, _, ok := strings.Cut(l, ":"); ok && l != "" && !strings.ContainsAny(l[:1], " -#") {
			section = k
		}
		if i < len(w.file) && w.file[i] == l {
			i++
			continue
		}
		name, item := strings.CutPrefix(l, indent+"- ")
		switch {
		case item && need[name] && section == "Packages":
			delete(need, name)
		case item && section != "Packages":
			return fmt.Sprintf("the line %q is not in the Packages section", l)
		case !has && (l == "" || l == "Packages:"):
		default:
			return fmt.Sprintf("there is the line %q", l)
		}
	}
	if i < len(w.file) {
		return fmt.Sprintf("the line %q is gone", w.file[i])
	}
	for n := range need {
		return fmt.Sprintf("%s is not in the list", n)
	}
	return ""
}
