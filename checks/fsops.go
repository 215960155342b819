package checks

import (
	"strings"

	"verif/engine"
)

// Effect is one file-system effect of a call.
type Effect struct {
	Kind string // remove, removeall, rename, mkdir, mkdirall, write, chmod, link, chdir
	Path engine.Val
	To   engine.Val // rename target, copy target
}

// fsEffects normalises the file-system operations the module can perform,
// whichever API they go through.
func fsEffects(ev *engine.Ev) []Effect {
	n := ev.Name
	if ev.Callee != nil && ev.E.P.InModule(ev.Callee) {
		return nil
	}
	arg := func(i int) engine.Val { return ev.Arg(i) }
	one := func(kind string, i int) []Effect { return []Effect{{Kind: kind, Path: arg(i)}} }
	// afero.Fs methods carry the receiver first
	if i := strings.LastIndexByte(n, '.'); i > 0 && strings.Contains(n, "spf13/afero") && strings.HasPrefix(n, "(") {
		recv := n[:i]
		switch n[i+1:] {
		case "Remove":
			return one("remove", 1)
		case "RemoveAll":
			return one("removeall", 1)
		case "Rename":
			return []Effect{{Kind: "rename", Path: arg(1), To: arg(2)}}
		case "Mkdir", "MkdirAll":
			return one("mkdir", 1)
		case "Create":
			return one("write", 1)
		case "OpenFile":
			if readOnlyFlag(arg(2)) {
				return nil
			}
			return one("write", 1)
		case "WriteFile", "WriteReader", "SafeWriteReader":
			return one("write", 1)
		case "Chmod", "Chtimes", "Chown":
			return one("chmod", 1)
		case "TempDir", "TempFile":
			return nil // a fresh name under the given directory
		case "SymlinkIfPossible":
			return one("link", 2)
		}
		_ = recv
		return nil
	}
	switch n {
	case "os.Remove", "syscall.Unlink", "syscall.Rmdir":
		return one("remove", 0)
	case "os.RemoveAll":
		return one("removeall", 0)
	case "os.Rename":
		return []Effect{{Kind: "rename", Path: arg(0), To: arg(1)}}
	case "os.Mkdir", "os.MkdirAll":
		return one("mkdir", 0)
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate":
		return one("write", 0)
	case "os.OpenFile":
		if readOnlyFlag(arg(1)) {
			return nil
		}
		return one("write", 0)
	case "os.Chmod", "os.Chown", "os.Chtimes":
		return one("chmod", 0)
	case "os.Symlink", "os.Link":
		return one("link", 1)
	case "os.Chdir":
		return one("chdir", 0)
	case "github.com/spf13/afero.WriteFile", "github.com/spf13/afero.WriteReader", "github.com/spf13/afero.SafeWriteReader":
		return one("write", 1)
	case "github.com/dpastoor/goutils.Copy", "github.com/dpastoor/goutils.CopyFS":
		if len(ev.Args) == 3 {
			return one("write", 2)
		}
		return one("write", 1)
	case "github.com/dpastoor/goutils.WriteLines":
		return one("write", 1)
	case "github.com/dpastoor/goutils.WriteLinesFS":
		return one("write", 2)
	}
	return nil
}

func readOnlyFlag(v engine.Val) bool {
	return v.All(func(t *engine.Term) bool {
		i, ok := t.ConstInt()
		return ok && i == 0
	})
}

// mutatingFS reports a name that may change the file system, for slicing.
func mutatingFS(name string) bool {
	switch name {
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.Create", "os.WriteFile", "io/ioutil.WriteFile",
		"os.Truncate", "os.OpenFile", "os.Chmod", "os.Chown", "os.Chtimes", "os.Symlink", "os.Link", "os.Chdir",
		"github.com/spf13/afero.WriteFile", "github.com/spf13/afero.WriteReader", "github.com/spf13/afero.SafeWriteReader",
		"github.com/dpastoor/goutils.Copy", "github.com/dpastoor/goutils.CopyFS", "github.com/dpastoor/goutils.WriteLines", "github.com/dpastoor/goutils.WriteLinesFS",
		"syscall.Unlink", "syscall.Rmdir":
		return true
	}
	if strings.Contains(name, "spf13/afero") && strings.HasPrefix(name, "(") {
		switch name[strings.LastIndexByte(name, '.')+1:] {
		case "Remove", "RemoveAll", "Rename", "Mkdir", "MkdirAll", "Create", "OpenFile", "WriteFile", "WriteReader", "SafeWriteReader", "Chmod", "Chtimes", "Chown", "SymlinkIfPossible":
			return true
		}
	}
	return false
}
