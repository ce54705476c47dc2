// instrument writes copies of Go sources in which the meeting points with the outside
// world (locks, go statements, the clock, process exit, sockets, files) lead to the simulator,
// and an overlay file that makes the Go tool compile the copies instead.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// A rule set: import path -> selector -> replacement "pkgalias.Name" with import path.
type target struct{ pkg, name string }

var common = map[string]map[string]target{
	"sync": {
		"Mutex":     {"verifsim/rt/rsync", "Mutex"},
		"RWMutex":   {"verifsim/rt/rsync", "RWMutex"},
		"Once":      {"verifsim/rt/rsync", "Once"},
		"Cond":      {"verifsim/rt/rsync", "Cond"},
		"NewCond":   {"verifsim/rt/rsync", "NewCond"},
		"WaitGroup": {"verifsim/rt/rsync", "WaitGroup"},
	},
	"time": {
		"Now":   {"verifsim/rt/rtime", "Now"},
		"Since": {"verifsim/rt/rtime", "Since"},
		"Until": {"verifsim/rt/rtime", "Until"},
		"Sleep": {"verifsim/rt/rtime", "Sleep"},
	},
	"log": {
		"Fatal":   {"verifsim/rt/rlog", "Fatal"},
		"Fatalf":  {"verifsim/rt/rlog", "Fatalf"},
		"Fatalln": {"verifsim/rt/rlog", "Fatalln"},
		"Print":   {"verifsim/rt/rlog", "Print"},
		"Printf":  {"verifsim/rt/rlog", "Printf"},
		"Println": {"verifsim/rt/rlog", "Println"},
	},
	"os": {
		"Exit": {"verifsim/rt/rlog", "Exit"},
	},
	"net": {
		"Listen": {"verifsim/rt/rnet", "Listen"},
	},
	"google.golang.org/grpc": {
		"Dial":        {"verifsim/rt/rgrpc", "Dial"},
		"NewClient":   {"verifsim/rt/rgrpc", "NewClient"},
		"DialContext": {"verifsim/rt/rgrpc", "DialContext"},
	},
}

// diskRules apply to the storage that works with files under the simulator.
var diskRules = map[string]target{
	"File":     {"verifsim/rt/disk", "File"},
	"Open":     {"verifsim/rt/disk", "Open"},
	"OpenFile": {"verifsim/rt/disk", "OpenFile"},
	"Create":   {"verifsim/rt/disk", "Create"},
	"Stat":     {"verifsim/rt/disk", "Stat"},
	"Lstat":    {"verifsim/rt/disk", "Stat"},
	"Remove":   {"verifsim/rt/disk", "Remove"},
	"Rename":   {"verifsim/rt/disk", "Rename"},
	"MkdirAll": {"verifsim/rt/disk", "MkdirAll"},
	"Mkdir":    {"verifsim/rt/disk", "MkdirAll"},
}

func withDisk() map[string]map[string]target {
	rv := map[string]map[string]target{}
	for k, v := range common {
		rv[k] = v
	}
	rv["os"] = map[string]target{}
	for k, v := range common["os"] {
		rv["os"][k] = v
	}
	for k, v := range diskRules {
		rv["os"][k] = v
	}
	return rv
}

var boltRules = map[string]map[string]target{
	"sync": {
		"Mutex":   {"verifsim/rt/rsync", "QMutex"},
		"RWMutex": {"verifsim/rt/rsync", "QRWMutex"},
		"Once":    {"verifsim/rt/rsync", "Once"},
	},
	"os": {
		"File":     {"verifsim/rt/disk", "File"},
		"OpenFile": {"verifsim/rt/disk", "OpenFile"},
		"Stat":     {"verifsim/rt/disk", "Stat"},
		"Remove":   {"verifsim/rt/disk", "Remove"},
	},
	"time": {
		"Now":   {"verifsim/rt/rtime", "Mono"},
		"Since": {"verifsim/rt/rtime", "MonoSince"},
		"Sleep": {"verifsim/rt/rtime", "Sleep"},
	},
}

var badgerRules = map[string]map[string]target{
	"sync": {
		"Mutex":     {"verifsim/rt/rsync", "QMutex"},
		"RWMutex":   {"verifsim/rt/rsync", "QRWMutex"},
		"Once":      {"verifsim/rt/rsync", "Once"},
		"WaitGroup": {"verifsim/rt/rsync", "WaitGroup"},
	},
	"os": {
		"File":     {"verifsim/rt/disk", "File"},
		"OpenFile": {"verifsim/rt/disk", "OpenFile"},
		"Open":     {"verifsim/rt/disk", "Open"},
		"Stat":     {"verifsim/rt/disk", "Stat"},
		"Remove":   {"verifsim/rt/disk", "Remove"},
		"Rename":   {"verifsim/rt/disk", "Rename"},
		"Mkdir":    {"verifsim/rt/disk", "MkdirAll"},
		"MkdirAll": {"verifsim/rt/disk", "MkdirAll"},
		"Exit":     {"verifsim/rt/rlog", "Exit"},
	},
	"io/ioutil": {
		"ReadDir":   {"verifsim/rt/disk", "ReadDir"},
		"ReadFile":  {"verifsim/rt/disk", "ReadFile"},
		"WriteFile": {"verifsim/rt/disk", "WriteFile"},
	},
	"path/filepath": {
		"Walk": {"verifsim/rt/disk", "Walk"},
	},
	"log": {
		"Fatal":   {"verifsim/rt/rlog", "Fatal"},
		"Fatalf":  {"verifsim/rt/rlog", "Fatalf"},
		"Fatalln": {"verifsim/rt/rlog", "Fatalln"},
	},
	"time": {
		"Now":       {"verifsim/rt/rtime", "Mono"},
		"Since":     {"verifsim/rt/rtime", "MonoSince"},
		"Sleep":     {"verifsim/rt/rtime", "Sleep"},
		"NewTicker": {"verifsim/rt/rtime", "NewTicker"},
	},
	"math/rand": {
		"Intn":   {"verifsim/rt/rrand", "Intn"},
		"Int31n": {"verifsim/rt/rrand", "Int31n"},
		"Int63n": {"verifsim/rt/rrand", "Int63n"},
		"Seed":   {"verifsim/rt/rrand", "Seed"},
	},
	"github.com/dgraph-io/ristretto/z": {
		"FastRand": {"verifsim/rt/rrand", "FastRand"},
	},
}

// poolRules are for the pool of database connections.
var poolRules = map[string]map[string]target{
	"sync": {
		"Mutex":     {"verifsim/rt/rsync", "QMutex"},
		"RWMutex":   {"verifsim/rt/rsync", "QRWMutex"},
		"Once":      {"verifsim/rt/rsync", "Once"},
		"WaitGroup": {"verifsim/rt/rsync", "WaitGroup"},
	},
	"time": {
		"Sleep":     {"verifsim/rt/rtime", "Sleep"},
		"NewTicker": {"verifsim/rt/rtime", "NewTicker"},
	},
}

// badgerEdits make badger small and quiet: its defaults are for databases of gigabytes.
var badgerEdits = map[string][][2]string{
	"txn.go": {
		{"func (txn *Txn) Get(key []byte) (item *Item, rerr error) {\n", "func (txn *Txn) Get(key []byte) (item *Item, rerr error) {\n\tif err := SimReadFault(); err != nil {\n\t\treturn nil, err\n\t}\n"},
		{"for _, e := range txn.pendingWrites {\n\t\t// fmt.Fprintf", "for _, e := range simSorted(txn.pendingWrites) {\n\t\t// fmt.Fprintf"},
		{"type pendingWritesIterator struct", "// simSorted is the entries in the order of their keys.\nfunc simSorted(m map[string]*Entry) []*Entry {\n\tvar rv []*Entry\n\tfor _, e := range m {\n\t\trv = append(rv, e)\n\t}\n\tsort.Slice(rv, func(i, j int) bool { return bytes.Compare(rv[i].Key, rv[j].Key) < 0 })\n\treturn rv\n}\n\ntype pendingWritesIterator struct"},
	},
	"db.go": {
		{"opt.ValueLogFileSize >= 1<<20)", "opt.ValueLogFileSize >= 1<<12)"},
	},
	"options.go": {
		{"MaxTableSize:            64 << 20", "MaxTableSize:            SimTableSize"},
		{"ValueLogFileSize: 1<<30 - 1", "ValueLogFileSize: SimLogSize"},
		{"Logger:             defaultLogger", "Logger:             nil"},
		{"EventLogging:       true", "EventLogging:       false"},
		{"// DefaultOptions sets a list", "// SimTableSize is set by the simulator.\nvar SimTableSize, SimLogSize int64 = 1 << 18, 1 << 18\n\n// SimReadFault is set by the simulator.\nvar SimReadFault = func() error { return nil }\n\n// DefaultOptions sets a list"},
	},
}

var universe = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true}

func rewrite(src []byte, name string, rules map[string]map[string]target, goStmts, chans bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		if _, ok := rules[p]; ok {
			imports[n] = p
		}
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	need := map[string]string{} // path -> alias
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	used := map[string]int{}
	alias := func(p string) string {
		a, ok := need[p]
		if !ok {
			a = "verif_" + p[strings.LastIndex(p, "/")+1:]
			need[p] = a
		}
		return a
	}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := imports[id.Name]
		if !ok {
			return true
		}
		t, ok := rules[p][se.Sel.Name]
		if !ok {
			used[id.Name]++
			return true
		}
		edits = append(edits, edit{off(se.Pos()), off(se.End()), alias(t.pkg) + "." + t.name})
		return true
	})
	if goStmts {
		cnt := 0
		ast.Inspect(f, func(n ast.Node) bool {
			g, ok := n.(*ast.GoStmt)
			if !ok {
				return true
			}
			cnt++
			rt := alias("verifsim/rt")
			if fl, ok := g.Call.Fun.(*ast.FuncLit); ok && len(g.Call.Args) == 0 {
				// go func() {...}()  ->  rt.GoFunc(func() {...})
				edits = append(edits, edit{off(g.Pos()), off(fl.Pos()), rt + ".GoFunc("})
				edits = append(edits, edit{off(fl.End()), off(g.End()), ")"})
				return true
			}
			// Evaluate the function and its arguments now, run later.
			var lhs, rhs, args []string
			text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
			fun := ""
			if id, ok := g.Call.Fun.(*ast.Ident); ok && id.Obj == nil && universe[id.Name] {
				fun = id.Name
			} else if _, ok := g.Call.Fun.(*ast.FuncLit); ok {
				fun = "\x00"
			} else {
				fun = fmt.Sprintf("verif_f%d", cnt)
				lhs = append(lhs, fun)
				rhs = append(rhs, text(g.Call.Fun))
			}
			for i, a := range g.Call.Args {
				switch x := a.(type) {
				case *ast.BasicLit:
					args = append(args, text(a))
					continue
				case *ast.Ident:
					if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
						args = append(args, x.Name)
						continue
					}
				}
				nm := fmt.Sprintf("verif_a%d_%d", cnt, i)
				lhs = append(lhs, nm)
				rhs = append(rhs, text(a))
				args = append(args, nm)
			}
			ell := ""
			if g.Call.Ellipsis.IsValid() {
				ell = "..."
			}
			pre := ""
			if len(lhs) > 0 {
				pre = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
			}
			if fun == "\x00" {
				// keep the literal where it is so that edits inside it still apply
				edits = append(edits, edit{off(g.Pos()), off(g.Call.Fun.Pos()), "{ " + pre + rt + ".GoFunc(func() { "})
				edits = append(edits, edit{off(g.Call.Fun.End()), off(g.End()), "(" + strings.Join(args, ", ") + ell + ") }) }"})
				return true
			}
			edits = append(edits, edit{off(g.Pos()), off(g.End()), "{ " + pre + rt + ".GoFunc(func() { " + fun + "(" + strings.Join(args, ", ") + ell + ") }) }"})
			return false
		})
	}
	if chans {
		// A goroutine that has sent or received waits for the scheduler, so that it and its peer
		// do not run at the same time.
		block := func(list []ast.Stmt) {
			for _, st := range list {
				hit := false
				switch x := st.(type) {
				case *ast.SendStmt:
					hit = true
				case *ast.ExprStmt:
					hit = isRecv(x.X)
				case *ast.AssignStmt:
					hit = len(x.Rhs) == 1 && isRecv(x.Rhs[0])
				}
				if hit {
					edits = append(edits, edit{off(st.End()), off(st.End()), "; " + alias("verifsim/rt") + `.Yield("chan")`})
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
				if x.Comm != nil {
					edits = append(edits, edit{off(x.Colon) + 1, off(x.Colon) + 1, " " + alias("verifsim/rt") + `.Yield("chan");`})
				}
			}
			return true
		})
	}
	if len(edits) == 0 {
		return nil, false, nil
	}
	// imports: add the new ones, blank out those no longer used
	var add strings.Builder
	for p, a := range need {
		fmt.Fprintf(&add, "; import %s %q", a, p)
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if q, ok := imports[n]; ok && q == p && used[n] == 0 {
			edits = append(edits, edit{off(im.Pos()), off(im.End()), "_ " + strconv.Quote(p)})
		}
	}
	pkgEnd := off(f.Name.End())
	edits = append(edits, edit{pkgEnd, pkgEnd, add.String()})
	// apply, innermost edits nest inside untouched regions only
	sortEdits := func() {
		for i := range edits {
			for j := i + 1; j < len(edits); j++ {
				if edits[j].from < edits[i].from {
					edits[i], edits[j] = edits[j], edits[i]
				}
			}
		}
	}
	sortEdits()
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			continue // inside a replaced region
		}
		out.Write(src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(src[pos:])
	// Line numbers stay those of the original: no line is added.
	res := out.Bytes()
	if _, err := format.Source(res); err != nil {
		return nil, false, fmt.Errorf("%s: generated source does not parse: %w", name, err)
	}
	return append([]byte("//line "+name+":1\n"), res...), true, nil
}

func isRecv(e ast.Expr) bool {
	u, ok := e.(*ast.UnaryExpr)
	return ok && u.Op == token.ARROW
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	overlay := flag.String("overlay", "", "overlay file to write")
	bolt := flag.String("bolt", "", "bbolt module directory; copied to OUT/bbolt and instrumented")
	goroot := flag.String("goroot", "", "overlay runtime/select.go of this GOROOT")
	badger := flag.String("badger", "", "badger module directory; copied to OUT/badger and instrumented")
	badgerStub := flag.String("badgerstub", "", "directory with replacement files for badger")
	pool := flag.String("pool", "", "NAME=DIR,...: module directories; copied to OUT/NAME, goroutines and channels instrumented")
	boltStub := flag.String("boltstub", "", "directory with replacement files for bbolt")
	flag.Parse()
	rep := map[string]string{}
	n := 0
	err := filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if info.IsDir() {
			base := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(base, ".") || base == "testdata" || base == "vendor") || rel == "pb" || rel == "cmd" || rel == "test" || rel == "assets" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rules := common
		if filepath.Dir(rel) == "storage/bolt" {
			rules = withDisk()
		}
		res, changed, err := rewrite(src, p, rules, true, true)
		if err != nil {
			return err
		}
		if !changed {
			return nil
		}
		dst := filepath.Join(*out, "repo", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			return err
		}
		n++
		rep[p] = dst
		return os.WriteFile(dst, res, 0644)
	})
	if err != nil {
		die("%v", err)
	}
	if *bolt != "" {
		dst := filepath.Join(*out, "bbolt")
		os.RemoveAll(dst)
		err := filepath.Walk(*bolt, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*bolt, p)
			if info.IsDir() {
				if rel == "cmd" || rel == "tests" || rel == "scripts" || rel == "internal/btesting" || rel == "internal/guts_cli" || rel == "internal/surgeon" || rel == "internal/tests" {
					return filepath.SkipDir
				}
				return os.MkdirAll(filepath.Join(dst, rel), 0755)
			}
			if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || rel == "go.mod") {
				return nil
			}
			base := filepath.Base(p)
			if strings.HasPrefix(base, "bolt_") || strings.HasPrefix(base, "mlock_") || strings.HasPrefix(base, "boltsync_") {
				if filepath.Dir(rel) == "." && base != "bolt_amd64.go" && base != "bolt_arm64.go" {
					return nil
				}
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if rel != "go.mod" {
				res, changed, err := rewrite(src, p, boltRules, false, false)
				if err != nil {
					return err
				}
				if changed {
					src = res
				}
			}
			return os.WriteFile(filepath.Join(dst, rel), src, 0644)
		})
		if err != nil {
			die("bbolt: %v", err)
		}
		ents, err := os.ReadDir(*boltStub)
		if err != nil {
			die("bbolt stub: %v", err)
		}
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(*boltStub, e.Name()))
			if err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(filepath.Join(dst, strings.TrimSuffix(e.Name(), ".txt")), b, 0644); err != nil {
				die("%v", err)
			}
		}
	}
	if *badger != "" {
		dst := filepath.Join(*out, "badger")
		os.RemoveAll(dst)
		stubs := map[string]bool{}
		ents, err := os.ReadDir(*badgerStub)
		if err != nil {
			die("badger stub: %v", err)
		}
		for _, e := range ents {
			stubs[strings.ReplaceAll(strings.TrimSuffix(e.Name(), ".txt"), "__", "/")] = true
		}
		err = filepath.Walk(*badger, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*badger, p)
			if info.IsDir() {
				switch rel {
				case "badger", "integration", "images":
					return filepath.SkipDir
				}
				return os.MkdirAll(filepath.Join(dst, rel), 0755)
			}
			if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || rel == "go.mod") || stubs[rel] {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if rel != "go.mod" {
				for _, e := range badgerEdits[rel] {
					if bytes.Count(src, []byte(e[0])) != 1 {
						die("badger %s: %q not found", rel, e[0])
					}
					src = bytes.Replace(src, []byte(e[0]), []byte(e[1]), 1)
				}
				res, changed, err := rewrite(src, p, badgerRules, true, true)
				if err != nil {
					return err
				}
				if changed {
					src = res
				}
			}
			return os.WriteFile(filepath.Join(dst, rel), src, 0644)
		})
		if err != nil {
			die("badger: %v", err)
		}
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(*badgerStub, e.Name()))
			if err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(filepath.Join(dst, strings.ReplaceAll(strings.TrimSuffix(e.Name(), ".txt"), "__", "/")), b, 0644); err != nil {
				die("%v", err)
			}
		}
	}
	for _, nd := range strings.FieldsFunc(*pool, func(r rune) bool { return r == ',' }) {
		name, dir, _ := strings.Cut(nd, "=")
		dst := filepath.Join(*out, name)
		os.RemoveAll(dst)
		err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			if info.IsDir() {
				return os.MkdirAll(filepath.Join(dst, rel), 0755)
			}
			if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || rel == "go.mod") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			inner := name == "pgx" && !strings.HasPrefix(rel, "pgxpool/") // pgx itself: only where it starts goroutines
			if rel != "go.mod" && (!inner || rel == "pgconn/pgconn.go") {
				rules := poolRules
				if inner {
					rules = nil
				}
				res, changed, err := rewrite(src, p, rules, true, !inner)
				if err != nil {
					return err
				}
				if changed {
					src = res
				}
			}
			return os.WriteFile(filepath.Join(dst, rel), src, 0644)
		})
		if err != nil {
			die("%s: %v", name, err)
		}
	}
	if *goroot != "" {
		p := filepath.Join(*goroot, "src/runtime/select.go")
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		const old = "j := cheaprandn(uint32(norder + 1))"
		if bytes.Count(b, []byte(old)) != 1 {
			die("runtime/select.go: not the expected source")
		}
		b = bytes.Replace(b, []byte(old), []byte("j := verifSelectRand(uint32(norder + 1))"), 1)
		b = append(b, []byte(`
// verifSelectMode: 0 random (as shipped), 1 source order, 2 last case first.
//
//go:linkname verifSelectMode
var verifSelectMode uint32

func verifSelectRand(n uint32) uint32 {
	switch verifSelectMode {
	case 1:
		return n - 1
	case 2:
		return 0
	}
	return cheaprandn(n)
}
`)...)
		dst := filepath.Join(*out, "select.go.txt")
		if err := os.WriteFile(dst, b, 0644); err != nil {
			die("%v", err)
		}
		rep[p] = dst

		p = filepath.Join(*goroot, "src/internal/runtime/maps/table.go")
		if b, err = os.ReadFile(p); err != nil {
			die("%v", err)
		}
		const old2 = "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n"
		if bytes.Count(b, []byte(old2)) != 1 {
			die("internal/runtime/maps/table.go: not the expected source")
		}
		b = bytes.Replace(b, []byte(old2), []byte("\tit.entryOffset = verifRand()\n\tit.dirOffset = verifRand()\n"), 1)
		b = append(b, []byte(`
// verifMapOrder: 0 random (as shipped), else where iteration over a map begins.
//
//go:linkname verifMapOrder
var verifMapOrder uint64

func verifRand() uint64 {
	if verifMapOrder != 0 {
		return verifMapOrder
	}
	return rand()
}
`)...)
		dst = filepath.Join(*out, "maptable.go.txt")
		if err := os.WriteFile(dst, b, 0644); err != nil {
			die("%v", err)
		}
		rep[p] = dst
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(*overlay, b, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d files\n", n)
}
