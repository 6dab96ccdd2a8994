// prep generates what a check build needs, from /repo's current working tree
// and the module cache:
//
//	OUT/onet, OUT/kyber    copies with the network, database and randomness seams
//	OUT/overlay.json       overlay with the instrumented files of /repo (-instr)
//	OUT/sites.go           table of scheduling points
//
// Nothing is written to /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func die(a ...interface{}) { fmt.Fprintln(os.Stderr, a...); os.Exit(2) }
func chk(err error) {
	if err != nil {
		die(err)
	}
}

var (
	repo     = flag.String("repo", "/repo", "")
	out      = flag.String("out", "", "")
	modcache = flag.String("modcache", "/root/go/pkg/mod", "")
	harness  = flag.String("harness", "", "harness source dir (for overlay of sites.go)")
	instr    = flag.Bool("instr", false, "instrument")
	novar    = flag.Bool("novar", false, "keep constants as they are")
	noreset  = flag.Bool("noreset", false, "do not re-initialise package variables")
	noWatch  = flag.Bool("nowatch", false, "do not report the proofs that are created")
	noMaps   = flag.Bool("nomaps", false, "do not watch accesses to maps")
)

func copyTree(src, dst string) {
	chk(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		d := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(d, 0755)
		}
		if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".s") || strings.HasSuffix(p, ".h") || filepath.Base(p) == "go.mod" || filepath.Base(p) == "go.sum") {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		o, err := os.Create(d)
		if err != nil {
			return err
		}
		defer o.Close()
		_, err = io.Copy(o, in)
		return err
	}))
}

func patch(file string, pairs ...string) {
	b, err := os.ReadFile(file)
	chk(err)
	s := string(b)
	for i := 0; i < len(pairs); i += 2 {
		if !strings.Contains(s, pairs[i]) {
			die("patch does not apply:", file, pairs[i])
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	chk(os.WriteFile(file, []byte(s), 0644))
}

func main() {
	flag.Parse()
	chk(os.MkdirAll(*out, 0755))
	onet := filepath.Join(*out, "onet")
	kyber := filepath.Join(*out, "kyber")
	copyTree(filepath.Join(*modcache, "go.dedis.ch/onet/v3@v3.2.0"), onet)
	copyTree(filepath.Join(*modcache, "go.dedis.ch/kyber/v3@v3.0.12"), kyber)
	patch(filepath.Join(kyber, "util/random/rand.go"),
		"	if len(readers) == 0 {\n", "	if len(readers) == 0 {\n		if VerifStream != nil {\n			return VerifStream()\n		}\n",
		"type randstream struct {", "// VerifStream, when set, is the random source under harness control.\nvar VerifStream func() cipher.Stream\n\ntype randstream struct {")
	patch(filepath.Join(onet, "network/local.go"),
		"	err = lc.manager.send(lc.remote, buff)\n",
		"	if VerifSend != nil && VerifSend(lc.local.addr, lc.remote.addr, msg, func() error { return lc.manager.send(lc.remote, buff) }) {\n		return sentLen, nil\n	}\n	err = lc.manager.send(lc.remote, buff)\n",
		"// LocalManager keeps a reference", "// VerifSend, when set, may take over the delivery of a message.\nvar VerifSend func(from, to Address, msg Message, deliver func() error) bool\n\n// LocalManager keeps a reference")
	patch(filepath.Join(onet, "websocket.go"),
		"	w.Lock()\n	w.started = true\n", "	w.Lock()\n	w.started = true\n	if VerifNoWS {\n		w.Unlock()\n		return\n	}\n",
		"	log.Lvl3(\"Stopping\", w.server.Server.Addr)\n", "	if VerifNoWS {\n		w.started = false\n		return\n	}\n	log.Lvl3(\"Stopping\", w.server.Server.Addr)\n",
		"// NewWebSocket opens", "// VerifNoWS disables the TCP listener.\nvar VerifNoWS bool\n\n// NewWebSocket opens")
	patch(filepath.Join(onet, "service.go"),
		"	db, err := openDb(s.dbFileName())\n", "	var db *bbolt.DB\n	var err error\n	if !VerifNoWS {\n		db, err = openDb(s.dbFileName())\n	}\n",
		"	if s.delDb {\n", "	if s.delDb && s.db != nil {\n")
	patch(filepath.Join(onet, "context.go"),
		"	err := manager.db.Update(", "	if manager.db == nil {\n		return ctx\n	}\n	err := manager.db.Update(")

	// this lock is held while a service creates a protocol, which may wait: a
	// goroutine that waits for it must count as idle in virtual time
	patch(filepath.Join(onet, "overlay.go"),
		"	transmitMux sync.Mutex\n", "	transmitMux verifMutex\n",
		"// Overlay keeps all trees", "type verifMutex struct {\n	once sync.Once\n	ch   chan struct{}\n}\n\nfunc (m *verifMutex) Lock() {\n	m.once.Do(func() { m.ch = make(chan struct{}, 1) })\n	m.ch <- struct{}{}\n}\n\nfunc (m *verifMutex) Unlock() { <-m.ch }\n\n// Overlay keeps all trees")

	patch(filepath.Join(onet, "websocket.go"),
		"func (c *Client) Send(dst *network.ServerIdentity, path string, buf []byte) ([]byte, error) {\n",
		"func (c *Client) Send(dst *network.ServerIdentity, path string, buf []byte) ([]byte, error) {\n	if VerifClient != nil {\n		return VerifClient(dst, path, buf)\n	}\n",
		"// NewClient returns a client", "// VerifClient, when set, receives what clients send.\nvar VerifClient func(dst *network.ServerIdentity, path string, buf []byte) ([]byte, error)\n\n// NewClient returns a client")
	for i, ln := range []string{"	lvlUI(lvlFatal, args...)\n	os.Exit(1)\n", "	os.Exit(-1)\n", "err.Error())\n		os.Exit(1)\n", "err.Error())\n		os.Exit(1)\n"} {
		_ = i
		patch(filepath.Join(onet, "log/ui.go"), ln, strings.Replace(ln, "os.Exit(", "verifExit(", 1))
	}
	ui, err := os.ReadFile(filepath.Join(onet, "log/ui.go"))
	chk(err)
	chk(os.WriteFile(filepath.Join(onet, "log/ui.go"), append(ui, []byte("\n// VerifExit, when set, is called instead of ending the process.\nvar VerifExit func(int)\n\nfunc verifExit(c int) {\n	if VerifExit != nil {\n		VerifExit(c)\n	}\n	os.Exit(c)\n}\n")...), 0644))

	overlay := map[string]string{}
	// the command is package main: expose it under an importable path
	cmdDir := filepath.Join(*out, "cmdunlynx")
	chk(os.MkdirAll(cmdDir, 0755))
	ents, err := os.ReadDir(filepath.Join(*repo, "cmd/unlynx"))
	chk(err)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(*repo, "cmd/unlynx", e.Name()))
		chk(err)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, e.Name(), b, parser.PackageClauseOnly)
		chk(err)
		o := fs.Position(f.Name.Pos()).Offset
		s := string(b[:o]) + "cmdunlynx" + string(b[o+len(f.Name.Name):])
		chk(os.WriteFile(filepath.Join(cmdDir, e.Name()), []byte(s), 0644))
	}

	chk(os.WriteFile(filepath.Join(cmdDir, "verif_bridge.go"), []byte("package cmdunlynx\n\n// VerifMain runs the command.\nfunc VerifMain() { main() }\n"), 0644))

	var sites []string
	if *instr {
		var files []string
		for _, d := range []string{"lib", "services", "protocols"} {
			chk(filepath.Walk(filepath.Join(*repo, d), func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					return err
				}
				if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
					files = append(files, p)
				}
				return nil
			}))
		}
		sort.Strings(files)
		for _, p := range files {
			dst := filepath.Join(*out, "instr", strings.TrimPrefix(p, *repo))
			if ok := instrument(p, dst, &sites); ok {
				overlay[p] = dst
			}
		}
	}
	// the proofs that honest servers create are reported to the harness
	if !*noWatch {
		chk(filepath.Walk(filepath.Join(*repo, "lib"), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				src := p
				if o, ok := overlay[p]; ok {
					src = o
				}
				dst := filepath.Join(*out, "watch", strings.TrimPrefix(p, *repo))
				if watcher(src, dst) {
					overlay[p] = dst
				}
			}
			return nil
		}))
	}
	// every execution starts from freshly initialised package state
	for _, d := range resetDirs() {
		chk(filepath.Walk(filepath.Join(*repo, d), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				src := p
				if o, ok := overlay[p]; ok {
					src = o
				}
				dst := filepath.Join(*out, "reset", strings.TrimPrefix(p, *repo))
				if resetter(p, src, dst) {
					overlay[p] = dst
				}
			}
			return nil
		}))
	}
	var sb strings.Builder
	sb.WriteString("package vsched\n\nfunc init() {\n")
	for i, s := range sites {
		fmt.Fprintf(&sb, "	Sites[%d] = %q\n", i, s)
	}
	sb.WriteString("	Instrumented = " + fmt.Sprint(*instr) + "\n}\n\n// Instrumented tells whether unlynx was built with scheduling points.\nvar Instrumented bool\n")
	sf := filepath.Join(*out, "sites.go")
	chk(os.WriteFile(sf, []byte(sb.String()), 0644))
	overlay[filepath.Join(*harness, "vsched/sites.go")] = sf
	for _, e := range mustDir(cmdDir) {
		overlay[filepath.Join(*harness, "cmdunlynx", e)] = filepath.Join(cmdDir, e)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	chk(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644))
}

func mustDir(d string) []string {
	var r []string
	es, err := os.ReadDir(d)
	chk(err)
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r
}

// initAssigned lists the package variables written by the init functions of a
// package: re-running their initialisers would lose that.
func initAssigned(dir string) map[string]bool {
	r := map[string]bool{}
	fs := token.NewFileSet()
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "init" || fd.Recv != nil {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					r[id.Name] = true
				}
				return true
			})
		}
	}
	return r
}

// resetter appends to src a function that re-runs the initialisers of its
// package variables, registered with the harness.
func resetter(orig, src, dst string) bool {
	b, err := os.ReadFile(src)
	chk(err)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, src, b, 0)
	chk(err)
	skip := initAssigned(filepath.Dir(orig))
	type sub struct{ off, del int }
	var subs []sub
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	var body, extra []string
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if ok && gd.Tok == token.CONST && !*novar && !gd.Lparen.IsValid() && len(gd.Specs) == 1 {
			// the constants that size the work splits and switch optional phases
			// on become variables the harness can set
			vs := gd.Specs[0].(*ast.ValueSpec)
			if len(vs.Names) == 1 && len(vs.Values) == 1 && filepath.Base(filepath.Dir(orig)) == "lib" {
				n := vs.Names[0].Name
				typ := ""
				if n == "VPARALLELIZE" {
					typ = "int"
				} else if n == "DIFFPRI" {
					typ = "bool"
				}
				if typ != "" {
					subs = append(subs, sub{off(gd.Pos()), len("const")})
					body = append(body, n+" = "+text(vs.Values[0]))
					extra = append(extra, "verifreset.Knob(\""+n+"\", func(v interface{}) { "+n+" = v.("+typ+") })")
				}
			}
			continue
		}
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			bad := false
			var names []string
			for _, n := range vs.Names {
				names = append(names, n.Name)
				if n.Name == "_" || skip[n.Name] {
					bad = true
				}
			}
			for _, v := range vs.Values {
				ast.Inspect(v, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok {
							if id, ok := se.X.(*ast.Ident); ok && (id.Name == "onet" || id.Name == "network" || id.Name == "flag") {
								bad = true
							}
						}
					}
					return true
				})
			}
			if bad {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range names {
					body = append(body, "{ var z "+text(vs.Type)+"; "+n+" = z }")
				}
				continue
			}
			var vals []string
			for _, v := range vs.Values {
				vals = append(vals, text(v))
			}
			body = append(body, strings.Join(names, ", ")+" = "+strings.Join(vals, ", "))
		}
	}
	if len(body) == 0 {
		return false
	}
	var sb strings.Builder
	o := off(f.Name.End())
	sb.Write(b[:o])
	if !strings.Contains(string(b), "import verifreset ") {
		sb.WriteString("; import verifreset \"unlynxverif/verifreset\"")
	}
	for _, e := range subs {
		sb.Write(b[o:e.off])
		sb.WriteString("var")
		o = e.off + e.del
	}
	sb.Write(b[o:])
	sb.WriteString("\n\nfunc init() {\n")
	for _, l := range body {
		sb.WriteString("	verifreset.Register(func() { " + l + " })\n")
	}
	for _, l := range extra {
		sb.WriteString("	" + l + "\n")
	}
	sb.WriteString("}\n")
	chk(os.MkdirAll(filepath.Dir(dst), 0755))
	chk(os.WriteFile(dst, []byte(sb.String()), 0644))
	return true
}

var proofName = regexp.MustCompile(`^[A-Z]\w*ProofCreation$`)

// watcher renames every exported function that creates a proof and puts a
// function in its place that also reports the arguments and the results.
func watcher(src, dst string) bool {
	b, err := os.ReadFile(src)
	chk(err)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, src, b, 0)
	chk(err)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	var at []int
	var add strings.Builder
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Body == nil || fd.Type.TypeParams != nil || !proofName.MatchString(fd.Name.Name) || fd.Type.Results == nil {
			continue
		}
		var params, args, given, rs []string
		for _, p := range fd.Type.Params.List {
			n := len(p.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				a := fmt.Sprintf("verifA%d", len(args))
				params = append(params, a+" "+text(p.Type))
				given = append(given, a)
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					a += "..."
				}
				args = append(args, a)
			}
		}
		var types []string
		for _, r := range fd.Type.Results.List {
			n := len(r.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				rs = append(rs, fmt.Sprintf("verifR%d", len(rs)))
				types = append(types, text(r.Type))
			}
		}
		at = append(at, off(fd.Name.Pos()))
		fmt.Fprintf(&add, "\n// %s is watched.\nfunc %s(%s) (%s) {\n\t%s := verifWatched%s(%s)\n\tverifreset.Proof([]interface{}{%s}, %s)\n\treturn %s\n}\n",
			fd.Name.Name, fd.Name.Name, strings.Join(params, ", "), strings.Join(types, ", "), strings.Join(rs, ", "), fd.Name.Name, strings.Join(args, ", "), strings.Join(given, ", "), strings.Join(rs, ", "), strings.Join(rs, ", "))
	}
	if len(at) == 0 {
		return false
	}
	var sb strings.Builder
	o := off(f.Name.End())
	sb.Write(b[:o])
	sb.WriteString("; import verifreset \"unlynxverif/verifreset\"")
	for _, e := range at {
		sb.Write(b[o:e])
		sb.WriteString("verifWatched")
		o = e
	}
	sb.Write(b[o:])
	sb.WriteString(add.String())
	sb.WriteString("\nfunc init() { verifreset.Watching = true }\n")
	chk(os.MkdirAll(filepath.Dir(dst), 0755))
	chk(os.WriteFile(dst, []byte(sb.String()), 0644))
	return true
}

type edit struct {
	off int
	del int
	txt string
	pri int
}

func instrument(src, dst string, sites *[]string) bool {
	b, err := os.ReadFile(src)
	chk(err)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, src, b, parser.ParseComments)
	chk(err)
	rel, _ := filepath.Rel(*repo, src)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	var edits []edit
	used := false
	var stack []ast.Node // the nodes around the current one
	// around names the method that a statement belongs to ("" in functions and in
	// function literals inside loops, i.e. in split-up computations)
	around := func() string {
		name, loop := "", false
		for _, n := range stack {
			switch e := n.(type) {
			case *ast.FuncDecl:
				if e.Recv != nil && len(e.Recv.List) == 1 {
					t := e.Recv.List[0].Type
					if st, ok := t.(*ast.StarExpr); ok {
						t = st.X
					}
					name = text(t) + "." + e.Name.Name
				}
			case *ast.ForStmt, *ast.RangeStmt:
				loop = true
			case *ast.FuncLit:
				if loop {
					return ""
				}
			}
		}
		return name
	}
	point := func(p token.Pos) string {
		id := len(*sites)
		*sites = append(*sites, fmt.Sprintf("%s:%d#%s", rel, fs.Position(p).Line, around()))
		used = true
		return fmt.Sprintf("vsched.P(%d); ", id)
	}
	hasCall := func(e ast.Expr) bool {
		c := false
		ast.Inspect(e, func(n ast.Node) bool {
			if _, ok := n.(*ast.CallExpr); ok {
				c = true
			}
			return true
		})
		return c
	}
	// variables used by a function literal other than the one declaring them
	captured := map[*ast.Object]bool{}
	{
		var fns []ast.Node
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				last := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if len(fns) > 0 && fns[len(fns)-1] == last {
					fns = fns[:len(fns)-1]
				}
				return true
			}
			stack = append(stack, n)
			switch e := n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				fns = append(fns, n)
			case *ast.Ident:
				if e.Obj != nil && e.Obj.Kind == ast.Var && len(fns) > 0 {
					if d, ok := e.Obj.Decl.(ast.Node); ok {
						in := fns[len(fns)-1]
						if d.Pos() < in.Pos() || d.End() > in.End() {
							captured[e.Obj] = true
						}
					}
				}
			}
			return true
		})
	}
	// what other goroutines may see: fields, elements, targets of pointers, and the
	// variables of the package or of a function literal's surroundings
	shared := func(e ast.Expr) bool {
		switch i := e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return !hasCall(e)
		case *ast.Ident:
			return i.Name != "_" && (i.Obj == nil || captured[i.Obj])
		}
		return false
	}
	// accesses lists the expressions x of x[i], range x and delete(x, i) that a
	// statement evaluates for sure and before anything that could make it wait
	// (the part of it that runs before its body); "+" marks what it changes
	accesses := func(st ast.Stmt) []string {
		var out []string
		declared := map[*ast.Object]bool{}
		ast.Inspect(st, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok && i.Obj != nil && i.Pos() == i.Obj.Pos() {
				declared[i.Obj] = true
			}
			return true
		})
		var pure func(e ast.Expr) bool
		pure = func(e ast.Expr) bool {
			switch e := e.(type) {
			case *ast.Ident:
				return e.Name != "_" && (e.Obj == nil || (e.Obj.Kind == ast.Var && !declared[e.Obj]))
			case *ast.SelectorExpr:
				return pure(e.X)
			case *ast.StarExpr:
				return pure(e.X)
			case *ast.ParenExpr:
				return pure(e.X)
			}
			return false
		}
		waited := false
		add := func(e ast.Expr, w string) {
			if !waited && pure(e) {
				out = append(out, w+text(e))
			}
		}
		var eval func(e ast.Expr)
		builtin := func(c *ast.CallExpr) string {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Obj == nil {
				switch id.Name {
				case "len", "cap", "append", "make", "copy", "delete", "new", "string", "int", "int64", "float64", "bool", "byte":
					return id.Name
				}
			}
			return ""
		}
		eval = func(e ast.Expr) {
			switch e := e.(type) {
			case *ast.ParenExpr:
				eval(e.X)
			case *ast.SelectorExpr:
				eval(e.X)
			case *ast.StarExpr:
				eval(e.X)
			case *ast.TypeAssertExpr:
				eval(e.X)
			case *ast.SliceExpr:
				eval(e.X)
			case *ast.KeyValueExpr:
				eval(e.Value)
			case *ast.UnaryExpr:
				eval(e.X)
				if e.Op == token.ARROW {
					waited = true
				}
			case *ast.BinaryExpr:
				eval(e.X)
				if e.Op == token.LAND || e.Op == token.LOR {
					if hasCall(e.Y) {
						waited = true
					}
					return
				}
				eval(e.Y)
			case *ast.IndexExpr:
				eval(e.X)
				eval(e.Index)
				add(e.X, "")
			case *ast.CompositeLit:
				for _, x := range e.Elts {
					eval(x)
				}
			case *ast.CallExpr:
				b := builtin(e)
				if b == "" {
					if s, ok := e.Fun.(*ast.SelectorExpr); ok {
						eval(s.X)
					}
				}
				for i, x := range e.Args {
					if (b == "make" || b == "new") && i == 0 {
						continue
					}
					eval(x)
				}
				if b == "delete" && len(e.Args) > 0 {
					add(e.Args[0], "+")
				}
				if b == "" {
					waited = true
				}
			}
		}
		var of func(st ast.Stmt)
		of = func(st ast.Stmt) {
			switch s := st.(type) {
			case *ast.ExprStmt:
				eval(s.X)
			case *ast.SendStmt:
				eval(s.Value)
			case *ast.IncDecStmt:
				eval(s.X)
				if i, ok := s.X.(*ast.IndexExpr); ok {
					add(i.X, "+")
				}
			case *ast.AssignStmt:
				for _, r := range s.Rhs {
					eval(r)
				}
				for _, l := range s.Lhs {
					switch l := l.(type) {
					case *ast.IndexExpr:
						eval(l.X)
						eval(l.Index)
						add(l.X, "+")
					case *ast.SelectorExpr:
						eval(l.X)
					case *ast.StarExpr:
						eval(l.X)
					}
				}
			case *ast.ReturnStmt:
				for _, r := range s.Results {
					eval(r)
				}
			case *ast.IfStmt:
				if s.Init != nil {
					of(s.Init)
				}
				eval(s.Cond)
			case *ast.ForStmt:
				if s.Init != nil {
					of(s.Init)
				}
				if s.Cond != nil {
					eval(s.Cond)
				}
			case *ast.SwitchStmt:
				if s.Init != nil {
					of(s.Init)
				}
				if s.Tag != nil {
					eval(s.Tag)
				}
			case *ast.RangeStmt:
				eval(s.X)
				add(s.X, "")
			case *ast.GoStmt:
				for _, a := range s.Call.Args {
					eval(a)
				}
			case *ast.DeferStmt:
				for _, a := range s.Call.Args {
					eval(a)
				}
			}
		}
		of(st)
		return out
	}
	mapPoint := func(p token.Pos, acc []string) string {
		plain := point(p)
		if len(acc) == 0 || *noMaps {
			return plain
		}
		var l []string
		seen := map[string]bool{}
		for _, a := range acc {
			if !seen[a] && !seen["+"+a] {
				seen[a] = true
				l = append(l, fmt.Sprintf("{M: %s, W: %v}", strings.TrimPrefix(a, "+"), a[0] == '+'))
			}
		}
		return strings.TrimSuffix(strings.Replace(plain, "vsched.P(", "vsched.PM(", 1), "); ") +
			", func() []vsched.Acc { return []vsched.Acc{" + strings.Join(l, ", ") + "} }); "
	}
	elem := func(e ast.Expr, w string) []string {
		if i, ok := e.(*ast.IndexExpr); ok {
			ok := true
			ast.Inspect(i.X, func(n ast.Node) bool {
				switch n.(type) {
				case nil, *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
				default:
					ok = false
				}
				return true
			})
			if ok {
				return []string{w + text(i.X)}
			}
		}
		return nil
	}
	// local tells whether a simple statement only touches variables of the
	// innermost function around it (no other goroutine can observe it)
	var encl []ast.Node
	local := func(st ast.Stmt) bool {
		switch st.(type) {
		case *ast.AssignStmt, *ast.IncDecStmt, *ast.DeclStmt:
		case *ast.ReturnStmt:
			return false
		default:
			return false
		}
		ok := true
		ast.Inspect(st, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.FuncLit, *ast.SliceExpr:
				ok = false
			case *ast.UnaryExpr:
				if e.Op == token.AND || e.Op == token.ARROW {
					ok = false
				}
			case *ast.CallExpr:
				id, isID := e.Fun.(*ast.Ident)
				if !isID || id.Obj != nil || !(id.Name == "len" || id.Name == "make" || strings.HasPrefix(id.Name, "int") || id.Name == "string") {
					ok = false
				}
			case *ast.Ident:
				if e.Obj == nil {
					switch e.Name {
					case "true", "false", "nil", "_", "len", "make", "int", "int64", "string", "bool", "byte", "float64":
					default:
						ok = false
					}
					return true
				}
				if e.Obj.Kind == ast.Con || e.Obj.Kind == ast.Typ {
					return true
				}
				d, isNode := e.Obj.Decl.(ast.Node)
				if !isNode || len(encl) == 0 {
					ok = false
					return true
				}
				in := encl[len(encl)-1]
				if d.Pos() < in.Pos() || d.End() > in.End() {
					ok = false
				}
				if captured[e.Obj] {
					ok = false
				}
			}
			return true
		})
		return ok
	}
	reads := func(acc []string) []string {
		var r []string
		for _, a := range acc {
			if a[0] != '+' {
				r = append(r, a)
			}
		}
		return r
	}
	// typed: not a call to a function (a conversion, a built-in function)
	typed := func(c *ast.CallExpr) bool {
		switch f := c.Fun.(type) {
		case *ast.Ident:
			switch f.Name {
			case "append":
				return false
			case "len", "cap", "copy", "min", "max", "real", "imag", "complex":
				return true
			}
			return false
		case *ast.SelectorExpr:
			return false
		}
		return true
	}
	tmp := 0
	doList := func(list []ast.Stmt) {
		for _, st := range list {
			if ls, ok := st.(*ast.LabeledStmt); ok {
				_ = ls
				continue
			}
			if _, ok := st.(*ast.EmptyStmt); ok {
				continue
			}
			if local(st) {
				continue
			}
			o := off(st.Pos())
			switch s := st.(type) {
			case *ast.GoStmt:
				if fl, ok := s.Call.Fun.(*ast.FuncLit); ok {
					tmp++
					tok := fmt.Sprintf("_vtok%d", tmp)
					edits = append(edits, edit{off: o, txt: point(st.Pos()) + tok + " := vsched.Tok(); "})
					edits = append(edits, edit{off: off(fl.Body.Lbrace) + 1, txt: " vsched.Born(" + tok + "); ", pri: -1})
					continue
				}
			case *ast.AssignStmt:
				if len(s.Lhs) == 1 && len(s.Rhs) == 1 && shared(s.Lhs[0]) {
					lhs := text(s.Lhs[0])
					rmw := ""
					switch s.Tok {
					case token.ASSIGN:
						found := false
						ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
							if e, ok := n.(ast.Expr); ok && text(e) == lhs {
								found = true
							}
							if _, ok := n.(*ast.FuncLit); ok {
								return false
							}
							return true
						})
						if _, isLit := s.Rhs[0].(*ast.FuncLit); found && !isLit {
							rmw = text(s.Rhs[0])
						}
					case token.ADD_ASSIGN:
						rmw = lhs + " + (" + text(s.Rhs[0]) + ")"
					case token.SUB_ASSIGN:
						rmw = lhs + " - (" + text(s.Rhs[0]) + ")"
					}
					// nothing else may be inserted inside: only simple right-hand sides
					simple := true
					ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
						switch n.(type) {
						case *ast.FuncLit, *ast.BlockStmt:
							simple = false
						case *ast.SelectorExpr:
							if id, ok := n.(*ast.SelectorExpr).X.(*ast.Ident); ok && id.Name == "sync" {
								simple = false
							}
						}
						return true
					})
					if _, isIdx := s.Lhs[0].(*ast.IndexExpr); isIdx && rmw == "" && s.Tok == token.ASSIGN {
						// m[k] = f(): the element is set after the call
						if c, ok := s.Rhs[0].(*ast.CallExpr); ok && !typed(c) {
							rmw = text(c)
						}
					}
					if rmw != "" && simple && !strings.Contains(rmw, "\n") {
						tmp++
						v := fmt.Sprintf("_vt%d", tmp)
						p1 := mapPoint(st.Pos(), reads(accesses(st)))
						p2 := mapPoint(st.Pos(), elem(s.Lhs[0], "+"))
						edits = append(edits, edit{off: o, del: off(st.End()) - o, txt: p1 + v + " := " + rmw + "; " + p2 + lhs + " = " + v})
						continue
					}
				}
			case *ast.IncDecStmt:
				if shared(s.X) {
					op := "+"
					if s.Tok == token.DEC {
						op = "-"
					}
					tmp++
					v := fmt.Sprintf("_vt%d", tmp)
					p1 := mapPoint(st.Pos(), elem(s.X, ""))
					p2 := mapPoint(st.Pos(), elem(s.X, "+"))
					lhs := text(s.X)
					edits = append(edits, edit{off: o, del: off(st.End()) - o, txt: p1 + v + " := " + lhs + " " + op + " 1; " + p2 + lhs + " = " + v})
					continue
				}
			}
			edits = append(edits, edit{off: o, txt: mapPoint(st.Pos(), accesses(st))})
		}
	}
	syncName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		stack = nil
		ast.Inspect(d, func(n ast.Node) bool {
			if n == nil {
				last := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if len(encl) > 0 && encl[len(encl)-1] == last {
					encl = encl[:len(encl)-1]
				}
				return true
			}
			stack = append(stack, n)
			switch n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				encl = append(encl, n)
			}
			switch s := n.(type) {
			case *ast.BlockStmt:
				doList(s.List)
			case *ast.CaseClause:
				doList(s.Body)
			case *ast.CommClause:
				doList(s.Body)
			case *ast.SelectorExpr:
				if id, ok := s.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && id.Obj == nil && (s.Sel.Name == "Mutex" || s.Sel.Name == "RWMutex") {
					edits = append(edits, edit{off: off(id.Pos()), del: len(id.Name), txt: "vsched"})
					used = true
				}
			}
			return true
		})
	}
	// a switch body is a BlockStmt whose list holds clauses: drop the points put
	// in front of clauses
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	var keep []edit
	for _, e := range edits {
		if clause[e.off] && e.del == 0 && (strings.HasPrefix(e.txt, "vsched.P(") || strings.HasPrefix(e.txt, "vsched.PM(")) {
			continue
		}
		keep = append(keep, e)
	}
	if !used {
		return false
	}
	keep = append(keep, edit{off: off(f.Name.End()), txt: "; import vsched \"unlynxverif/vsched\""})
	sort.SliceStable(keep, func(i, j int) bool {
		if keep[i].off != keep[j].off {
			return keep[i].off < keep[j].off
		}
		return keep[i].pri < keep[j].pri
	})
	var sb strings.Builder
	pos := 0
	for _, e := range keep {
		if e.off < pos {
			continue // inside a replaced statement
		}
		sb.Write(b[pos:e.off])
		sb.WriteString(e.txt)
		pos = e.off + e.del
	}
	sb.Write(b[pos:])
	sb.WriteString("\nvar _ = vsched.P\n")
	if syncName != "" && syncName != "_" && syncName != "." {
		sb.WriteString("var _ " + syncName + ".Once\n")
	}
	chk(os.MkdirAll(filepath.Dir(dst), 0755))
	chk(os.WriteFile(dst, []byte(sb.String()), 0644))
	return true
}

func resetDirs() []string {
	if *noreset {
		return nil
	}
	return []string{"lib", "services", "protocols", "data"}
}
