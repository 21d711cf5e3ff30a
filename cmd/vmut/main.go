// vmut tries the simulator on small mechanical changes of the library.  It is
// a tool for finding blind spots, not a check.
//
//	vmut list
//	vmut run [-from N] [-to N] [-n RUNS]   one line per mutant on stdout
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type mut struct {
	file       string
	start, end int
	repl, desc string
	line       int
}

var root, _ = os.Getwd()
var src0 = func() string {
	if v := os.Getenv("VSIM_REPO"); v != "" {
		return v
	}
	return "/repo"
}()

func main() {
	fs := flag.NewFlagSet("vmut", flag.ExitOnError)
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 1<<30, "")
	n := fs.Int("n", 80, "runs per family")
	par := fs.Int("par", 2, "mutants at a time")
	only := fs.String("file", "", "only files matching")
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	fs.Parse(os.Args[2:])
	ms := list(*only)
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Printf("%d %s:%d %s\n", i, m.file, m.line, m.desc)
		}
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := *from
	for k := 0; k < *par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(ms) || i >= *to {
					return
				}
				t0 := time.Now()
				r := try(i, ms[i], *n)
				mu.Lock()
				fmt.Printf("%d %s:%d %s => %s (%.0fs)\n", i, ms[i].file, ms[i].line, ms[i].desc, r, time.Since(t0).Seconds())
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func list(only string) (ms []mut) {
	var files []string
	filepath.Walk(src0, func(p string, i os.FileInfo, err error) error {
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/example") && !strings.Contains(p, "/cmd/") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		if only != "" && !regexp.MustCompile(only).MatchString(f) || only == "" && (strings.Contains(f, "/packet/code/") || strings.Contains(f, "logger.go")) {
			continue
		}
		src, _ := os.ReadFile(f)
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(x ast.Node) string {
			s := strings.Join(strings.Fields(string(src[off(x.Pos()):off(x.End())])), " ")
			if len(s) > 70 {
				s = s[:70] + "..."
			}
			return s
		}
		add := func(x ast.Node, repl, what string) {
			ms = append(ms, mut{strings.TrimPrefix(f, src0+"/"), off(x.Pos()), off(x.End()), repl, what + ": " + text(x), fset.Position(x.Pos()).Line})
		}
		full := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		islog := func(x ast.Node) bool {
			s := full(x)
			return strings.Contains(s, ".log.") || strings.Contains(s, "Errorf") && !strings.Contains(s, "return")
		}
		ast.Inspect(a, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.IfStmt:
				add(y.Cond, "!("+full(y.Cond)+")", "negate")
				add(y.Cond, "false && ("+full(y.Cond)+")", "never")
				add(y.Cond, "true || ("+full(y.Cond)+")", "always")
			case *ast.ExprStmt:
				if !islog(y) {
					add(y, "", "delete")
				}
			case *ast.AssignStmt:
				if y.Tok != token.DEFINE && !islog(y) {
					add(y, "", "delete")
				}
			case *ast.IncDecStmt:
				add(y, "", "delete")
			case *ast.SendStmt:
				add(y, "", "delete")
			case *ast.DeferStmt:
				add(y, "", "delete")
				add(y, full(y.Call), "no defer")
			case *ast.GoStmt:
				add(y, "", "delete")
				add(y, full(y.Call), "no go")
			case *ast.BranchStmt:
				if y.Tok == token.CONTINUE {
					add(y, "break", "break")
				}
				add(y, "", "delete")
			case *ast.ReturnStmt:
				if len(y.Results) == 0 {
					add(y, "", "delete")
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"/"}, token.QUO: {"*"}}
				for _, s := range sw[y.Op] {
					ms = append(ms, mut{strings.TrimPrefix(f, src0+"/"), off(y.OpPos), off(y.OpPos) + len(y.Op.String()), s, y.Op.String() + " to " + s + ": " + text(y), fset.Position(y.Pos()).Line})
				}
			case *ast.BasicLit:
				if y.Kind == token.INT {
					add(y, "("+y.Value+"+1)", "plus one")
					if y.Value != "0" {
						add(y, "("+y.Value+"-1)", "minus one")
					}
				}
			case *ast.KeyValueExpr:
				if _, ok := y.Value.(*ast.FuncLit); !ok && !islog(y) {
					if id, ok := y.Key.(*ast.Ident); ok && id.IsExported() || ok {
						// drop the element together with its comma
						e := off(y.End())
						if e < len(src) && src[e] == ',' {
							ms = append(ms, mut{strings.TrimPrefix(f, src0+"/"), off(y.Pos()), e + 1, "", "drop: " + text(y), fset.Position(y.Pos()).Line})
						}
					}
				}
			}
			return true
		})
	}
	return
}

var prop = regexp.MustCompile(`(?m)^ +\d+ (C\d\d/[a-z0-9-]+|\*/[a-z]+|CRASH \S+ ?\S*|HARNESS)`)

func try(i int, m mut, n int) string {
	d := fmt.Sprintf("/tmp/mut/%d", i)
	os.RemoveAll(d)
	defer os.RemoveAll(d)
	os.MkdirAll("/tmp/mut", 0o755)
	if err := exec.Command("cp", "-a", src0, d).Run(); err != nil {
		return "copy failed"
	}
	p := filepath.Join(d, m.file)
	src, _ := os.ReadFile(p)
	os.WriteFile(p, []byte(string(src[:m.start])+m.repl+string(src[m.end:])), 0o644)
	c := exec.Command("go", "build", "./...")
	c.Dir = d
	if err := c.Run(); err != nil {
		return "no build"
	}
	c = exec.Command("timeout", "60", "go", "test", "./...")
	c.Dir = d
	if err := c.Run(); err != nil {
		return "tests fail"
	}
	run := func(a ...string) string {
		c := exec.Command("timeout", append([]string{"300", root + "/build/vsim"}, a...)...)
		c.Dir = root
		c.Env = append(os.Environ(), "VSIM_REPO="+d)
		b, err := c.CombinedOutput()
		if err != nil {
			return string(b) + fmt.Sprintf("\n 1 HARNESS %v", err)
		}
		return string(b)
	}
	out := run("build", d+"/b")
	if strings.Contains(out, "HARNESS") {
		return "SIM BUILD FAILED " + out
	}
	set := map[string]bool{}
	for _, s := range []string{fmt.Sprint(n) + " dmx disco poll cb block fuzz ioerr stop restart clock mix app swap life churn", fmt.Sprint(n/4+1) + " e2e burst many", fmt.Sprint(n/16+1) + " long"} {
		f := strings.Fields(s)
		out = run(append([]string{"sweep", "-bin", d + "/b/simrun", "-n", f[0]}, f[1:]...)...)
		for _, x := range prop.FindAllStringSubmatch(out, -1) {
			set[x[1]] = true
		}
	}
	if len(set) == 0 {
		return "SURVIVED"
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
