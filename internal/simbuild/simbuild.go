// Package simbuild turns the current tree of the repository under test plus
// the installed Go distribution into one simulator binary: it patches copies
// of a few runtime and net files, inserts a scheduling point before every
// statement of the code under test, and hands the result to `go build
// -overlay`.  Nothing outside its output directory is written.
package simbuild

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Options of one build.
type Options struct {
	Verif string // /verif
	Repo  string // /repo
	Out   string // directory for generated files and binaries
	Race  bool
	Cover bool
}

type patch struct {
	file string // relative to GOROOT/src
	from string
	to   string
	n    int // expected occurrences (0: one)
}

var patches = []patch{
	{file: "runtime/proc.go", from: `const haveSysmon = GOARCH != "wasm"`, to: `const haveSysmon = false`},
	{file: "runtime/proc.go", from: "const randomizeScheduler = raceenabled\n", to: "const randomizeScheduler = false\n"},
	{file: "runtime/proc.go", from: "	now, pollUntil, _ := pp.timers.check(0, nil)\n",
		to: "	now, pollUntil, _ := pp.timers.check(0, nil)\n	if sim.on {\n		return simFind(pp), false, false\n	}\n"},
	{file: "runtime/proc.go", from: "	newg.parentGoid = callergp.goid\n",
		to: "	newg.parentGoid = callergp.goid\n	newg.simHost = callergp.simHost\n	newg.simPrio = 0\n	newg.simNoYield = 0\n	newg.simNoRace = 0\n	sim.gseq++\n	newg.simSeq = sim.gseq\n"},
	{file: "runtime/race_amd64.s", from: "TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n", to: "TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n	CMPL	g_simNoRace(R14), $0\n	JNE	ret\n"},
	{file: "runtime/runtime2.go", from: "	valgrindStackID uintptr\n}",
		to: "	valgrindStackID uintptr\n\n	simHost    int32\n	simPrio    uint32\n	simNoYield int32\n	simNoRace  int32\n	simSeq     uint64\n}"},
	{file: "runtime/select.go", from: "cheaprandn(uint32(norder + 1))", to: "simSelOrder(uint32(norder + 1))"},
	{file: "runtime/rand.go", from: "	seed := &globalRand.seed\n",
		to: "	seed := &globalRand.seed\n	startupRand = nil\n	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n"},
	{file: "runtime/rand.go", from: "		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {", to: "		if false {"},
	{file: "runtime/rand.go", from: "	mp := getg().m\n	c := &mp.chacha8\n", to: "	if simOwnRand() {\n		return simAuxNext()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},

	{file: "net/fd_posix.go", from: "	raddr       Addr\n}", to: "	raddr       Addr\n	sim         SimSocket\n}"},
	{file: "net/fd_posix.go", from: "	runtime.SetFinalizer(fd, nil)\n	return fd.pfd.Close()", to: "	if fd.sim != nil {\n		return fd.simClose()\n	}\n	runtime.SetFinalizer(fd, nil)\n	return fd.pfd.Close()"},
	{file: "net/fd_posix.go", from: "	n, err = fd.pfd.Read(p)\n", to: "	if fd.sim != nil {\n		return fd.simRead(p)\n	}\n	n, err = fd.pfd.Read(p)\n"},
	{file: "net/fd_posix.go", from: "	n, sa, err = fd.pfd.ReadFrom(p)\n", to: "	if fd.sim != nil {\n		return fd.simReadSA(p)\n	}\n	n, sa, err = fd.pfd.ReadFrom(p)\n"},
	{file: "net/fd_posix.go", from: "	n, err = fd.pfd.ReadFromInet4(p, from)\n", to: "	if fd.sim != nil {\n		return fd.simRead4(p, from)\n	}\n	n, err = fd.pfd.ReadFromInet4(p, from)\n"},
	{file: "net/fd_posix.go", from: "	n, err = fd.pfd.ReadFromInet6(p, from)\n", to: "	if fd.sim != nil {\n		return fd.simRead6(p, from)\n	}\n	n, err = fd.pfd.ReadFromInet6(p, from)\n"},
	{file: "net/fd_posix.go", from: "	n, oobn, retflags, sa, err = fd.pfd.ReadMsg(p, oob, flags)\n", to: "	if fd.sim != nil {\n		n, sa, err = fd.simReadSA(p)\n		return\n	}\n	n, oobn, retflags, sa, err = fd.pfd.ReadMsg(p, oob, flags)\n"},
	{file: "net/fd_posix.go", from: "	n, oobn, retflags, err = fd.pfd.ReadMsgInet4(p, oob, flags, sa)\n", to: "	if fd.sim != nil {\n		n, err = fd.simRead4(p, sa)\n		return\n	}\n	n, oobn, retflags, err = fd.pfd.ReadMsgInet4(p, oob, flags, sa)\n"},
	{file: "net/fd_posix.go", from: "	n, oobn, retflags, err = fd.pfd.ReadMsgInet6(p, oob, flags, sa)\n", to: "	if fd.sim != nil {\n		n, err = fd.simRead6(p, sa)\n		return\n	}\n	n, oobn, retflags, err = fd.pfd.ReadMsgInet6(p, oob, flags, sa)\n"},
	{file: "net/fd_posix.go", from: "	nn, err = fd.pfd.Write(p)\n", to: "	if fd.sim != nil {\n		return fd.simWrite(p)\n	}\n	nn, err = fd.pfd.Write(p)\n"},
	{file: "net/fd_posix.go", from: "	n, err = fd.pfd.WriteTo(p, sa)\n", to: "	if fd.sim != nil {\n		return fd.simWriteSA(p, sa)\n	}\n	n, err = fd.pfd.WriteTo(p, sa)\n"},
	{file: "net/fd_posix.go", from: "	n, err = fd.pfd.WriteToInet4(p, sa)\n", to: "	if fd.sim != nil {\n		return fd.simWrite4(p, sa)\n	}\n	n, err = fd.pfd.WriteToInet4(p, sa)\n"},
	{file: "net/fd_posix.go", from: "	n, err = fd.pfd.WriteToInet6(p, sa)\n", to: "	if fd.sim != nil {\n		return fd.simWrite6(p, sa)\n	}\n	n, err = fd.pfd.WriteToInet6(p, sa)\n"},
	{file: "net/fd_posix.go", from: "	n, oobn, err = fd.pfd.WriteMsg(p, oob, sa)\n", to: "	if fd.sim != nil {\n		n, err = fd.simWriteSA(p, sa)\n		return n, 0, err\n	}\n	n, oobn, err = fd.pfd.WriteMsg(p, oob, sa)\n"},
	{file: "net/fd_posix.go", from: "	n, oobn, err = fd.pfd.WriteMsgInet4(p, oob, sa)\n", to: "	if fd.sim != nil {\n		n, err = fd.simWrite4(p, sa)\n		return n, 0, err\n	}\n	n, oobn, err = fd.pfd.WriteMsgInet4(p, oob, sa)\n"},
	{file: "net/fd_posix.go", from: "	n, oobn, err = fd.pfd.WriteMsgInet6(p, oob, sa)\n", to: "	if fd.sim != nil {\n		n, err = fd.simWrite6(p, sa)\n		return n, 0, err\n	}\n	n, oobn, err = fd.pfd.WriteMsgInet6(p, oob, sa)\n"},
	{file: "net/fd_posix.go", from: "	return fd.pfd.SetDeadline(t)\n", to: "	if fd.sim != nil {\n		return fd.simDeadline(true, true, t)\n	}\n	return fd.pfd.SetDeadline(t)\n"},
	{file: "net/fd_posix.go", from: "	return fd.pfd.SetReadDeadline(t)\n", to: "	if fd.sim != nil {\n		return fd.simDeadline(true, false, t)\n	}\n	return fd.pfd.SetReadDeadline(t)\n"},
	{file: "net/fd_posix.go", from: "	return fd.pfd.SetWriteDeadline(t)\n", to: "	if fd.sim != nil {\n		return fd.simDeadline(false, true, t)\n	}\n	return fd.pfd.SetWriteDeadline(t)\n"},
	{file: "net/sock_posix.go", from: "	s, err := sysSocket(family, sotype, proto)\n", to: "	if SimListen != nil && sotype == syscall.SOCK_DGRAM {\n		return simSocketFD(net, family, sotype, laddr, raddr)\n	}\n	s, err := sysSocket(family, sotype, proto)\n"},
	{file: "net/sockopt_posix.go", from: "	err := fd.pfd.SetsockoptInt(syscall.SOL_SOCKET, syscall.SO_RCVBUF, bytes)\n", to: "	if fd.sim != nil {\n		return nil\n	}\n	err := fd.pfd.SetsockoptInt(syscall.SOL_SOCKET, syscall.SO_RCVBUF, bytes)\n"},
	{file: "net/sockopt_posix.go", from: "	err := fd.pfd.SetsockoptInt(syscall.SOL_SOCKET, syscall.SO_SNDBUF, bytes)\n", to: "	if fd.sim != nil {\n		return nil\n	}\n	err := fd.pfd.SetsockoptInt(syscall.SOL_SOCKET, syscall.SO_SNDBUF, bytes)\n"},
}

func goroot() (string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = "/"
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("go env GOROOT: %v", err)
	}
	return strings.TrimSpace(string(out)), nil
}

func writeIfChanged(path string, data []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, data, 0o644)
}

// Overlay writes the overlay file and returns its path plus the list of
// instrumented repository files.
func Overlay(o Options) (string, []string, error) {
	root, err := goroot()
	if err != nil {
		return "", nil, err
	}
	rep := map[string]string{}
	src := filepath.Join(root, "src")
	gen := filepath.Join(o.Out, "overlay")
	contents := map[string]string{}
	var order []string
	for _, p := range patches {
		if _, ok := contents[p.file]; !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			if err != nil {
				return "", nil, err
			}
			contents[p.file] = string(b)
			order = append(order, p.file)
		}
		want := p.n
		if want == 0 {
			want = 1
		}
		if n := strings.Count(contents[p.file], p.from); n != want {
			return "", nil, fmt.Errorf("toolchain %s: %s: pattern %q found %d times, want %d", root, p.file, p.from, n, want)
		}
		contents[p.file] = strings.ReplaceAll(contents[p.file], p.from, p.to)
	}
	for _, f := range order {
		dst := filepath.Join(gen, "goroot", f)
		if err := writeIfChanged(dst, []byte(contents[f])); err != nil {
			return "", nil, err
		}
		rep[filepath.Join(src, f)] = dst
	}
	rep[filepath.Join(src, "runtime/time_fake.go")] = filepath.Join(o.Verif, "rt/runtime_time_fake.go")
	rep[filepath.Join(src, "runtime/zsim.go")] = filepath.Join(o.Verif, "rt/runtime_zsim.go")
	rep[filepath.Join(src, "runtime/zsim_race.go")] = filepath.Join(o.Verif, "rt/runtime_zsim_race.go")
	rep[filepath.Join(src, "runtime/zsim_norace.go")] = filepath.Join(o.Verif, "rt/runtime_zsim_norace.go")
	rep[filepath.Join(src, "net/zsim.go")] = filepath.Join(o.Verif, "rt/net_zsim.go")

	var files []string
	err = filepath.Walk(o.Repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(o.Repo, path)
		if info.IsDir() {
			b := info.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "vendor" || b == "testdata" || b == "example" || b == "examples") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files = append(files, rel)
		}
		return nil
	})
	if err != nil {
		return "", nil, err
	}
	sort.Strings(files)
	for _, rel := range files {
		b, err := os.ReadFile(filepath.Join(o.Repo, rel))
		if err != nil {
			return "", nil, err
		}
		out, err := Instrument(rel, b)
		if err != nil {
			return "", nil, fmt.Errorf("instrument %s: %v", rel, err)
		}
		dst := filepath.Join(gen, "repo", rel)
		if err := writeIfChanged(dst, out); err != nil {
			return "", nil, err
		}
		rep[filepath.Join("/repo", rel)] = dst // go.mod replaces the module with /repo
	}
	if o.Repo != "/repo" { // a scratch copy: hide what it does not have
		filepath.Walk("/repo", func(path string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() && strings.HasSuffix(path, ".go") {
				if rel, _ := filepath.Rel("/repo", path); rep[path] == "" {
					if _, err := os.Stat(filepath.Join(o.Repo, rel)); err != nil {
						rep[path] = ""
					}
				}
			}
			return nil
		})
	}
	js, err := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err != nil {
		return "", nil, err
	}
	ov := filepath.Join(o.Out, "overlay.json")
	return ov, files, writeIfChanged(ov, js)
}

// Instrument inserts a scheduling point before every statement, keeping line
// numbers as they are.
func Instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	type ins struct {
		at   int
		text string
	}
	var all []ins
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			all = append(all, ins{off(s.Pos()), "simrt__.SimStmt(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 { // do not let an empty loop run away
				all = append(all, ins{off(x.Body.Lbrace) + 1, "simrt__.SimStmt(); "})
			}
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	// A switch or select body is itself a block whose list holds the clauses.
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		}
		return true
	})
	all = append(all, ins{off(f.Name.End()), `; import simrt__ "runtime"`})
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	var out bytes.Buffer
	last := 0
	for _, x := range all {
		if clause[x.at] {
			continue
		}
		out.Write(src[last:x.at])
		out.WriteString(x.text)
		last = x.at
	}
	out.Write(src[last:])
	out.WriteString("\nvar _ = simrt__.SimStmt\n")
	return out.Bytes(), nil
}

// Build compiles the simulator and returns the binary's path.
func Build(o Options) (string, []string, error) {
	if err := os.MkdirAll(o.Out, 0o755); err != nil {
		return "", nil, err
	}
	ov, files, err := Overlay(o)
	if err != nil {
		return "", nil, err
	}
	bin := filepath.Join(o.Out, "simrun")
	args := []string{"build", "-overlay", ov, "-tags", "faketime", "-trimpath=false"}
	if o.Race {
		bin += ".race"
		args = append(args, "-race", "-gcflags=verif/...=-race=false")
	}
	if o.Cover {
		bin += ".cover"
		args = append(args, "-cover", "-coverpkg=github.com/jsimonetti/go-artnet/...")
	}
	args = append(args, "-o", bin, "./cmd/simrun")
	cmd := exec.Command("go", args...)
	cmd.Dir = o.Verif
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if !o.Race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	} else {
		// The harness is compiled without the detector; the allocation
		// functions the compiler would call directly from such code do not
		// tell the detector that the memory has changed hands.
		cmd.Env = append(cmd.Env, "GOEXPERIMENT=nosizespecializedmalloc")
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	if err := cmd.Run(); err != nil {
		return "", nil, fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, eb.String())
	}
	return bin, files, nil
}
