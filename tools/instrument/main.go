// Command instrument writes the build overlay the simulator is compiled with: a copy of every
// non-test source file of vc-go in which
//   - a scheduling point precedes every statement (same line, so positions stay the same),
//   - a mandatory scheduling point follows every go statement and every statement that may block
//     on a channel or a wait group,
//   - goroutines started from function literals are guarded, so that a panic there is recorded,
//   - sync's locks, math/rand's sources and time.Now come from the simulator,
//
// plus a runtime whose map seeds, iteration order and goroutine ids the simulator controls, and the
// expirable LRU whose janitor goroutine stays outside simulated runs.
// It judges nothing: it works on whatever sources the tree has.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	end  int // bytes [off,end) are replaced
	text string
	seq  int
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func main() {
	if len(os.Args) != 5 {
		fmt.Fprintln(os.Stderr, "usage: instrument REPO GOROOT MODCACHE OUTDIR")
		os.Exit(3)
	}

	repo, goroot, modcache, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	out, err := filepath.Abs(out)
	die(err)

	replace := map[string]string{}

	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}

		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}

			return nil
		}

		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}

		rel, _ := filepath.Rel(repo, p)
		src, err := os.ReadFile(p)
		die(err)

		if strings.HasPrefix(rel, "legacy/test/") {
			return nil
		}

		res := instrument(rel, src)
		dst := filepath.Join(out, "src", rel)
		writeIfChanged(dst, res)
		replace[p] = dst

		return nil
	})
	die(err)

	runtimeOverlay(goroot, out, replace)
	depCopies(modcache, out)

	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(err)
	writeIfChanged(filepath.Join(out, "overlay.json"), b)
}

func writeIfChanged(p string, b []byte) {
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return
	}

	die(os.MkdirAll(filepath.Dir(p), 0o755))
	die(os.WriteFile(p, b, 0o644))
}

func site(rel string, line int) uint32 {
	h := fnv.New32a()
	fmt.Fprintf(h, "%s:%d", rel, line)

	return h.Sum32() | 0x100
}

func instrument(rel string, src []byte) []byte {
	fset := token.NewFileSet()

	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		// the compiler will say what is wrong with it
		return src
	}

	var edits []ins

	seq := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o, e int, t string) { edits = append(edits, ins{o, e, t, seq}); seq++ }
	line := func(p token.Pos) string { return strconv.FormatUint(uint64(site(rel, fset.Position(p).Line)), 10) }

	used := false

	timeName, syncName := "", ""

	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}

		switch path {
		case "time":
			timeName = "time"
			if name != "" {
				timeName = name
			}
		case "sync":
			syncName = "sync"
			if name != "" {
				syncName = name
			}

			t := `"vcsim/ssync"`
			if name == "" {
				t = "sync " + t
			}

			add(off(im.Path.Pos()), off(im.Path.End()), t)
		case "math/rand":
			t := `"vcsim/smathrand"`
			if name == "" {
				t = "rand " + t
			}

			add(off(im.Path.Pos()), off(im.Path.End()), t)
		}
	}

	_ = syncName

	shadowed := func(x *ast.Ident) bool { return false }

	timeUses, timeReplaced := 0, 0

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}

			used = true

			add(off(s.Pos()), off(s.Pos()), "simrt.Y("+line(s.Pos())+");")

			if blocking(s) {
				switch s.(type) {
				case *ast.ReturnStmt, *ast.BranchStmt:
				default:
					add(off(s.End()), off(s.End()), ";simrt.YF("+line(s.Pos())+")")
				}
			}
		}
	}

	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmtsIn := x.List

			for _, s := range stmtsIn {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}

			stmts(stmtsIn)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			used = true

			add(off(x.Colon)+1, off(x.Colon)+1, "simrt.YF("+line(x.Pos())+");")
			stmts(x.Body)
		case *ast.GoStmt:
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
				used = true

				add(off(fl.Body.Lbrace)+1, off(fl.Body.Lbrace)+1, "defer simrt.GoGuard();")
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || timeName == "" || id.Name != timeName || shadowed(id) {
				return true
			}

			timeUses++

			switch x.Sel.Name {
			case "Now", "Since", "Until":
				used = true
				timeReplaced++

				add(off(x.Pos()), off(x.End()), "simrt."+x.Sel.Name)
			}
		}

		return true
	})

	if used {
		add(off(f.Name.End()), off(f.Name.End()), `;import simrt "vcsim/simrt"`)
	}

	if timeName != "" && timeName != "_" && timeUses > 0 {
		// keeps the import used whatever was replaced
		tail := "\nvar _ = " + timeName + ".Now\n"
		edits = append(edits, ins{len(src), len(src), tail, seq})
		seq++
	}

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}

		// insertions before replacements at the same offset, otherwise in order of discovery
		ri, rj := edits[i].end > edits[i].off, edits[j].end > edits[j].off
		if ri != rj {
			return !ri
		}

		return edits[i].seq < edits[j].seq
	})

	var b strings.Builder

	pos := 0

	for _, e := range edits {
		if e.off < pos {
			continue
		}

		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}

	b.Write(src[pos:])

	return []byte(b.String())
}

// blocking reports whether s itself (not a nested block or function literal) may block on a channel
// or wait group, or starts a goroutine.
func blocking(s ast.Stmt) bool {
	found := false

	switch x := s.(type) {
	case *ast.GoStmt:
		return true
	case *ast.SelectStmt:
		return false // each clause starts with a point of its own
	case *ast.LabeledStmt:
		return blocking(x.Stmt)
	case *ast.RangeStmt, *ast.ForStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.BlockStmt:
		// inner statements get their own points; receives in a header are rare enough
		return false
	}

	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if se, ok := x.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Wait" {
				found = true
			}
		}

		return !found
	})

	return found
}

func runtimeOverlay(goroot, out string, replace map[string]string) {
	p := filepath.Join(goroot, "src/runtime/rand.go")
	b, err := os.ReadFile(p)
	die(err)

	s := string(b)

	rep := func(old, new string) {
		if strings.Count(s, old) != 1 {
			die(fmt.Errorf("runtime/rand.go: expected exactly one %q", old))
		}

		s = strings.Replace(s, old, new, 1)
	}

	// startup randomness: fixed, so hash keys and per-m generators are the same in every process
	rep("	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	globalRand.state.Init(*seed)\n")
	// rand: a deterministic stream once seeded
	rep("	mp := getg().m\n	c := &mp.chacha8\n", `	if simSeed != 0 {
		simState += 0x9e3779b97f4a7c15
		z := simState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	mp := getg().m
	c := &mp.chacha8
`)
	rep("func maps_rand() uint64 {\n	return rand()\n}", "func maps_rand() uint64 {\n	if simSeed != 0 {\n		return simSeed\n	}\n	return rand()\n}")
	rep("func rand32() uint32 {\n	return uint32(rand())\n}", "func rand32() uint32 {\n	if simSeed != 0 {\n		return uint32(simSeed)\n	}\n	return uint32(rand())\n}")

	s += `
var simSeed, simState uint64

//go:linkname SimSeed
//go:linkname SimGoid

// SimSeed fixes map seeds and iteration order, and starts the deterministic stream of rand.
func SimSeed(s uint64) { simSeed, simState = s, s }

// SimGoid is the calling goroutine's id.
func SimGoid() uint64 { return getg().goid }
`
	dst := filepath.Join(out, "goroot", "runtime_rand.go")
	writeIfChanged(dst, []byte(s))
	replace[p] = dst
}

// modCopy copies a dependency, with edits of single files, for the build to use in its place.
func modCopy(modcache, mod, out string, edit func(rel, src string) string, extra map[string]string) {
	dir := filepath.Join(modcache, mod)
	if _, err := os.Stat(dir); err != nil {
		die(fmt.Errorf("%s is not in the module cache", mod))
	}

	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}

		rel, _ := filepath.Rel(dir, p)
		if strings.HasSuffix(p, "_test.go") || strings.HasPrefix(rel, "examples") || !(strings.HasSuffix(p, ".go") || filepath.Base(p) == "go.mod") {
			return nil
		}

		b, err := os.ReadFile(p)
		die(err)
		writeIfChanged(filepath.Join(out, rel), []byte(edit(rel, string(b))))

		return nil
	})
	die(err)

	for k, v := range extra {
		writeIfChanged(filepath.Join(out, k), []byte(v))
	}
}

func swap(s, old, new string) string {
	if strings.Count(s, old) != 1 {
		die(fmt.Errorf("a dependency's source is not as expected: %q", old))
	}

	return strings.Replace(s, old, new, 1)
}

// depCopies makes the two dependencies that differ from the shipped ones: the expirable LRU, whose
// janitor goroutine would outlive a simulated run (expiry is checked on access as well), and
// json-gold, where the result of one costly pure function is remembered.
func depCopies(modcache, out string) {
	modCopy(modcache, "github.com/hashicorp/golang-lru/v2@v2.0.7", filepath.Join(out, "lru"), func(rel, s string) string {
		if rel == "expirable/expirable_lru.go" {
			s = swap(s, "	if res.ttl != noEvictionTTL {\n		go func", "	if false && res.ttl != noEvictionTTL {\n		go func")
		}

		return s
	}, nil)

	modCopy(modcache, "github.com/trustbloc/json-gold@v0.5.2-0.20241206130328-d2135d9f36a8", filepath.Join(out, "jsongold"), func(rel, s string) string {
		if rel == "ld/rdf_dataset.go" {
			s = swap(s, "func IsURL(str string) bool {", "func isURL(str string) bool {")
		}

		return s
	}, map[string]string{
		"ld/memo.go": `//go:build !race

package ld

var urlMemo = map[string]bool{}

// IsURL remembers isURL, which matches a very large regular expression. Simulated code runs one goroutine at a time.
func IsURL(s string) bool {
	if v, ok := urlMemo[s]; ok {
		return v
	}

	if len(urlMemo) > 20000 {
		urlMemo = map[string]bool{}
	}

	v := isURL(s)
	urlMemo[s] = v

	return v
}
`,
		"ld/memo_race.go": `//go:build race

package ld

// IsURL is not remembered where the race detector watches.
func IsURL(s string) bool { return isURL(s) }
`})
}
