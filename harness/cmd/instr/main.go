// instr OUTDIR: prepares a build of the code under test in which every
// statement of mkrlwe and mkckks (working tree of /repo), and the upper
// statement levels of the parts of lattigo that have internal state (encoder,
// samplers, basis conversion, key switcher, PRNG), is preceded by a scheduling
// point. It writes overlay.json and go.mod / go.sum for "go build -overlay
// -modfile", and locs.json, the positions of the points. The copies behave as
// the originals while no hook is installed.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const repo = "/repo"
const lattigo = "github.com/ldsec/lattigo/v2"

var locs []string

func main() {
	out := os.Args[1]
	must(os.MkdirAll(out, 0o755))
	repl := map[string]string{}
	for _, pkg := range []string{"mkrlwe", "mkckks"} {
		dir := filepath.Join(repo, pkg)
		bp, err := build.ImportDir(dir, 0)
		must(err)
		for _, f := range bp.GoFiles {
			src, err := os.ReadFile(filepath.Join(dir, f))
			must(err)
			dst := filepath.Join(out, pkg+"_"+f)
			must(os.WriteFile(dst, instrument(pkg+"/"+f, src, 1<<30), 0o644))
			repl[filepath.Join(dir, f)] = dst
		}
		hook := filepath.Join(out, pkg+"_hook.go")
		must(os.WriteFile(hook, hookFile(bp.Name), 0o644))
		repl[filepath.Join(dir, "zz_verif_sched.go")] = hook
	}
	own := len(locs)
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))

	// the library underneath
	o, err := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", lattigo).Output()
	must(err)
	src := strings.TrimSpace(string(o))
	lat := filepath.Join(out, "lattigo")
	for _, pkg := range []string{"ring", "rlwe", "ckks", "utils"} {
		dir := filepath.Join(src, pkg)
		bp, err := build.ImportDir(dir, 0)
		must(err)
		must(os.MkdirAll(filepath.Join(lat, pkg), 0o755))
		for _, f := range bp.GoFiles {
			b, err := os.ReadFile(filepath.Join(dir, f))
			must(err)
			if stateful(pkg, f) {
				b = instrument("lattigo/"+pkg+"/"+f, b, 2)
			}
			must(os.WriteFile(filepath.Join(lat, pkg, f), b, 0o644))
		}
		must(os.WriteFile(filepath.Join(lat, pkg, "zz_verif_sched.go"), hookFile(bp.Name), 0o644))
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		must(err)
		must(os.WriteFile(filepath.Join(lat, f), b, 0o644))
		b, err = os.ReadFile(f)
		must(err)
		if f == "go.mod" {
			b = append(b, []byte("\nreplace "+lattigo+" => "+lat+"\n")...)
		}
		must(os.WriteFile(filepath.Join(out, f), b, 0o644))
	}
	b, _ = json.Marshal(map[string]interface{}{"Own": own, "Locs": locs})
	must(os.WriteFile(filepath.Join(out, "locs.json"), b, 0o644))
}

func stateful(pkg, f string) bool {
	switch pkg {
	case "ring":
		return strings.HasPrefix(f, "ring_sampler") || f == "ring_basis_extension.go" || f == "ring_scaling.go" || f == "ring_poly.go"
	case "rlwe":
		return f == "keyswitch.go" || f == "keygen.go"
	case "ckks":
		return f == "encoder.go" || f == "utils.go"
	case "utils":
		return f == "prng.go"
	}
	return false
}

func hookFile(pkg string) []byte {
	return []byte("package " + pkg + "\n\n// VerifSchedHook is called before every statement when set.\nvar VerifSchedHook func(int)\n\nfunc verifSchedPoint(i int) {\n\tif h := VerifSchedHook; h != nil {\n\t\th(i)\n\t}\n}\n")
}

// instrument inserts a point before every statement of at most the given
// nesting depth.
func instrument(name string, src []byte, depth int) []byte {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, name, src, 0)
	must(err)
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	var walk func(n ast.Node, d int)
	walk = func(n ast.Node, d int) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n {
				return true
			}
			switch b := x.(type) {
			case *ast.BlockStmt:
				if d < depth {
					add(b.List)
				}
				walk(b, d+1)
				return false
			case *ast.CaseClause:
				if d <= depth {
					add(b.Body)
				}
			case *ast.CommClause:
				if d <= depth {
					add(b.Body)
				}
			}
			return true
		})
	}
	walk(af, 0)
	sort.Ints(at)
	var b strings.Builder
	prev := 0
	for i, o := range at {
		if i > 0 && at[i-1] == o {
			continue
		}
		b.Write(src[prev:o])
		fmt.Fprintf(&b, "verifSchedPoint(%d); ", len(locs))
		locs = append(locs, fmt.Sprintf("%s:%d", name, 1+strings.Count(string(src[:o]), "\n")))
		prev = o
	}
	b.Write(src[prev:])
	return []byte(b.String())
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
