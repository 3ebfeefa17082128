// lrgen OUTDIR STANDIN VERIFHARNESS: copies every program of /repo/lr, builds
// it against the cleartext stand-in once per hyper-parameter variant, and
// builds function-level drivers against the real library. Results in
// OUTDIR/index.json; a program or variant that does not build is listed with
// its error (the checks skip it: nothing can be said about it).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verifharness/lrspec"
)

const repo = "/repo"

type entry struct {
	Prog, Variant, Bin, Err string
	Has                     map[string]bool
}

func main() {
	out, standin, harness := os.Args[1], os.Args[2], os.Args[3]
	what := os.Args[4] // "standin" or "real"
	var mu sync.Mutex
	var idx []entry
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	add := func(e entry) { mu.Lock(); idx = append(idx, e); mu.Unlock() }
	for _, p := range lrspec.Progs {
		src := filepath.Join(repo, "lr", p.Name+".go")
		if what == "real" {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				add(driver(out, standin, harness, p.Name, src))
			}()
			continue
		}
		for _, v := range p.Variants() {
			p, v := p, v
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				add(variant(out, standin, p, v, src))
			}()
		}
	}
	if what == "standin" {
		for _, k := range []string{"standin", "real"} {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				rep := standin
				if k == "real" {
					rep = repo
				}
				b, err := os.ReadFile(filepath.Join(filepath.Dir(standin), "conf", "main.go.txt"))
				e := entry{Prog: "conf", Variant: k}
				if err == nil {
					e.Bin, err = build(out, "conf."+k, map[string][]byte{"main.go": b}, "replace mk-lr => "+rep+"\n", "")
				}
				if err != nil {
					e.Err = err.Error()
				}
				add(e)
			}()
		}
	}
	wg.Wait()
	b, _ := json.MarshalIndent(idx, "", " ")
	if err := os.WriteFile(filepath.Join(out, "index.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// build writes a module with the given files and builds it.
func build(out, name string, files map[string][]byte, extra, req string) (string, error) {
	dir := filepath.Join(out, "src", name)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	base, from := repo, "module mk-lr"
	if req != "" { // driver: the harness's module requirements
		base, from = req, "module verifharness"
	}
	mod, err := os.ReadFile(filepath.Join(base, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(base, "go.sum"))
	if err != nil {
		return "", err
	}
	m := strings.Replace(string(mod), from, "module lrprog", 1)
	if req == "" {
		m += "\nrequire mk-lr v0.0.0\n"
	} else {
		m += "\nrequire verifharness v0.0.0\n"
	}
	m += extra
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(m), 0o644)
	os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
	for n, b := range files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			return "", err
		}
	}
	bin := filepath.Join(out, name)
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%v: %s", err, b.String())
	}
	return bin, nil
}

func num(f float64) string { return fmt.Sprintf("%v", f) }

// variant rewrites the initialisers of the hyper-parameters.
func variant(out, standin string, p lrspec.Prog, v lrspec.Variant, src string) entry {
	e := entry{Prog: p.Name, Variant: v.Name}
	b, err := os.ReadFile(src)
	if err != nil {
		e.Err = err.Error()
		return e
	}
	if v.Name != "own" {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, src, b, 0)
		if err != nil {
			e.Err = err.Error()
			return e
		}
		want := map[string]string{}
		if v.Iters != 0 {
			want["numIter"] = fmt.Sprint(v.Iters)
		}
		if v.Companies != 0 {
			want["numCompany"] = fmt.Sprint(v.Companies)
		}
		if v.Gamma != 0 {
			want["gamma"] = num(v.Gamma)
		}
		if v.Eta != nil {
			want["eta"] = fmt.Sprintf("[4]float64{%v,%v,%v,%v}", v.Eta[0], v.Eta[1], v.Eta[2], v.Eta[3])
		}
		for n, x := range map[string]int{"numTrain": v.Train, "batchSize": v.Batch, "numFeature": v.Feats, "numData": v.Rows} {
			if x != 0 {
				want[n] = fmt.Sprint(x)
			}
		}
		if v.C != nil {
			want["c3"], want["c1"], want["c0"] = num(v.C[0]), num(v.C[1]), num(v.C[2])
		}
		type edit struct {
			a, b int
			s    string
		}
		var eds []edit
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || (g.Tok != token.VAR && g.Tok != token.CONST) {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if w, ok := want[n.Name]; ok && i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
						eds = append(eds, edit{fs.Position(vs.Values[i].Pos()).Offset, fs.Position(vs.Values[i].End()).Offset, w})
						delete(want, n.Name)
					}
				}
			}
		}
		if len(want) != 0 {
			e.Err = fmt.Sprintf("no package level declaration for %v", want)
			return e
		}
		for i := range eds { // apply from the end
			for j := i + 1; j < len(eds); j++ {
				if eds[j].a > eds[i].a {
					eds[i], eds[j] = eds[j], eds[i]
				}
			}
		}
		for _, x := range eds {
			b = append(append(append([]byte{}, b[:x.a]...), x.s...), b[x.b:]...)
		}
	}
	e.Bin, err = build(out, p.Name+"."+v.Name, map[string][]byte{"main.go": b}, "replace mk-lr => "+standin+"\n", "")
	if err != nil {
		e.Err = err.Error()
	}
	return e
}

var sigs = map[string]string{
	"SumRowVec":     "func(eval *mkckks.Evaluator, rtkSet *mkrlwe.RotationKeySet, ctIn *mkckks.Ciphertext, numRow, numCol int) (*mkckks.Ciphertext)",
	"SumColVec":     "func(eval *mkckks.Evaluator, rlkSet *mkrlwe.RelinearizationKeySet, rtkSet *mkrlwe.RotationKeySet, ctIn *mkckks.Ciphertext, mask *ckks.Plaintext, numRow, numCol int) (*mkckks.Ciphertext)",
	"genTestParams": "func(mkckks.Parameters, *mkrlwe.IDSet) (*testParams, error)",
	"readData":      "func(string) ([][]complex128, []complex128)",
}

// driver builds the program's helper functions with a driver against the real
// library; functions that are missing or have another signature are left out.
func driver(out, standin, harness, name, src string) entry {
	e := entry{Prog: name, Variant: "driver", Has: map[string]bool{}}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, src, nil, 0)
	if err != nil {
		e.Err = err.Error()
		return e
	}
	have := map[string]bool{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
			if fd.Name.Name == "main" {
				fd.Name.Name = "lrMain"
			} else {
				have[fd.Name.Name] = true
			}
		}
	}
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, fs, f); err != nil {
		e.Err = err.Error()
		return e
	}
	drv, err := os.ReadFile(filepath.Join(filepath.Dir(standin), "conf", "driver.go.txt"))
	if err != nil {
		e.Err = err.Error()
		return e
	}
	try := func(use map[string]bool) error {
		var h bytes.Buffer
		h.WriteString("package main\n\nimport (\n\t\"github.com/ldsec/lattigo/v2/ckks\"\n\t\"mk-lr/mkckks\"\n\t\"mk-lr/mkrlwe\"\n)\n\nvar _ *ckks.Plaintext\nvar _ *mkrlwe.IDSet\nvar _ *mkckks.Message\nvar _ = lrMain\n")
		for n := range sigs {
			switch {
			case n == "genTestParams" && use[n]:
				h.WriteString("func init() {\n\thGen = func(p mkckks.Parameters, s *mkrlwe.IDSet) (*ctx, error) {\n\t\tt, err := genTestParams(p, s)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn &ctx{t.params, t.skSet, t.pkSet, t.rlkSet, t.rtkSet, t.encryptor, t.decryptor, t.evaluator}, nil\n\t}\n}\n")
			case use[n]:
				fmt.Fprintf(&h, "func init() { h%s = %s }\n", n, n)
			}
		}
		bin, err := build(out, name+".driver", map[string][]byte{"main.go": buf.Bytes(), "driver.go": drv, "bind.go": h.Bytes()},
			"\nreplace verifharness => "+harness+"\n", harness)
		if err == nil {
			e.Bin, e.Has = bin, use
		}
		return err
	}
	use := map[string]bool{}
	for n := range sigs {
		use[n] = have[n]
	}
	if err := try(use); err != nil {
		// drop one function at a time
		ok := false
		for n := range sigs {
			u := map[string]bool{}
			for m := range sigs {
				u[m] = have[m] && m != n
			}
			if try(u) == nil {
				ok = true
				break
			}
		}
		if !ok {
			e.Err = err.Error()
		}
	}
	return e
}
