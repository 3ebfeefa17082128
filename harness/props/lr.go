package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verifharness/lib"
	"verifharness/lrspec"
)

// The training programs. Their sources are compiled unchanged (or with other
// hyper-parameter values) against a cleartext stand-in of the library that is
// itself compared with the real library, and run on enumerated data sets; what
// they decrypt and print is compared with a cleartext reference.

type lrEntry struct {
	Prog, Variant, Bin, Err string
	Has                     map[string]bool
}

func lrIndex() []lrEntry {
	b, err := os.ReadFile(filepath.Join(os.Getenv("LRBIN"), "index.json"))
	if err != nil {
		panic(err)
	}
	var l []lrEntry
	if err := json.Unmarshal(b, &l); err != nil {
		panic(err)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Prog != l[j].Prog {
			return l[i].Prog < l[j].Prog
		}
		return l[i].Variant < l[j].Variant
	})
	return l
}

func lrBin(prog, variant string) (string, string) {
	for _, e := range lrIndex() {
		if e.Prog == prog && e.Variant == variant {
			return e.Bin, e.Err
		}
	}
	return "", "not prepared"
}

// ---- data sets ---------------------------------------------------------------

type lcg uint64

func (l *lcg) next() float64 { // in [-1,1)
	*l = *l*6364136223846793005 + 1442695040888963407
	return float64(int64(*l)>>11) / (1 << 52)
}
func (l *lcg) intn(n int) int {
	*l = *l*6364136223846793005 + 1442695040888963407
	return int(uint64(*l) >> 33 % uint64(n))
}

// lrGen: generic data, number k. Labels follow a hidden direction, so that
// the weights grow and the cubic term matters.
func lrGen(p lrspec.Prog, k int) *lrspec.Data {
	g := lcg(uint64(k)*7919 + 17)
	g.next()
	d := &lrspec.Data{}
	dir := make([]float64, p.Feats)
	for j := range dir {
		dir[j] = g.next()
	}
	off := make([]float64, p.Feats)
	dev := make([]float64, p.Feats)
	for j := range off {
		off[j], dev[j] = 0, 1
		if p.Norm != 0 && k%2 == 1 { // raw features of different magnitudes
			off[j] = g.next() * math.Pow(10, float64(j%5-1))
			dev[j] = math.Pow(10, float64((j+k)%5-2))
			if j == 1 || j == 3 || j == 5 || j >= 17 {
				off[j], dev[j] = 0.25*g.next(), 0.8
			}
		}
	}
	for i := 0; i < p.Rows; i++ {
		x := make([]float64, p.Feats)
		s := 0.0
		for j := range x {
			u := g.next()
			if k%3 == 2 && g.intn(3) == 0 {
				u = math.Round(u * 2)
			}
			s += u * dir[j]
			x[j] = off[j] + dev[j]*u
		}
		y := 0.0
		if s < 0 {
			y = float64(1 + g.intn(3))
		}
		if g.intn(10) == 0 {
			y = float64(g.intn(4))
		}
		d.X = append(d.X, x)
		d.Y = append(d.Y, y)
	}
	return d
}

var lrOwnCache = map[string]*lrspec.Data{}

// lrOwn: the file shipped with the repository.
func lrOwn(p lrspec.Prog) *lrspec.Data {
	if d := lrOwnCache[p.CSV]; d != nil {
		return d
	}
	f, err := os.Open("/repo/lr/" + p.CSV)
	if err != nil {
		return nil
	}
	defer f.Close()
	rows, err := csv.NewReader(bufio.NewReader(f)).ReadAll()
	if err != nil || len(rows) != p.Rows+1 {
		return nil
	}
	d := &lrspec.Data{}
	for _, r := range rows[1:] {
		if len(r) != p.Feats+1 {
			return nil
		}
		x := make([]float64, len(r))
		for j := range r {
			if x[j], err = strconv.ParseFloat(r[j], 64); err != nil {
				return nil
			}
		}
		d.X = append(d.X, x[:p.Feats])
		d.Y = append(d.Y, x[p.Feats])
	}
	lrOwnCache[p.CSV] = d
	return d
}

// lrFmt renders a data set as CSV.
type lrFmt struct {
	name                               string
	crlf, exp, quote, noeol, plus, hdr bool
	hex, zeros, blank                  bool
	names                              func(j int) string
}

var lrFmts = []lrFmt{{name: "plain"}, {name: "crlf", crlf: true}, {name: "exponents", exp: true}, {name: "quoted", quote: true},
	{name: "no final newline", noeol: true}, {name: "plus signs", plus: true}, {name: "numeric header", hdr: true}, {name: "hexadecimal", hex: true}, {name: "leading and trailing zeros", zeros: true}, {name: "blank lines", blank: true},
	{name: "header starting with #", names: func(j int) string { return fmt.Sprintf("#%d", j) }},
	{name: "header with quoted commas, quotes and line ends", names: func(j int) string { return fmt.Sprintf("\"a,%d \"\"b\"\"\n c\"", j) }},
	{name: "empty header names", names: func(j int) string { return []string{"", " ", "0"}[j%3] }},
	{name: "all", crlf: true, exp: true, quote: true, noeol: true, plus: true, hdr: true}}

func (f lrFmt) render(d *lrspec.Data) []byte {
	var b bytes.Buffer
	eol := "\n"
	if f.crlf {
		eol = "\r\n"
	}
	put := func(s string, last bool) {
		if f.quote {
			s = `"` + s + `"`
		}
		b.WriteString(s)
		if !last {
			b.WriteByte(',')
		}
	}
	n := len(d.X[0])
	for j := 0; j <= n; j++ {
		h := fmt.Sprintf("column %d", j)
		if f.hdr {
			h = fmt.Sprint(100 + j)
		}
		if f.names != nil {
			h = f.names(j)
		}
		put(h, j == n)
	}
	num := func(x float64) string {
		var s string
		if f.exp {
			s = strconv.FormatFloat(x, 'E', -1, 64)
		} else {
			s = strconv.FormatFloat(x, 'f', -1, 64)
		}
		if f.hex {
			s = strconv.FormatFloat(x, 'x', -1, 64)
		}
		if f.zeros {
			neg := strings.HasPrefix(s, "-")
			s = strings.TrimPrefix(s, "-")
			if !strings.Contains(s, ".") {
				s += "."
			}
			s = "000" + s + "000"
			if neg {
				s = "-" + s
			}
		}
		if f.plus && x >= 0 {
			s = "+" + s
		}
		return s
	}
	for i := range d.X {
		b.WriteString(eol)
		if f.blank && i%5 == 0 {
			b.WriteString(eol)
		}
		for j := range d.X[i] {
			put(num(d.X[i][j]), false)
		}
		put(num(d.Y[i]), true)
	}
	if !f.noeol {
		b.WriteString(eol)
	}
	return b.Bytes()
}

// ---- running ---------------------------------------------------------------

type lrRec struct {
	Kind byte
	Text string
	V    map[int]complex128
}

type lrOut struct {
	Std  string
	Err  error
	Hang bool
	Recs []lrRec
}

func (o *lrOut) dec() (l []lrRec) {
	for _, r := range o.Recs {
		if r.Kind == 'D' {
			l = append(l, r)
		}
	}
	return
}

func lrRun(bin string, p lrspec.Prog, content []byte) *lrOut {
	dir, err := os.MkdirTemp("", "lrrun")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if content != nil {
		if err := os.WriteFile(filepath.Join(dir, p.CSV), content, 0o644); err != nil {
			panic(err)
		}
	}
	log := filepath.Join(dir, "vlog.bin")
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VLOG="+log, "GOMAXPROCS=2")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	o := &lrOut{}
	o.Err = cmd.Run()
	o.Hang = ctx.Err() != nil
	o.Std = b.String()
	raw, _ := os.ReadFile(log)
	for len(raw) >= 5 {
		r := lrRec{Kind: raw[0], V: map[int]complex128{}}
		n := int(binary.LittleEndian.Uint32(raw[1:]))
		r.Text = string(raw[5 : 5+n])
		raw = raw[5+n:]
		k := int(binary.LittleEndian.Uint32(raw))
		raw = raw[4:]
		for i := 0; i < k; i++ {
			r.V[int(binary.LittleEndian.Uint32(raw))] = complex(math.Float64frombits(binary.LittleEndian.Uint64(raw[4:])), math.Float64frombits(binary.LittleEndian.Uint64(raw[12:])))
			raw = raw[20:]
		}
		o.Recs = append(o.Recs, r)
	}
	return o
}

func lrTail(s string) string {
	if i := strings.Index(s, "panic"); i >= 0 {
		s = s[i:]
		if len(s) > 300 {
			s = s[:300]
		}
	} else if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

const lrTol = 1e-8

func lrClose(got complex128, want float64, scale float64) bool {
	return math.Abs(real(got)-want) <= lrTol*(1+scale) && math.Abs(imag(got)) <= lrTol*(1+scale)
}

func lrCompanies(p lrspec.Prog) string {
	var l []string
	for i := 0; i < p.Companies; i++ {
		l = append(l, fmt.Sprintf("company%d", i))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

var lrPair = regexp.MustCompile(`(?m)(beta|v): \[([^\]]*)\]`)
var lrVerdict = regexp.MustCompile(`(?m)^Correct[:?] (-?\d+)`)
var lrCplx = regexp.MustCompile(`\(([^()]*)i\)`)

func lrParsePair(s string) (l []complex128) {
	for _, m := range lrCplx.FindAllStringSubmatch(s, -1) {
		if z, err := strconv.ParseComplex(m[1]+"i", 128); err == nil {
			l = append(l, z)
		}
	}
	return
}

type lrWhat struct{ train, infer, shared bool }

// lrJudge compares one run with the reference.
func lrJudge(c *Case, p lrspec.Prog, d *lrspec.Data, o *lrOut, w lrWhat, what string) {
	ref := p.Run(d)
	if math.IsNaN(ref.Max) || ref.Max > 900 { // beyond what the modulus of the programs can hold
		c.Note("datasets beyond the representable range", 1)
		return
	}
	if o.Hang {
		c.Failf("%s: the program does not terminate", what)
	}
	if o.Err != nil {
		c.Failf("%s: the program stops: %v: %s", what, o.Err, lrTail(o.Std))
	}
	c.Tr(1)
	dec := o.dec()
	if len(dec) < len(ref.Sigmoid) {
		c.Failf("%s: %d results decrypted, expected at least %d", what, len(dec), len(ref.Sigmoid))
	}
	head, tail := dec[:len(dec)-len(ref.Sigmoid)], dec[len(dec)-len(ref.Sigmoid):]
	worst := 0.0
	if w.train && p.Steps {
		pos := 0
		find := func(name string, it int, val []float64) {
			bad := ""
			for k := pos; k < len(head); k++ {
				ok := true
				for i, x := range head[k].V {
					want := 0.0
					if i%p.Cols < p.Feats {
						want = val[i%p.Cols]
					}
					if !lrClose(x, want, math.Abs(want)) {
						ok = false
						if bad == "" {
							bad = fmt.Sprintf("slot %d is %v, want %v", i, x, want)
						}
						break
					} else if e := math.Abs(real(x) - want); e > worst {
						worst = e
					}
				}
				if ok {
					pos = k + 1
					if w.shared && head[k].Text != lrCompanies(p) {
						c.Failf("%s: %s after iteration %d can be decrypted by {%s}, want all of {%s}", what, name, it, head[k].Text, lrCompanies(p))
					}
					return
				}
			}
			if bad == "" {
				bad = "nothing decrypted"
			}
			c.Failf("%s: %s after iteration %d differs from the plaintext computation: %s", what, name, it, bad)
		}
		for it := range ref.Beta {
			find("beta", it, ref.Beta[it])
			find("v", it, ref.V[it])
		}
		// what is printed
		ms := lrPair.FindAllStringSubmatch(o.Std, -1)
		if len(ms) != 2*len(ref.Beta) {
			c.Failf("%s: %d weight lines printed, want %d", what, len(ms), 2*len(ref.Beta))
		}
		for k, m := range ms {
			val := ref.Beta[k/2]
			if m[1] == "v" {
				val = ref.V[k/2]
			}
			for i, z := range lrParsePair(m[2]) {
				if !lrClose(z, val[i], math.Abs(val[i])) {
					c.Failf("%s: printed %s[%d] after iteration %d is %v, want %v", what, m[1], i, k/2, z, val[i])
				}
			}
		}
	}
	for i, s := range ref.Sigmoid {
		if !w.infer && !(w.train && !p.Steps) {
			break
		}
		got, ok := tail[i].V[0]
		if !ok || !lrClose(got, s, math.Abs(s)) {
			c.Failf("%s: score of row %d is %v, want %v", what, ref.Rows[i], got, s)
		}
		if e := math.Abs(real(got) - s); e > worst {
			worst = e
		}
		if w.shared && tail[i].Text != lrCompanies(p) {
			c.Failf("%s: the score of row %d can be decrypted by {%s}, want all of {%s}", what, ref.Rows[i], tail[i].Text, lrCompanies(p))
		}
	}
	if w.infer && ref.Clear {
		ms := lrVerdict.FindAllStringSubmatch(o.Std, -1)
		if len(ms) != 1 {
			c.Failf("%s: %d verdict lines printed", what, len(ms))
		}
		if ms[0][1] != fmt.Sprint(ref.Correct) {
			c.Failf("%s: %s rows reported correct, want %d", what, ms[0][1], ref.Correct)
		}
	}
	c.NoteMax("error (1e-12)", int64(worst*1e12))
	c.NoteMax("largest intermediate (1e-3)", int64(ref.Max*1e3))
	c.State(fmt.Sprintf("%s|%v|%v", what, ref.Beta, ref.Sigmoid[0]))
	c.Outcome(fmt.Sprintf("%s %.6f %d", p.Name, ref.Sigmoid[0], ref.Correct))
	c.Trace()
}

// lrCase registers the run of one program variant on one data set.
func lrCase(r *Run, id string, p lrspec.Prog, v lrspec.Variant, w lrWhat, f lrFmt, data func() *lrspec.Data) {
	r.Case(fmt.Sprintf("%s/%s/%s", p.Name, v.Name, id), func(c *Case) {
		bin, e := lrBin(p.Name, v.Name)
		if e != "" {
			c.Note("skipped, variant could not be built: "+p.Name+"/"+v.Name, 1)
			return
		}
		d := data()
		if d == nil {
			c.Note("skipped, no data", 1)
			return
		}
		c.Step("run " + p.Name + " (" + v.Name + ") on " + id)
		o := lrRun(bin, p, f.render(d))
		lrJudge(c, p.Apply(v), d, o, w, c.ID)
		c.Sample("%s: reference reproduced", c.ID)
	})
}
