// Package lrspec holds what the four training programs are meant to compute:
// a cleartext reference, and the hyper-parameter variants under which the
// programs are built.
package lrspec

import (
	"fmt"
	"math"
)

// Prog describes one program of lr/.
type Prog struct {
	Name      string
	CSV       string
	Rows      int // rows of the file
	Feats     int
	Cols      int // slots per row
	Companies int
	Train     int // rows used for training
	Batch     int // rows per iteration
	Iters     int
	Gamma     float64
	IntGamma  bool
	Eta       [4]float64
	Norm      int  // 0 none, 1 population deviation, 2 sample deviation
	Steps     bool // prints beta and v after every iteration
	Test      int  // inferred row, -1: all
	C         [3]float64
}

// Mini: the program trains on batches.
func (p Prog) Mini() bool { return p.Name == "lr_minibatch" || p.Name == "lr_minibatch_toy" }

var Progs = []Prog{
	{"lr", "data.csv", 10000, 7, 8, 3, 2048, 2048, 4, 0.3, false, [4]float64{1, 1.61803, 2.193527, 2.74979}, 0, true, 1935, [3]float64{C3, C1, C0}},
	{"lr_toy", "toyData.csv", 2000, 20, 32, 1, 512, 512, 2, 3, true, [4]float64{1, 0, -0.28175, -0.43404}, 1, false, 1935, [3]float64{C3, C1, C0}},
	{"lr_minibatch", "data.csv", 10000, 7, 8, 4, 2048, 512, 4, 0.3, false, [4]float64{1, 1.61803, 2.193527, 2.74979}, 0, true, 1950, [3]float64{C3, C1, C0}},
	{"lr_minibatch_toy", "toyData.csv", 2000, 20, 32, 4, 512, 128, 3, 3, true, [4]float64{1, 0, -0.28175, -0.43404}, 2, true, -1, [3]float64{C3, C1, C0}},
}

const (
	C3 = -0.0015
	C1 = 0.15
	C0 = 0.5
)

// Variant overrides hyper-parameters; zero fields keep the program's own.
type Variant struct {
	Name      string
	Iters     int
	Companies int
	Gamma     float64
	Eta       *[4]float64
	Train     int // training rows (minibatch programs)
	Batch     int
	Feats     int
	Rows      int
	C         *[3]float64 // c3, c1, c0
}

func (p Prog) Apply(v Variant) Prog {
	if v.Iters != 0 {
		p.Iters = v.Iters
	}
	if v.Companies != 0 {
		p.Companies = v.Companies
	}
	if v.Gamma != 0 {
		p.Gamma = v.Gamma
	}
	if v.Eta != nil {
		p.Eta = *v.Eta
	}
	if v.Train != 0 {
		p.Train = v.Train
	}
	if v.Batch != 0 {
		p.Batch = v.Batch
		if !p.Mini() {
			p.Train = v.Batch
		}
	}
	if v.Feats != 0 {
		p.Feats = v.Feats
	}
	if v.Rows != 0 {
		p.Rows = v.Rows
	}
	p.C = [3]float64{C3, C1, C0}
	if v.C != nil {
		p.C = *v.C
	}
	return p
}

// Variants lists the builds of a program, the unchanged one first.
func (p Prog) Variants() []Variant {
	e := func(a, b, c, d float64) *[4]float64 { return &[4]float64{a, b, c, d} }
	l := []Variant{{Name: "own"}}
	l = append(l, Variant{Name: "eta1", Eta: e(0.3, -0.7, 0.2, 0.5)}, Variant{Name: "eta2", Eta: e(-0.5, 0.25, 1.5, -0.1)})
	if p.IntGamma {
		l = append(l, Variant{Name: "gamma", Gamma: 1, Eta: e(0.4, -0.2, 0.6, 0.1)})
	} else {
		l = append(l, Variant{Name: "gamma", Gamma: 0.75, Eta: e(0.4, -0.2, 0.6, 0.1)})
	}
	mom := e(0.3, -0.7, 0.2, 0.5)
	for i := 1; i <= 4; i++ {
		if p.Name != "lr_minibatch_toy" { // its number of iterations is fixed
			l = append(l, Variant{Name: fmt.Sprintf("iter%d", i), Iters: i, Eta: mom})
		}
	}
	for i := 1; i <= 6; i++ {
		if i != p.Companies && (i == 1 || i == 3 || i == 6) {
			l = append(l, Variant{Name: fmt.Sprintf("comp%d", i), Companies: i, Eta: mom})
		}
	}
	l = append(l, Variant{Name: "sigmoid", C: &[3]float64{-0.02, 0.22, 0.4}, Eta: mom})
	batch := func(train, b int) {
		l = append(l, Variant{Name: fmt.Sprintf("batch%d.%d", train, b), Train: train, Batch: b, Eta: mom})
	}
	switch p.Name {
	case "lr":
		for _, b := range []int{1, 7, 1000, 2047} {
			batch(0, b)
		}
	case "lr_toy":
		for _, b := range []int{9, 100, 511} {
			batch(0, b)
		}
	case "lr_minibatch":
		batch(1024, 512) // cyclic
		batch(512, 512)
		batch(3, 1)
		batch(900, 300)
		batch(2048, 2048)
		batch(8192, 4096) // two ciphertexts per batch
		batch(3000, 3000) // the second one partly filled
		batch(900, 400)   // rows left over
		l = append(l, Variant{Name: "feat5", Feats: 5, Eta: mom}, Variant{Name: "feat8", Feats: 8, Eta: mom},
			Variant{Name: "rows", Rows: 2500, Eta: mom}, Variant{Name: "all", Rows: 8300, Feats: 6, Train: 8192, Batch: 4096, Companies: 2, Gamma: 0.9, Eta: e(0.1, 0.9, -0.4, 0.8), C: &[3]float64{-0.01, 0.2, 0.45}})
	case "lr_minibatch_toy":
		batch(256, 128)
		batch(128, 128)
		batch(300, 100)
		batch(512, 512)
		batch(1024, 1024)
		batch(1000, 1000)
		batch(300, 130)
		l = append(l, Variant{Name: "feat18", Feats: 18, Eta: mom}, Variant{Name: "feat32", Feats: 32, Eta: mom},
			Variant{Name: "rows", Rows: 530, Eta: mom}, Variant{Name: "all", Rows: 1100, Feats: 19, Train: 1024, Batch: 1024, Companies: 2, Gamma: 2, Eta: e(0.1, 0.9, -0.4, 0.8), C: &[3]float64{-0.01, 0.2, 0.45}})
	}
	return l
}

// Data is the content of a CSV file.
type Data struct {
	X [][]float64
	Y []float64
}

func (d *Data) Clone() *Data {
	r := &Data{Y: append([]float64(nil), d.Y...)}
	for _, x := range d.X {
		r.X = append(r.X, append([]float64(nil), x...))
	}
	return r
}

// Result of the reference computation.
type Result struct {
	Beta, V [][]float64 // after every iteration
	Sigmoid []float64   // per inferred row
	Rows    []int
	Correct int
	Clear   bool // no verdict is within rounding of the threshold
	Max     float64
}

// Sigmoid is the cubic approximation used by the programs.
func (p Prog) Sigmoid(x float64) float64 { return p.C[0]*x*x*x + p.C[1]*x + p.C[2] }

// Run computes what the program must compute on d.
func (p Prog) Run(d *Data) *Result {
	x := make([][]float64, p.Rows)
	y := make([]float64, p.Rows)
	for i := range x {
		x[i] = append([]float64(nil), d.X[i]...)
		if d.Y[i] == 0 {
			y[i] = 1
		}
	}
	if p.Norm != 0 {
		for j := 0; j < p.Feats; j++ {
			if j == 1 || j == 3 || j == 5 || j >= 17 {
				continue
			}
			m, s := 0.0, 0.0
			for i := 0; i < p.Train; i++ {
				m += d.X[i][j]
			}
			m /= float64(p.Train)
			for i := 0; i < p.Train; i++ {
				s += (d.X[i][j] - m) * (d.X[i][j] - m)
			}
			if p.Norm == 1 {
				s = math.Sqrt(s / float64(p.Train))
			} else {
				s = math.Sqrt(s / float64(p.Train-1))
			}
			for i := range x {
				x[i][j] = (d.X[i][j] - m) / s
			}
		}
	}
	res := &Result{Clear: true}
	beta := make([]float64, p.Feats)
	v := make([]float64, p.Feats)
	up := func(f float64) {
		if math.IsNaN(f) || math.Abs(f) > res.Max {
			res.Max = math.Abs(f)
		}
	}
	nb := p.Train / p.Batch
	for a := 0; a < p.Iters; a++ {
		b := a % nb
		g := make([]float64, p.Feats)
		for i := b * p.Batch; i < (b+1)*p.Batch; i++ {
			m := 0.0
			for j := range v {
				m += x[i][j] * v[j]
			}
			up(m * m)
			e := p.Sigmoid(m) - y[i]
			for j := range g {
				g[j] -= p.Gamma / float64(p.Batch) * x[i][j] * e
			}
		}
		nbeta := make([]float64, p.Feats)
		nv := make([]float64, p.Feats)
		for j := range g {
			nbeta[j] = v[j] + g[j]
			nv[j] = (1-p.Eta[a])*nbeta[j] + p.Eta[a]*beta[j]
			up(nbeta[j])
			up(nv[j])
		}
		beta, v = nbeta, nv
		res.Beta = append(res.Beta, beta)
		res.V = append(res.V, v)
	}
	rows := []int{p.Test}
	if p.Test < 0 {
		rows = rows[:0]
		for i := 0; i < p.Rows; i++ {
			rows = append(rows, i)
		}
	}
	for _, i := range rows {
		m := 0.0
		for j := range beta {
			m += x[i][j] * beta[j]
		}
		up(m * m)
		s := p.Sigmoid(m)
		up(s)
		res.Sigmoid = append(res.Sigmoid, s)
		res.Rows = append(res.Rows, i)
		if math.Abs(s-0.5) < 1e-7 {
			res.Clear = false
		}
		if (s >= 0.5) == (y[i] == 1) {
			res.Correct++
		}
	}
	return res
}
