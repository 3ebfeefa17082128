package props

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os/exec"
	"strconv"
	"strings"
	"time"

	. "verifharness/lib"
	"verifharness/lrspec"
)

func init() {
	reg(&Prop{ID: "C16",
		Rule:  "every program x every hyper-parameter variant (momentum sequences, learning rates, iteration counts, company counts, sigmoid coefficients, batch sizes and training sizes incl. cyclic batches and two ciphertexts per batch, feature and row counts) x every data set of the list: the weights and momentum decrypted after each iteration (first and last 64 slots) and the printed ones equal the plaintext Nesterov computation, and belong to all companies. Model binding: every operation sequence up to depth 3 of the library operations the programs use is executed both by the cleartext stand-in and by the real library and must agree in values, level, scale, owners and refusals",
		Bound: "4 programs, 14-23 variants each, 7 data sets each (thorough 23); conformance depth 3 on a small ring",
		Fn:    c16,
	})
	reg(&Prop{ID: "C17",
		Rule:  "every program x every rendering of the CSV, every label pattern, every feature column perturbed, every boundary row (thorough: every row) perturbed, every malformed file: results equal the plaintext computation on exactly the documented rows, columns, label test and normalisation; malformed files are refused before training",
		Bound: "4 programs; 14 renderings, 9 label patterns, every column x 3 perturbations, boundary rows (thorough: every row), 12 malformations at 3 rows; columns and boundary rows also for the other batch, feature and row counts",
		Fn:    c17,
	})
	reg(&Prop{ID: "C18",
		Rule:  "every program x every combination of predicted side and label of the inferred row, every scale of the inferred row, every feature of it alone, and several trained models: the decrypted score is the cubic sigmoid of the inner product with the trained weights and the printed verdict counts exactly the rows on the right side of 0.5",
		Bound: "4 programs, 2 models, 4 side/label combinations x 3 scales, every single feature x 2 signs; lr_minibatch_toy infers all 2000 rows in each run",
		Fn:    c18,
	})
}

var lrPlain = lrFmts[0]

func c16(r *Run) {
	for sh := 0; sh < 1; sh++ {
		r.Case("conformance", c16conf)
	}
	ng := 6
	if r.Thorough {
		ng = 22
	}
	w := lrWhat{train: true, shared: true}
	for _, p := range lrspec.Progs {
		for _, v := range p.Variants() {
			p, v := p, v
			q := p.Apply(v)
			if q.Rows == p.Rows && q.Feats == p.Feats {
				lrCase(r, "own data", p, v, w, lrPlain, func() *lrspec.Data { return lrOwn(p) })
			}
			n := ng
			if p.Test < 0 && !r.Thorough {
				n = 3
			}
			for k := 0; k < n; k++ {
				k := k
				lrCase(r, fmt.Sprintf("generic %d", k), p, v, w, lrPlain, func() *lrspec.Data { return lrGen(q, k) })
			}
		}
	}
}

func lrConf(bin string) []string {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "3")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Run(); err != nil {
		return []string{"stopped: " + err.Error() + " " + lrTail(b.String())}
	}
	return strings.Split(strings.TrimSpace(b.String()), "\n")
}

// c16conf replays every operation sequence on the real library and on the
// stand-in the programs are run with.
func c16conf(c *Case) {
	rb, e1 := lrBin("conf", "real")
	sb, e2 := lrBin("conf", "standin")
	if e1 != "" || e2 != "" {
		c.Note("skipped, conformance driver could not be built", 1)
		return
	}
	real, stand := lrConf(rb), lrConf(sb)
	if len(real) != len(stand) {
		c.Failf("the library and its cleartext model take different paths: %d and %d results; library ends with %q", len(real), len(stand), real[len(real)-1])
	}
	for i := range real {
		a, b := strings.Fields(real[i]), strings.Fields(stand[i])
		c.Tr(1)
		bad := func() { c.Failf("the library and its cleartext model differ: library %q, model %q", real[i], stand[i]) }
		if len(a) != len(b) || a[0] != b[0] || a[1] != b[1] {
			bad()
		}
		c.Trace()
		c.State(a[0])
		if a[1] != "ok" {
			c.Note("refused by both", 1)
			continue
		}
		for k := 2; k < len(a); k++ {
			if a[k] == b[k] {
				continue
			}
			u, v := strings.Split(a[k], ","), strings.Split(b[k], ",")
			if len(u) != len(v) {
				bad()
			}
			for q := range u {
				x, ex := strconv.ParseFloat(u[q], 64)
				y, ey := strconv.ParseFloat(v[q], 64)
				if ex != nil || ey != nil {
					if u[q] == v[q] {
						continue
					}
					bad()
				}
				if math.IsNaN(y) {
					continue
				}
				if !(math.Abs(x-y) <= 1e-4*(1+math.Abs(y))) {
					bad()
				}
			}
		}
	}
	c.Sample("conformance: %d sequences agree", len(real))
}

func c17(r *Run) {
	w := lrWhat{train: true, infer: true}
	own := lrspec.Variant{Name: "own"}
	for _, p := range lrspec.Progs {
		p := p
		slow := p.Test < 0 && !r.Thorough
		for _, f := range lrFmts {
			lrCase(r, "rendering "+f.name, p, own, w, f, func() *lrspec.Data { return lrGen(p, 1) })
		}
		for k := 0; k < 9; k++ {
			k := k
			lrCase(r, fmt.Sprintf("labels %d", k), p, own, w, lrPlain, func() *lrspec.Data {
				d := lrGen(p, 3)
				for i := range d.Y {
					d.Y[i] = lrLabel(k, i, d.Y[i])
				}
				return d
			})
		}
		for j := 0; j < p.Feats; j++ {
			for m := 0; m < 3; m++ {
				if slow && m != j%3 {
					continue
				}
				j, m := j, m
				lrCase(r, fmt.Sprintf("column %d perturbed %d", j, m), p, own, w, lrPlain, func() *lrspec.Data {
					d := lrGen(p, 1)
					for i := range d.X {
						switch m {
						case 0:
							d.X[i][j] = -d.X[i][j] * 1.25
						case 1:
							d.X[i][j] = d.X[i][j]*0.5 + 0.25
						case 2: // rows in another order, this column only
							d.X[i][j] = lrGen2(p, i*31+j)
						}
					}
					return d
				})
			}
		}
		for _, row := range lrRows(p, r.Thorough) {
			row := row
			lrCase(r, fmt.Sprintf("row %d perturbed", row), p, own, w, lrPlain, func() *lrspec.Data {
				d := lrGen(p, 0)
				for j := range d.X[row] {
					d.X[row][j] = 1.5 - d.X[row][j]
				}
				if d.Y[row] == 0 {
					d.Y[row] = 2
				} else {
					d.Y[row] = 0
				}
				return d
			})
		}
		for _, v := range p.Variants() { // other shapes of the data
			if v.Train == 0 && v.Batch == 0 && v.Feats == 0 && v.Rows == 0 {
				continue
			}
			v, q := v, p.Apply(v)
			for j := 0; j < q.Feats; j++ {
				if slow && j%4 != 1 || !r.Thorough && j%2 == 0 {
					continue
				}
				j := j
				lrCase(r, fmt.Sprintf("column %d perturbed", j), p, v, w, lrPlain, func() *lrspec.Data {
					d := lrGen(q, 1)
					for i := range d.X {
						d.X[i][j] = d.X[i][j]*0.5 + 0.25
					}
					return d
				})
			}
			for k, row := range lrRows(q, false) {
				if slow && k%2 == 1 {
					continue
				}
				row := row
				lrCase(r, fmt.Sprintf("row %d perturbed", row), p, v, w, lrPlain, func() *lrspec.Data {
					d := lrGen(q, 0)
					for j := range d.X[row] {
						d.X[row][j] = 1.5 - d.X[row][j]
					}
					if d.Y[row] == 0 {
						d.Y[row] = 2
					} else {
						d.Y[row] = 0
					}
					return d
				})
			}
		}
		for m := 0; m < 12; m++ {
			for _, row := range []int{0, p.Train / 2, p.Rows - 1} {
				m, row := m, row
				r.Case(fmt.Sprintf("%s/malformed %d at row %d", p.Name, m, row), func(c *Case) {
					bin, e := lrBin(p.Name, "own")
					if e != "" {
						c.Note("skipped, not built", 1)
						return
					}
					lines := strings.Split(string(lrPlain.render(lrGen(p, 0))), "\n")
					fs := strings.Split(lines[row+1], ",")
					switch m {
					case 0:
						fs[2] = "abc"
					case 1:
						fs[p.Feats] = ""
					case 2:
						fs = fs[1:]
					case 3:
						fs[0] = `1"2`
					case 5:
						fs[0] = "#" + fs[0]
					case 6:
						fs = append(fs, "0")
					case 7:
						fs[p.Feats-1] = "1.2.3"
					case 8:
						fs[1] = "1e999"
					case 9:
						fs[0] = "--1"
					case 10:
						fs[p.Feats] = "x0"
					case 11:
						fs[3] = `"1`
					}
					lines[row+1] = strings.Join(fs, ",")
					content := []byte(strings.Join(lines, "\n"))
					if m == 4 {
						if row != 0 {
							return
						}
						content = nil
					}
					o := lrRun(bin, p, content)
					c.Tr(1)
					if o.Err == nil || strings.Contains(o.Std, "Correct") || len(o.dec()) != 0 {
						c.Failf("%s: unreadable input is accepted", c.ID)
					}
					c.Outcome("refused")
					c.State(c.ID)
					c.Trace()
				})
			}
		}
	}
}

func lrGen2(p lrspec.Prog, n int) float64 {
	g := lcg(uint64(n) * 2654435761)
	g.next()
	return 0.5 * g.next()
}

// lrLabel: label patterns.
func lrLabel(k, i int, y float64) float64 {
	switch k {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return float64(i % 2)
	case 3:
		return []float64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}[i%10]
	case 4:
		return []float64{0, -1, 5, -3, 256, 1e9, 10}[i%7]
	case 5:
		return math.Copysign(0, -1)
	case 6:
		if i%3 == 0 {
			return 3
		}
		return y
	case 7:
		return []float64{2, 3}[i%2]
	}
	return 2 * y
}

func lrRows(p lrspec.Prog, all bool) []int {
	var l []int
	if all && p.Test >= 0 {
		for i := 0; i < p.Rows && i < p.Train+8; i++ {
			l = append(l, i)
		}
		return append(l, p.Test, p.Test+1, p.Rows-1)
	}
	step := 1
	if p.Test < 0 && !all {
		step = 3
	}
	seen := map[int]bool{}
	for b := 0; b <= p.Train; b += p.Batch {
		for k := -1; k <= 1; k += step {
			i := b + k
			if i >= 0 && i < p.Rows && !seen[i] {
				seen[i] = true
				l = append(l, i)
			}
		}
	}
	for _, i := range []int{7, p.Train / 3, p.Test - 1, p.Test, p.Test + 1, p.Rows - 2, p.Rows - 1} {
		if i >= 0 && !seen[i] {
			seen[i] = true
			l = append(l, i)
		}
	}
	return l
}

func c18(r *Run) {
	w := lrWhat{infer: true}
	own := lrspec.Variant{Name: "own"}
	for _, p := range lrspec.Progs {
		p := p
		for model := 0; model < 3; model++ {
			for combo := 0; combo < 4; combo++ {
				for si, sc := range []float64{0.05, 0.7, 1.6} {
					if p.Test < 0 && !r.Thorough && (combo+si)%4 != 0 {
						continue
					}
					model, combo, sc := model, combo, sc
					lrCase(r, fmt.Sprintf("model %d side/label %d scale %v", model, combo, sc), p, own, w, lrPlain, func() *lrspec.Data {
						d := lrGen(p, 2*model)
						ref := p.Run(d)
						b := ref.Beta[len(ref.Beta)-1]
						rows := []int{p.Test}
						if p.Test < 0 {
							rows = nil
							for i := p.Train; i < p.Rows; i++ {
								rows = append(rows, i)
							}
						}
						for _, i := range rows {
							n := 0.0
							for j := range b {
								n += d.X[i][j] * b[j]
							}
							if (n >= 0) != (combo&1 == 0) {
								sc = -sc
							}
							for j := range b {
								d.X[i][j] *= sc
							}
							sc = math.Abs(sc)
							d.Y[i] = float64(combo >> 1 * (1 + i%3))
						}
						return d
					})
				}
			}
		}
		for j := 0; j < p.Feats; j++ {
			for s := 0; s < 2; s++ {
				if p.Test < 0 && !r.Thorough && s != j%2 {
					continue
				}
				j, s := j, s
				lrCase(r, fmt.Sprintf("only feature %d sign %d", j, s), p, own, w, lrPlain, func() *lrspec.Data {
					d := lrGen(p, 4)
					for i := range d.X {
						if p.Test >= 0 && i != p.Test || i < p.Train && p.Test < 0 {
							continue
						}
						for k := range d.X[i] {
							if k != j {
								d.X[i][k] = 0
							}
						}
						d.X[i][j] = 1.75 * float64(1-2*s)
						d.Y[i] = float64(i % 3)
					}
					return d
				})
			}
		}
	}
}
