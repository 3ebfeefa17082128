package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	. "verifharness/lib"
)

// encScaled encrypts at a given scale factor through the encode+encrypt path.
func encScaled(x *Ctx, id string, m []complex128, level int, f float64) *V {
	s := x.Sys
	pt := ckks.NewPlaintext(s.CK, level, s.P.Scale()*f)
	ckks.NewEncoder(s.CK).Encode(pt, append([]complex128(nil), m...), s.Cfg.LogSlots)
	v := x.Encrypt(id, m)
	v.Level = level
	v.Scale = s.P.Scale() * f
	v.Desc = fmt.Sprintf("enc(%q,@%d,*%g)", id, level, f)
	v.Ct = mkckks.NewCiphertext(s.P, IDSet([]string{id}), level, 1)
	x.Enc.EncryptPtxt(pt, s.PK[id], v.Ct)
	return v
}

// mk builds a ciphertext shared by the parties of sub at a level and scale.
func mk(x *Ctx, sub []string, tag, level int, f float64) *V {
	n := x.Cfg.Slots()
	var v *V
	for i, id := range sub {
		e := encScaled(x, id, Vec(n, tag+i), level, f)
		if v == nil {
			v = e
		} else {
			v = x.Add(v, e)
		}
	}
	return v
}

func init() {
	reg(&Prop{ID: "C03",
		Rule:  "every pair of non-empty participant sets over three parties x every pair of levels x scale factors {1, 1/2.5, 2, 3, 4.7, 1024, 1/1000} on one operand x both operand orders x {Add, Sub}; oracle: cleartext sum/difference, and for equal scales the exact integer phase identity modulo Q; plus aliased operands, expanded (zero component) operands, three-term sums in all six orders and (a+b)-b; integer scale ratios from 2 to the size of the modulus (all powers of two around 2^53 and 2^64) with the exact integer combination of the phases",
		Bound: "3 parties, 5 parameter shapes (N=16, 32, 32 sparse, 60-bit moduli, mixed widths); thorough: 13 shapes; groups of 1 to 20 parties with confusable names on 2 shapes and of up to 48 on 60-bit moduli; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c03big)
			crowdCases(r, "add", c03crowd)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4w3", "n4mix"}
			if r.Thorough {
				cl = append(append([]string{}, smallCfgs...), "n4w3", "n4mix", "n4a5", "n4a8")
			}
			idl := []string{"a", "user1", "00"}
			subs := Subsets(idl, 1)
			for _, cn := range cl {
				for i, sa := range subs {
					for j, sb := range subs {
						cn, sa, sb := cn, sa, sb
						r.Case(fmt.Sprintf("%s/%d/%d", cn, i, j), func(c *Case) { c03case(c, cn, idl, sa, sb) })
						r.Case(fmt.Sprintf("%s/ratio/%d/%d", cn, i, j), func(c *Case) { c03ratio(c, cn, idl, sa, sb) })
					}
				}
				for i, sa := range subs {
					cn, sa := cn, sa
					r.Case(fmt.Sprintf("%s/alias/%d", cn, i), func(c *Case) { c03alias(c, cn, idl, sa) })
				}
				for i := range subs {
					for j := range subs {
						for k := range subs {
							cn, i, j, k := cn, i, j, k
							r.Case(fmt.Sprintf("%s/assoc/%d/%d/%d", cn, i, j, k), func(c *Case) { c03assoc(c, cn, idl, subs[i], subs[j], subs[k]) })
						}
					}
				}
			}
		}})
}

func exactSum(c *Case, x *Ctx, a, b, w *V, sign int64) {
	l := w.Level
	q := x.BigQ(l)
	pa, pb, pw := x.Phase(a.Ct, x.SK), x.Phase(b.Ct, x.SK), x.Phase(w.Ct, x.SK)
	for i := range pa {
		t := new(big.Int).Mul(pb[i], big.NewInt(sign))
		t.Add(t, pa[i]).Sub(t, pw[i]).Mod(t, q)
		if t.Sign() != 0 {
			c.Failf("%s: phase coefficient %d is not the exact sum modulo Q", w.Desc, i)
		}
	}
	c.Tr(1)
}

func c03case(c *Case, cn string, idl, sa, sb []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	L := s.P.MaxLevel()
	for la := 0; la <= L; la++ {
		for _, f := range []float64{1, 1 / 2.5, 2, 3, 4.7, 1024, 1.0 / 1000} {
			a := mk(x, sa, 1, la, f)
			for lb := 0; lb <= L; lb++ {
				b := mk(x, sb, 7, lb, 1)
				c.Step(fmt.Sprintf("a: parties %q level %d scale*%g; b: parties %q level %d", sa, la, f, sb, lb))
				ws := []*V{x.Add(a, b), x.Add(b, a), x.Sub(a, b), x.Sub(b, a)}
				for _, w := range ws {
					x.Check(c, w)
				}
				if f == 1 {
					exactSum(c, x, a, b, ws[0], 1)
					exactSum(c, x, b, a, ws[1], 1)
					exactSum(c, x, a, b, ws[2], -1)
					exactSum(c, x, b, a, ws[3], -1)
					// (a+b)-b = a, exactly
					back := x.Sub(ws[0], b)
					x.Check(c, back)
				}
				c.Back()
			}
		}
	}
	c.Trace()
	c.Sample("parties %q + %q, all levels and scale ratios", sa, sb)
}

// c03ratio: scales that differ by an integer factor, up to the size of the
// modulus: the sum is the exact integer combination modulo Q.
func c03ratio(c *Case, cn string, idl, sa, sb []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	L := s.P.MaxLevel()
	fs := []float64{3, 7, 1000, 1<<31 - 1, 1<<51 - 1}
	for k := 1; k < 130; k++ {
		if k < 4 || k%8 == 7 || k%8 == 0 || (k > 50 && k < 66) {
			fs = append(fs, math.Exp2(float64(k)))
		}
	}
	for la := 0; la <= L; la++ {
		a := mk(x, sa, 1, la, 1)
		for _, f := range fs {
			big1 := scaled(x, a, f)
			if !x.Fits(big1) {
				continue
			}
			for _, lb := range []int{la, L, la - 1} {
				if lb < 0 {
					continue
				}
				b := mk(x, sb, 7, lb, 1)
				c.Step(fmt.Sprintf("a: parties %q level %d scale*2^%.3f; b: parties %q level %d", sa, la, math.Log2(f), sb, lb))
				kb, _ := new(big.Float).SetFloat64(f).Int(nil)
				for _, w := range []struct {
					v      *V
					sa, sb int64
				}{{x.Add(big1, b), 1, 1}, {x.Add(b, big1), 1, 1}, {x.Sub(big1, b), 1, -1}, {x.Sub(b, big1), -1, 1}} {
					x.Check(c, w.v)
					q := x.BigQ(w.v.Level)
					pa, pb, pw := x.Phase(big1.Ct, x.SK), x.Phase(b.Ct, x.SK), x.Phase(w.v.Ct, x.SK)
					for i := range pa {
						t := new(big.Int).Mul(pb[i], kb)
						t.Mul(t, big.NewInt(w.sb))
						t.Add(t, new(big.Int).Mul(pa[i], big.NewInt(w.sa))).Sub(t, pw[i]).Mod(t, q)
						if t.Sign() != 0 {
							c.Failf("%s: coefficient %d is not the exact integer combination modulo Q", w.v.Desc, i)
						}
					}
				}
				c.Back()
			}
		}
	}
	c.Trace()
}

func c03alias(c *Case, cn string, idl, sa []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	for l := 0; l <= s.P.MaxLevel(); l++ {
		a := mk(x, sa, 1, l, 1)
		for _, w := range []*V{x.Add(a, a), x.Sub(a, a), x.Add(a, a.Clone()), x.Sub(a, a.Clone())} {
			x.Check(c, w)
		}
		// an operand expanded to more parties (zero components)
		for _, sup := range Subsets(idl, 1) {
			if !SetOf(sup)["a"] {
				continue
			}
			e := x.EncryptExpand("a", sup, Vec(s.Cfg.Slots(), 4))
			for _, w := range []*V{x.Add(a, e), x.Sub(a, e), x.Add(e, a), x.Sub(e, a)} {
				x.Check(c, w)
			}
		}
		// no participants at all: the trivial zero ciphertext
		z := &V{Ct: mkckks.NewCiphertext(s.P, IDSet(nil), l, s.P.Scale()), S: Const(s.Cfg.Slots(), 0), IDs: map[string]bool{}, Level: l, Scale: s.P.Scale(), Desc: "0"}
		for _, w := range []*V{x.Add(a, z), x.Sub(a, z), x.Add(z, a), x.Sub(z, a)} {
			x.Check(c, w)
		}
	}
	c.Trace()
}

func c03assoc(c *Case, cn string, idl []string, sa, sb, sc []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	L := s.P.MaxLevel()
	a, b, d := mk(x, sa, 1, L, 1), mk(x, sb, 5, L-1, 1), mk(x, sc, 9, L, 1)
	l := []*V{a, b, d}
	var first *V
	for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		w := x.Add(x.Add(l[p[0]], l[p[1]]), l[p[2]])
		x.Check(c, w)
		if first == nil {
			first = w
		} else if !BigEqMod(x.Phase(first.Ct, x.SK), x.Phase(w.Ct, x.SK), x.BigQ(w.Level)) {
			c.Failf("sum depends on the order %v", p)
		}
	}
	w := x.Sub(x.Sub(a, b), d)
	x.Check(c, w)
	w = x.Sub(a, x.Sub(b, d))
	x.Check(c, w)
	c.Trace()
}
