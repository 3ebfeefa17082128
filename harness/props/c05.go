package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	. "verifharness/lib"
)

var constants = []interface{}{
	0, 1, -1, 2, -7, 1 << 20, -(1 << 20), int64(5), int64(-5), int64(0), uint64(3), uint64(0), uint64(1 << 33), int64(1) << 41, -(int64(1) << 43),
	0.0, 1.0, -1.0, 0.5, -0.5, 3.25, -1e-3, 1e-9, 12345.678, 1e5, -1024.0, 1.0 / 3,
	complex(0, 0), complex(1, 0), complex(0, 1), complex(0, -1), complex(2, 3), complex(-2, -3), complex(0.5, 0.25), complex(-0.5, 0.125),
	math.Exp2(62), math.Exp2(63), -math.Exp2(63), math.Exp2(64), -math.Exp2(70), 1e25, int64(1) << 62, int64(-1) << 63, uint64(1) << 63, ^uint64(0), complex(math.Exp2(65), 1), complex(-3, math.Exp2(66)),
	complex(0, 0.75), complex(3, -0.5), complex(-0.25, 4), complex(1.0/3, -1.0/7), complex(-6, 0), complex(0.1, 0),
}

func init() {
	reg(&Prop{ID: "C05",
		Rule:  "plaintext product: every participant set x every level >= 1 x every message of the alphabet (all basis vectors) x plaintext scale factors x plaintext level >= ciphertext level x encoded in or out of the transform domain; constant product: 53 constants of every supported type (zero, integer, negative, fractional, complex with integer/fractional parts) x every level x participant set x fresh, in-place and dirty output; every power of two from 2^-12 to 2^80 times three mantissas x sign x real, imaginary, mixed; oracle: cleartext product, level and scale rule",
		Bound: "3 parties, 7 parameter shapes (one of 34 moduli); thorough: 16 shapes; groups of 1 to 20 parties with confusable names on 2 shapes and of up to 48 on 60-bit moduli; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c05big)
			crowdOne(r, "const", c05crowd)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4lr", "n4w3", "n4mix", "n4w"}
			if r.Thorough {
				cl = append(append(append([]string{}, smallCfgs...), "n6a1"), wideCfgs...)
			}
			idl := []string{"a", "user1", "00"}
			for _, cn := range cl {
				cfg := GetCfg(cn)
				for i, sa := range Subsets(idl, 1) {
					for l := 0; l < len(cfg.LogQ); l++ {
						cn, sa, l := cn, sa, l
						r.Case(fmt.Sprintf("%s/pt/%d/%d", cn, i, l), func(c *Case) { c05pt(c, cn, idl, sa, l) })
						r.Case(fmt.Sprintf("%s/const/%d/%d", cn, i, l), func(c *Case) { c05const(c, cn, idl, sa, l) })
					}
				}
			}
		}})
}

func c05pt(c *Case, cn string, idl, sa []string, l int) {
	if l == 0 {
		return
	}
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	a := mk(x, sa, 1, l, 1)
	names, msgs := alphabet(s.Cfg, true)
	encd := ckks.NewEncoder(s.CK)
	for i, m := range msgs {
		c.Step("EncodeMsgNew " + names[i])
		x.Check(c, x.MulPtxt(a, m))
		c.Back()
	}
	for _, f := range []float64{1, 0.5, 8, 1.0 / 1024} {
		for pl := l; pl <= s.P.MaxLevel(); pl++ {
			for _, m := range [][]complex128{Vec(s.Cfg.Slots(), 6), Const(s.Cfg.Slots(), -1)} {
				c.Step(fmt.Sprintf("plaintext@%d scale*%g", pl, f))
				pt := ckks.NewPlaintext(s.CK, pl, s.P.Scale()*f)
				encd.Encode(pt, append([]complex128(nil), m...), s.Cfg.LogSlots)
				v := x.MulPtxtModel(a, m, s.P.Scale()*f, "mulPt")
				v.Ct = x.Ev.MulPtxtNew(a.Ct, pt)
				x.Check(c, v)
				c.Back()
				// the same plaintext, encoded in the transform domain
				c.Step(fmt.Sprintf("transformed plaintext@%d scale*%g", pl, f))
				ptn := ckks.NewPlaintext(s.CK, pl, s.P.Scale()*f)
				encd.EncodeNTT(ptn, append([]complex128(nil), m...), s.Cfg.LogSlots)
				before := ptn.Value.CopyNew()
				v2 := *v
				v2.Ct = x.Ev.MulPtxtNew(a.Ct, ptn)
				x.Check(c, &v2)
				if !ptn.Value.IsNTT || !before.Equals(ptn.Value) {
					c.Failf("the transformed plaintext was changed by the product")
				}
				c.Back()
			}
		}
	}
	// chains of plaintext products to level 0
	w := a
	for w.Level > 0 {
		w = x.MulPtxt(w, Vec(s.Cfg.Slots(), w.Level))
		x.Check(c, w)
	}
	c.Trace()
}

func c05const(c *Case, cn string, idl, sa []string, l int) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	a := mk(x, sa, 1, l, 1)
	for _, k := range constants {
		c.Step(fmt.Sprintf("constant %T %v", k, k))
		v := x.MultByConst(a, k)
		x.Check(c, v)
		// in place
		w := *v
		w.Desc = "in-place " + v.Desc
		w.Ct = a.Ct.CopyNew()
		x.Ev.MultByConst(w.Ct, k, w.Ct)
		x.Check(c, &w)
		// over a dirty output
		w2 := *v
		w2.Desc = "dirty " + v.Desc
		for _, os := range []float64{1, v.Scale * 3, a.Scale * s.P.Scale()} {
			w2.Ct = v.Ct.CopyNew()
			w2.Ct.Scale = os
			for id := range w2.Ct.Value {
				ScribblePoly(w2.Ct.Value[id])
			}
			x.Ev.MultByConst(a.Ct, k, w2.Ct)
			x.Check(c, &w2)
		}
		// into a lower level
		for ol := 0; ol < l; ol++ {
			w3 := x.MultByConstModel(a, k, ol, "lower "+v.Desc)
			w3.Ct = mkckks.NewCiphertext(s.P, IDSet(sa), ol, 77)
			x.Ev.MultByConst(a.Ct, k, w3.Ct)
			x.Check(c, w3)
		}
		// and on top of an already scaled ciphertext, then rescaled
		if v.Scale > s.P.Scale()*2 && l > 0 {
			u, err := x.RescaleNew(v, s.P.Scale())
			if err != nil {
				c.Failf("rescale: %v", err)
			}
			x.Check(c, u)
		}
		c.Back()
	}
	// every magnitude: both signs, integral and not, real and imaginary
	for k := -12; k <= 80 && len(sa) == 1; k++ {
		for _, f := range []float64{4.0 / 3, 1.3125, 1 + math.Exp2(-20)} {
			for _, y := range []interface{}{f * math.Exp2(float64(k)), -f * math.Exp2(float64(k)), complex(0, -f*math.Exp2(float64(k))), complex(f*math.Exp2(float64(k)), 0.5)} {
				c.Step(fmt.Sprintf("constant %T %v", y, y))
				x.Check(c, x.MultByConst(a, y))
				c.Back()
			}
		}
	}
	c.Trace()
	c.Sample("constants on %q level %d", sa, l)
}
