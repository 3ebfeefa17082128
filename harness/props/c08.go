package props

import (
	"fmt"
	"math"
	"math/big"

	"mk-lr/mkckks"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C08",
		Rule:  "every level x participant set x scale in {scale*2^k for k over 0..modulus chain, products of 1..3 moduli, just below/above the threshold} x minScale in {scale, scale/2, 1, 2*scale, q} x {new, in place, into another ciphertext of every level}: level, scale and decrypted value follow the documented rule, and every coefficient of every component is the input coefficient divided by the consumed moduli, rounded to nearest (divide while the result stays at least minScale/2, never below level 0); error returns for level 0, zero scale and non-positive minScale leave the ciphertext unchanged; dropping any number of levels keeps the value; every operation's output level/scale",
		Bound: "3 parties, 9 parameter shapes (mixed widths, 60-bit moduli); thorough: 10 shapes; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c08big)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4a3", "n4lr", "n4s0", "n4s1", "n4mix", "n4w3"}
			if r.Thorough {
				cl = append(append([]string{}, smallCfgs...), "n6a1", "n5lr", "n4mix")
			}
			idl := []string{"a", "user1", "00"}
			for _, cn := range cl {
				cfg := GetCfg(cn)
				for i, sa := range Subsets(idl, 1) {
					for l := 0; l < len(cfg.LogQ); l++ {
						cn, sa, l := cn, sa, l
						r.Case(fmt.Sprintf("%s/%d/%d", cn, i, l), func(c *Case) { c08case(c, cn, idl, sa, l) })
					}
				}
			}
		}})
}

// scaled returns a ciphertext at level l whose scale is a.Scale*prod, obtained
// by multiplying the integers of a by round(f) (the value is unchanged).
func scaled(x *Ctx, a *V, f float64) *V {
	k := math.Round(f)
	w := *a
	w.Scale = a.Scale * k
	w.E = a.E * k
	w.Desc = fmt.Sprintf("%s*2^%.1f", a.Desc, math.Log2(k))
	ct := a.Ct.CopyNew()
	kb, _ := big.NewFloat(k).Int(nil)
	for _, p := range ct.Value {
		x.P.RingQ().MulScalarBigintLvl(a.Level, p, kb, p)
	}
	ct.Scale = w.Scale
	w.Ct = ct
	return &w
}

func c08case(c *Case, cn string, idl, sa []string, l int) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	a := mk(x, sa, 1, l, 1)
	q := s.P.RingQ().Modulus
	sc := s.P.Scale()
	// dropping levels
	for d := 0; d <= l; d++ {
		c.Step(fmt.Sprintf("drop %d of %d", d, l))
		v := x.Drop(a, d)
		x.Check(c, v)
		w := a.Clone()
		x.Ev.DropLevel(w.Ct, d)
		w.Level -= d
		x.Check(c, w)
		c.Back()
	}
	// errors
	bad := func(name string, ct *mkckks.Ciphertext, ms float64) {
		cp := ct.CopyNew()
		if err := x.Ev.Rescale(ct, ms, ct); err == nil {
			c.Failf("%s: no error", name)
		}
		if d := s.CtEq(ct, cp); d != "" {
			c.Failf("%s: refused but changed the ciphertext (%s)", name, d)
		}
		if _, err := x.Ev.RescaleNew(ct, ms); err == nil {
			c.Failf("%s: no error (new)", name)
		}
		c.Tr(2)
	}
	bad("minScale 0", a.Ct.CopyNew(), 0)
	bad("minScale <0", a.Ct.CopyNew(), -sc)
	z := a.Ct.CopyNew()
	z.Scale = 0
	bad("scale 0", z, sc)
	if l == 0 {
		bad("level 0", a.Ct.CopyNew(), sc)
		bad("level 0 large scale", scaled(x, a, math.Exp2(10)).Ct, sc)
		c.Trace()
		return
	}
	// scales: powers of two steps of 2^8 and threshold neighbourhoods
	var fs []float64
	logq := 0.0
	for i := 0; i <= l; i++ {
		logq += math.Log2(float64(q[i]))
	}
	for k := 0.0; k+math.Log2(sc)+8 < logq; k += 7 {
		fs = append(fs, math.Exp2(k))
	}
	prod := 1.0
	for d := 0; d < l; d++ {
		prod *= float64(q[l-d])
		if math.Log2(prod)+math.Log2(sc)+8 < logq {
			fs = append(fs, prod, prod/2*1.001, prod/2*0.999, prod*2)
			if d == 0 {
				// exactly on the threshold: (sc*q/2)/q == sc/2 in floating point
				if math.Mod(prod, 2) == 0 {
					fs = append(fs, prod/2)
				}
				fs = append(fs, prod*4)
			}
		}
	}
	for _, f := range fs {
		v := scaled(x, a, f)
		if !x.Fits(v) {
			continue
		}
		for _, ms := range []float64{sc, sc / 2, 1, 2 * sc, float64(q[l]), sc * sc, v.Scale / float64(q[l]) * 2, v.Scale / float64(q[l]) * 1.99, v.Scale / float64(q[l]) * 2.01} {
			if ms <= 0 {
				continue
			}
			// skip thresholds so close that float rounding decides
			if nearThreshold(v.Scale, ms, q, l) {
				continue
			}
			c.Step(fmt.Sprintf("rescale scale=2^%.2f min=2^%.2f level=%d", math.Log2(v.Scale), math.Log2(ms), l))
			w, err := x.RescaleNew(v, ms)
			if err != nil {
				c.Failf("RescaleNew: %v", err)
			}
			x.Check(c, w)
			if d := w.Level; d < 0 {
				c.Failf("negative level")
			}
			c08round(c, s, v, w)
			// in place
			u := *w
			u.Desc = "in place " + w.Desc
			u.Ct = v.Ct.CopyNew()
			if err := x.Ev.Rescale(u.Ct, ms, u.Ct); err != nil {
				c.Failf("Rescale: %v", err)
			}
			x.Check(c, &u)
			if d := s.CtEq(u.Ct, w.Ct); d != "" {
				c.Failf("in-place and new rescale differ: %s", d)
			}
			// into a dirty ciphertext of the same level
			t := *w
			t.Desc = "into " + w.Desc
			t.Ct = mk(x, sa, 5, l, 1).Ct
			if err := x.Ev.Rescale(v.Ct, ms, t.Ct); err != nil {
				c.Failf("Rescale: %v", err)
			}
			x.Check(c, &t)
			x.Check(c, v) // the input is intact
			// into a used ciphertext of another level: an error, a refusal or the
			// right result, never another value
			for ol := 0; ol <= s.P.MaxLevel(); ol++ {
				if ol == l {
					continue
				}
				o := *w
				o.Desc = fmt.Sprintf("into level %d %s", ol, w.Desc)
				o.Ct = mk(x, sa, 5, ol, 1).Ct
				var err error
				if p, _ := Panics(func() { err = x.Ev.Rescale(v.Ct, ms, o.Ct) }); !p && err == nil {
					if ol < o.Level && o.Ct.Level() == ol {
						o.Level = ol // a lower output: implicit drop
					}
					x.Check(c, &o)
				}
				x.Check(c, v)
				c.Tr(1)
			}
			c.Back()
		}
	}
	c.Trace()
	c.Sample("rescaling of %q at level %d: %d scales", sa, l, len(fs))
}

// c08round checks that every component was divided by the consumed moduli and
// rounded to nearest: |out*prod - in| <= prod*(1/2+eps) modulo the input modulus,
// for every coefficient (successive rounding of k moduli stays below 1/2+1/q+...).
func c08round(c *Case, s *Sys, v, w *V) {
	q := s.P.RingQ().Modulus
	prod := big.NewInt(1)
	for i := w.Level + 1; i <= v.Level; i++ {
		prod.Mul(prod, new(big.Int).SetUint64(q[i]))
	}
	Q := s.BigQ(v.Level)
	half := new(big.Int).Rsh(Q, 1)
	lim := new(big.Int).Mul(prod, big.NewInt(5001))
	lim.Quo(lim, big.NewInt(10000))
	n := s.P.RingQ().N
	in := make([]*big.Int, n)
	out := make([]*big.Int, n)
	d := new(big.Int)
	for id, p := range v.Ct.Value {
		s.P.RingQ().PolyToBigintLvl(v.Level, p, in)
		s.P.RingQ().PolyToBigintLvl(w.Level, w.Ct.Value[id], out)
		for j := range in {
			d.Mul(out[j], prod)
			d.Sub(d, in[j])
			d.Mod(d, Q)
			if d.Cmp(half) > 0 {
				d.Sub(d, Q)
			}
			if d.CmpAbs(lim) > 0 {
				c.Failf("rescale from level %d to %d: coefficient %d of component %q is off by %s/%s of a unit", v.Level, w.Level, j, id, d, prod)
			}
		}
		c.Tr(1)
	}
}

func nearThreshold(scale, ms float64, q []uint64, l int) bool {
	top := true
	for l > 0 {
		r := scale / float64(q[l]) / (ms / 2)
		if top && scale/float64(q[l]) == ms/2 && math.Log2(ms) == math.Trunc(math.Log2(ms)) {
			// exact in any order of evaluation: q*2^k against 2^(k+1)
			r = 2
		}
		top = false
		if math.Abs(r-1) < 1e-6 {
			return true
		}
		if r < 1 {
			return false
		}
		scale /= float64(q[l])
		l--
	}
	return false
}
