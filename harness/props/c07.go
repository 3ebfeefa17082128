package props

import (
	"fmt"

	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C07",
		Rule:  "every participant set x every level x every message of the alphabet (all basis vectors, real, imaginary, complex): conjugate, conjugate twice, conjugate after/before each rotation by a power of two, product z*conj(z); the generic layer into used outputs of every lower level; oracle: slotwise conjugate",
		Bound: "3 parties, 14 parameter shapes (chains of up to 34 moduli); thorough adds N=64, 128, 4096; groups of 1 to 20 parties with confusable names on 2 shapes and of up to 48 on 60-bit moduli; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c07big)
			crowdOne(r, "conj", c07crowd)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4a3", "n4p5", "n4s0", "n4s1", "n4lr", "n4a5", "n4w3", "n4mix", "n4w", "n4a8", "n4p32"}
			if r.Thorough {
				cl = append(cl, "n6a1", "n7a2", "n12")
			}
			idl := []string{"a", "user1", ""}
			for _, cn := range cl {
				cfg := GetCfg(cn)
				for i, sa := range Subsets(idl, 1) {
					for l := 0; l < len(cfg.LogQ); l++ {
						cn, sa, l := cn, sa, l
						r.Case(fmt.Sprintf("%s/%d/%d", cn, i, l), func(c *Case) { c07case(c, cn, idl, sa, l) })
					}
				}
			}
		}})
}

func c07case(c *Case, cn string, idl, sa []string, l int) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	names, msgs := alphabet(s.Cfg, s.Cfg.LogN <= 7)
	for i, m := range msgs {
		c.Step(names[i])
		a := encScaled(x, sa[0], m, l, 1)
		for k, id := range sa[1:] {
			a = x.Add(a, encScaled(x, id, Vec(s.Cfg.Slots(), 3+k), l, 1))
		}
		b := x.Conj(a)
		x.Check(c, b)
		x.Check(c, x.Conj(b))
		c.Back()
	}
	a := mk(x, sa, 1, l, 1)
	b := x.Conj(a)
	ks := mkrlwe.NewKeySwitcher(s.P.Parameters)
	generic(c, x, a, "conjugation", func(b *V) *V { return x.Conj(b) }, func(o *mkrlwe.Ciphertext) { ks.Conjugate(a.Ct.Ciphertext, x.CJS, o) })
	for _, r := range s.RotIdx {
		p, q := x.Conj(x.Rotate(a, r)), x.Rotate(b, r)
		x.Check(c, p)
		x.Check(c, q)
	}
	if l > 0 {
		x.Check(c, x.Mul(a, b))
		x.Check(c, x.Mul(b, a))
	}
	x.Check(c, x.Add(a, b))
	x.Check(c, x.Sub(a, b))
	c.Trace()
	c.Sample("conjugation of %q level %d", sa, l)
}
