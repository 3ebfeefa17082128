package props

import (
	"fmt"
	"math"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// usedOut is an output ciphertext of the given shape that already holds data.
func usedOut(x *Ctx, idl []string, l int, scale float64) *mkckks.Ciphertext {
	ct := mkckks.NewCiphertext(x.P, IDSet(idl), l, scale)
	for _, p := range ct.Value {
		for i, q := range x.P.RingQ().Modulus[:l+1] {
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = (q - 1) ^ uint64(j&1)
			}
		}
	}
	return ct
}

// generic: the generic layer's unary operations into used outputs of every
// level up to the operand's.
func generic(c *Case, x *Ctx, a *V, desc string, model func(b *V) *V, f func(out *mkrlwe.Ciphertext)) {
	for l := 0; l <= a.Level; l++ {
		c.Step(fmt.Sprintf("%s of level %d into a used ciphertext of level %d", desc, a.Level, l))
		v := model(x.Drop(a, a.Level-l))
		v.Ct = usedOut(x, SortedIDs(a.IDs), l, v.Scale)
		f(v.Ct.Ciphertext)
		x.Check(c, v)
		c.Back()
	}
}

// mulInto: the generic layer's products into a used output.
func mulInto(x *Ctx, ks *mkrlwe.KeySwitcher, a, b *V, mode, l int) *V {
	v := x.MulModel(x.Drop(a, a.Level-l), x.Drop(b, b.Level-l), "generic mul into used")
	out := usedOut(x, SortedIDs(v.IDs), l, a.Ct.Scale*b.Ct.Scale)
	switch mode {
	case 0:
		ks.MulAndRelin(a.Ct.Ciphertext, b.Ct.Ciphertext, x.RLS, out.Ciphertext)
	case 1:
		ks.MulAndRelinHoisted(a.Ct.Ciphertext, b.Ct.Ciphertext, nil, nil, x.RLS, out.Ciphertext)
	case 2:
		ks.MulAndRelinHoisted(a.Ct.Ciphertext, b.Ct.Ciphertext, x.Ev.HoistedForm(a.Ct), x.Ev.HoistedForm(b.Ct), x.RLS, out.Ciphertext)
	}
	if err := x.Ev.Rescale(out, x.P.Scale(), out); err != nil && out.Level() > 0 {
		panic(err)
	}
	v.Ct = out
	return v
}

// mulDirect goes through the generic layer's non-hoisted product, then the
// evaluator's rescale.
func mulDirect(x *Ctx, ks *mkrlwe.KeySwitcher, a, b *V, hoistedLayer bool) *V {
	v := x.MulModel(a, b, "generic mul")
	out := mkckks.NewCiphertext(x.P, a.Ct.IDSet().Union(b.Ct.IDSet()), minInt(a.Level, b.Level), a.Ct.Scale*b.Ct.Scale)
	if hoistedLayer {
		ks.MulAndRelinHoisted(a.Ct.Ciphertext, b.Ct.Ciphertext, nil, nil, x.RLS, out.Ciphertext)
	} else {
		ks.MulAndRelin(a.Ct.Ciphertext, b.Ct.Ciphertext, x.RLS, out.Ciphertext)
	}
	if err := x.Ev.Rescale(out, x.P.Scale(), out); err != nil && out.Level() > 0 {
		panic(err)
	}
	v.Ct = out
	return v
}

func init() {
	reg(&Prop{ID: "C04",
		Rule:  "every pair of non-empty participant sets over three parties x every pair of levels (at least 1) x product variants {plain both orders, pre-decomposed operand combinations 0..3, generic-layer plain, generic-layer nil-decomposed, generic layer into used outputs of every lower level}, squares by aliasing and by copy, operands of small and mixed scales down to level 0, and repeated squaring/products down to level 0; oracle: cleartext product, levels, scale; a second, equal product must agree up to the noise bound across variants",
		Bound: "3 parties, 6 parameter shapes, 2 parties on 4 further (digits of up to 5 moduli, mixed and 60-bit widths, 32 special primes); thorough: 10 shapes, 4 parties; groups of 1 to 20 parties with confusable names on 2 shapes and of up to 48 on 60-bit moduli; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c04big)
			crowdCases(r, "mul", c04crowd)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4a3", "n4p5", "n4lr"}
			idl := []string{"a", "user1", ""}
			if r.Thorough {
				cl = append(append([]string{}, smallCfgs...), "n6a1", "n7a2")
				idl = AllIDs[:4]
			}
			subs := Subsets(idl, 1)
			for _, cn := range cl {
				for i, sa := range subs {
					for j, sb := range subs {
						cn, sa, sb := cn, sa, sb
						r.Case(fmt.Sprintf("%s/%d/%d", cn, i, j), func(c *Case) { c04case(c, cn, idl, sa, sb) })
					}
					cn, sa := cn, sa
					r.Case(fmt.Sprintf("%s/square/%d", cn, i), func(c *Case) { c04square(c, cn, idl, sa) })
				}
				cn := cn
				r.Case(cn+"/values", func(c *Case) { c04values(c, cn, idl) })
			}
			two := []string{"a", ""}
			for _, cn := range []string{"n4a5", "n4mix", "n4w3", "n4p32", "n4a8"} {
				if cn == "n4a8" && !r.Thorough {
					continue
				}
				for i, sa := range Subsets(two, 1) {
					for j, sb := range Subsets(two, 1) {
						cn, sa, sb := cn, sa, sb
						r.Case(fmt.Sprintf("%s/two/%d/%d", cn, i, j), func(c *Case) { c04case(c, cn, two, sa, sb) })
					}
					cn, sa := cn, sa
					r.Case(fmt.Sprintf("%s/two/square/%d", cn, i), func(c *Case) { c04square(c, cn, two, sa) })
				}
			}
			r.Case("n12/large", func(c *Case) {
				s := CachedSys("n12", []string{"a", "b"})
				Reseed(c.ID)
				x := s.Ctx()
				n := s.Cfg.Slots()
				a, b := x.Encrypt("a", Vec(n, 1)), x.Encrypt("b", Vec(n, 2))
				w := x.Mul(a, b)
				x.Check(c, w)
				x.Check(c, x.Mul(w, x.Drop(a, 1)))
				x.Check(c, x.MulHoisted(w, a, 3))
				c.Trace()
			})
		}})
}

func c04case(c *Case, cn string, idl, sa, sb []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	ks := mkrlwe.NewKeySwitcher(s.P.Parameters)
	L := s.P.MaxLevel()
	for la := 1; la <= L; la++ {
		a := mk(x, sa, 1, la, 1)
		for lb := 1; lb <= L; lb++ {
			b := mk(x, sb, 7, lb, 1)
			c.Step(fmt.Sprintf("a %q@%d b %q@%d", sa, la, sb, lb))
			x.Check(c, x.Mul(a, b))
			x.Check(c, x.Mul(b, a))
			for m := 0; m < 4; m++ {
				x.Check(c, x.MulHoisted(a, b, m))
			}
			x.Check(c, mulDirect(x, ks, a, b, false))
			x.Check(c, mulDirect(x, ks, a, b, true))
			for l := 1; l <= minInt(la, lb); l++ {
				if L > 6 && l != 1 && l < minInt(la, lb)-1 {
					continue
				}
				for m := 0; m < 3; m++ {
					x.Check(c, mulInto(x, ks, a, b, m, l))
				}
			}
			c.Back()
		}
	}
	// operands of other scales: products that need no division, one or several,
	// down to level 0
	for _, f := range [][2]float64{{math.Exp2(-18), math.Exp2(-18)}, {math.Exp2(-12), 1}, {1, math.Exp2(9)}, {math.Exp2(15), math.Exp2(15)}} {
		for la := 0; la <= L; la++ {
			if L > 6 && la > 2 && la < L {
				continue
			}
			a := mk(x, sa, 1, la, f[0])
			for lb := 0; lb <= L; lb++ {
				if L > 6 && lb > 2 && lb < L {
					continue
				}
				b := mk(x, sb, 7, lb, f[1])
				c.Step(fmt.Sprintf("a %q@%d*2^%g b %q@%d*2^%g", sa, la, math.Log2(f[0]), sb, lb, math.Log2(f[1])))
				x.Check(c, x.Mul(a, b))
				x.Check(c, x.MulHoisted(b, a, 2))
				x.Check(c, mulDirect(x, ks, a, b, false))
				c.Back()
			}
		}
	}
	c.Trace()
	c.Sample("product of %q and %q at all levels", sa, sb)
}

func c04square(c *Case, cn string, idl, sa []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	L := s.P.MaxLevel()
	for l := 1; l <= L; l++ {
		a := mk(x, sa, 1, l, 1)
		x.Check(c, x.Mul(a, a))
		x.Check(c, x.Mul(a, a.Clone()))
		for m := 0; m < 4; m++ {
			x.Check(c, x.MulHoisted(a, a, m))
		}
	}
	// repeated squaring and repeated product to the bottom of the chain
	a := mk(x, sa, 2, L, 1)
	w, u := a, a
	for w.Level > 0 {
		w = x.Mul(w, w)
		if !x.Check(c, w) {
			break
		}
	}
	for u.Level > 0 {
		u = x.Mul(u, a)
		x.Check(c, u)
	}
	for _, sb := range Subsets(idl, 1) {
		b := mk(x, sb, 4, L, 1)
		u := a
		for u.Level > 0 {
			u = x.Mul(b, u)
			x.Check(c, u)
		}
	}
	c.Trace()
}

// c04values: bilinearity on the alphabet (every pair of messages).
func c04values(c *Case, cn string, idl []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	_, msgs := alphabet(s.Cfg, s.Cfg.LogSlots <= 3)
	var ea, eb []*V
	for _, m := range msgs {
		ea = append(ea, x.Encrypt(idl[0], m))
		eb = append(eb, x.Encrypt(idl[1], m))
	}
	for i := range ea {
		for j := range eb {
			x.Check(c, x.Mul(ea[i], eb[j]))
		}
	}
	c.Trace()
}
