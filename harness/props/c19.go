package props

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C19",
		Rule:  "for every parameter shape (digit sizes 1..3, full and partial last digits, generic layer with gamma 1..3), every level and every polynomial of a boundary alphabet (all single-coefficient polynomials at the residue extremes, constants, alternating, uniform) in both transform domains: the digits of Decompose recombine to the input modulo Q and are bounded by the digit modulus, ExternalProduct with a switching key of s equals a*s up to the gadget noise bound, ExternalProductHoisted on the decomposition gives the identical result, also after a different use of the same switcher and with stale data in the hoisted buffer; composed external products and the common reference strings as right operand",
		Bound: "8 shapes of the CKKS layer and 10 shapes of the generic layer, N=16..32, about 60 polynomials each",
		Fn: func(r *Run) {
			cl := smallCfgs
			if r.Thorough {
				cl = append(append([]string{}, cl...), "n6a1", "n7a2", "n12")
			}
			for _, cn := range cl {
				for l := 0; l < len(GetCfg(cn).LogQ); l++ {
					cn, l := cn, l
					r.Case(fmt.Sprintf("%s/%d", cn, l), func(c *Case) {
						s := CachedSys(cn, []string{"a", "user1", "00"})
						c19case(c, s.P.Parameters, s.KG, l, cn)
					})
				}
			}
			wide := map[string][]int{"n4w": {0, 14, 15, 16, 30, 33}, "n4w3": {0, 1, 2, 3, 5, 7}, "n4mix": {0, 1, 2, 3, 4, 5}, "n4a5": {0, 1, 4, 5, 6, 9, 10, 11}, "n4a8": {0, 7, 8, 9, 15, 16, 17}}
			for _, cn := range []string{"n4w", "n4w3", "n4mix", "n4a5", "n4a8"} {
				for l := 0; l < len(GetCfg(cn).LogQ); l++ {
					if !r.Thorough && !hasInt(wide[cn], l) {
						continue
					}
					cn, l := cn, l
					r.Case(fmt.Sprintf("%s/%d", cn, l), func(c *Case) {
						s := CachedSys(cn, []string{"a"})
						c19case(c, s.P.Parameters, s.KG, l, cn)
					})
				}
			}
			for nq := 1; nq <= 5; nq++ {
				for np := 1; np <= 6; np++ {
					for g := 1; g <= 3; g++ {
						if np/g == 0 {
							continue
						}
						nq, np, g := nq, np, g
						r.Case(fmt.Sprintf("gen/%d/%d/%d", nq, np, g), func(c *Case) {
							lq, lpp := []int{50, 45, 45, 45, 45}, []int{50, 50, 50, 50, 50, 50}
							pp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: 4, LogQ: lq[:nq], LogP: lpp[:np], Sigma: 3.2})
							if err != nil {
								panic(err)
							}
							Reseed(c.ID)
							P := mkrlwe.NewParameters(pp, g)
							kg := mkrlwe.NewKeyGenerator(P)
							for l := 0; l < nq; l++ {
								c19case(c, P, kg, l, c.ID)
							}
						})
					}
				}
			}
		}})
}

// polys is the alphabet of coefficient-domain polynomials at a level.
func polys(r *ring.Ring, l int) (names []string, out []*ring.Poly) {
	n := r.N
	add := func(s string, f func(i, j int, q uint64) uint64) {
		p := r.NewPolyLvl(l)
		for i := 0; i <= l; i++ {
			for j := 0; j < n; j++ {
				p.Coeffs[i][j] = f(i, j, r.Modulus[i])
			}
		}
		names = append(names, s)
		out = append(out, p)
	}
	add("zero", func(i, j int, q uint64) uint64 { return 0 })
	add("one", func(i, j int, q uint64) uint64 { return 1 })
	add("max", func(i, j int, q uint64) uint64 { return q - 1 })
	add("half", func(i, j int, q uint64) uint64 { return q / 2 })
	add("half+1", func(i, j int, q uint64) uint64 { return q/2 + 1 })
	add("alt", func(i, j int, q uint64) uint64 { return uint64(j&1) * (q - 1) })
	add("mixed", func(i, j int, q uint64) uint64 { return uint64((i*7+j*11)%3) * (q / 2) % q })
	for t := 0; t < 6; t++ {
		add(fmt.Sprintf("u%d", t), func(i, j int, q uint64) uint64 {
			x := uint64(i+1)*0x9e3779b97f4a7c15 + uint64(j+1)*0xbf58476d1ce4e5b9 + uint64(t)*0x94d049bb133111eb
			x ^= x >> 31
			x *= 0xd6e8feb86659fd93
			x ^= x >> 29
			return x % q
		})
	}
	for k := 0; k < n; k++ {
		if n > 32 && k%7 != 0 {
			continue
		}
		for _, v := range []string{"1", "-1", "h"} {
			k, v := k, v
			add(fmt.Sprintf("%s*x^%d", v, k), func(i, j int, q uint64) uint64 {
				if j != k {
					return 0
				}
				switch v {
				case "1":
					return 1
				case "-1":
					return q - 1
				}
				return (q - 1) / 2
			})
		}
	}
	return
}

func c19case(c *Case, P mkrlwe.Parameters, kg *mkrlwe.KeyGenerator, l int, tag string) {
	Reseed(fmt.Sprint(c.ID, l))
	rq := P.RingQ()
	ks := mkrlwe.NewKeySwitcher(P)
	sk := kg.GenSecretKey("k")
	swk := mkrlwe.NewSwitchingKey(P)
	kg.GenSwitchingKey(sk, swk)
	q := rq.Modulus
	alpha := P.Alpha()
	if alpha < 1 || P.Beta(l) != (l+alpha)/alpha {
		c.Failf("digit structure: alpha %d, beta(%d)=%d", alpha, l, P.Beta(l))
	}
	bq := prod(q[:l+1])
	// noise bound: beta*N*D*6sigma/P + rounding
	D := new(big.Int)
	for i := 0; i*alpha <= l; i++ {
		if d := prod(q[i*alpha : minInt((i+1)*alpha, l+1)]); d.Cmp(D) > 0 {
			D = d
		}
	}
	bound := new(big.Int).Mul(D, big.NewInt(int64(4*19*P.N()*P.Beta(l))))
	bound.Div(bound, P.RingP().ModulusBigint)
	bound.Add(bound, big.NewInt(int64(P.N()+4)))
	names, ps := polys(rq, l)
	hoist := mkrlwe.NewSwitchingKey(P)
	for i := range hoist.Value { // stale content must not matter
		ScribblePoly(hoist.Value[i].Q)
		ScribblePoly(hoist.Value[i].P)
	}
	levelP := P.PCount() - 1
	for pi, p := range ps {
		for _, ntt := range []bool{false, true} {
			c.Step(fmt.Sprintf("level %d poly %s ntt=%v", l, names[pi], ntt))
			a := rq.NewPolyLvl(l)
			ring.CopyValuesLvl(l, p, a)
			if ntt {
				rq.NTTLvl(l, a, a)
				a.IsNTT = true
			}
			f := Fp(a)
			fk := Fp(swk)
			out := rq.NewPolyLvl(l)
			ks.ExternalProduct(l, a, swk, out)
			c.Tr(1)
			if Fp(a) != f || Fp(swk) != fk {
				c.Failf("ExternalProduct changes an operand")
			}
			// reference a*s
			t := rq.NewPolyLvl(l)
			ring.CopyValuesLvl(l, p, t)
			rq.NTTLvl(l, t, t)
			rq.MulCoeffsMontgomeryLvl(l, t, sk.Value.Q, t)
			rq.InvNTTLvl(l, t, t)
			d := rq.NewPolyLvl(l)
			rq.SubLvl(l, out, t, d)
			e := Inf(CRT(q[:l+1], d.Coeffs))
			if e.Cmp(bound) > 0 {
				c.Failf("ExternalProduct differs from a*s by %v (bound %v)", e, bound)
			}
			if bound.Cmp(bq) >= 0 {
				c.Note("vacuous_bound", 1)
			}
			// hoisted: identical
			ks.Decompose(l, a, hoist)
			if Fp(a) != f {
				c.Failf("Decompose changes its operand")
			}
			out2 := rq.NewPolyLvl(l)
			ks.ExternalProductHoisted(l, hoist, swk, out2)
			c.Tr(1)
			for i := 0; i <= l; i++ {
				for j := range out.Coeffs[i] {
					if out.Coeffs[i][j]%q[i] != out2.Coeffs[i][j]%q[i] {
						c.Failf("hoisted external product differs from the direct one")
					}
				}
			}
			// digits recombine: digit i agrees with a on its own moduli, is a
			// single integer below the digit modulus on all others
			for i := 0; i < P.Beta(l); i++ {
				dq := rq.NewPolyLvl(l)
				dp := P.RingP().NewPoly()
				rq.InvNTTLvl(l, hoist.Value[i].Q, dq)
				P.RingP().InvNTTLvl(levelP, hoist.Value[i].P, dp)
				lo, hi := i*alpha, minInt((i+1)*alpha, l+1)
				rows := make([][]uint64, hi-lo)
				for j := lo; j < hi; j++ {
					rows[j-lo] = p.Coeffs[j]
				}
				M := prod(q[lo:hi])
				xs := CRT(q[lo:hi], rows)
				for k, x := range xs {
					x.Mod(x, M)
					ok := congruent(x, M, append(append([]uint64{}, q[:l+1]...), P.RingP().Modulus...), func(j int) uint64 {
						if j <= l {
							return dq.Coeffs[j][k]
						}
						return dp.Coeffs[j-l-1][k]
					})
					if !ok {
						c.Failf("digit %d coefficient %d is not the residue of the input", i, k)
					}
				}
			}
			c.State(fmt.Sprintf("%s|%d|%s|%v", tag, l, names[pi], ntt))
			c.Back()
			c.Trace()
		}
	}
	c.Outcome(fmt.Sprint(tag, l))
	c.Sample("%s level %d: %d polynomials, error within %v", tag, l, len(ps), bound)
}

func hasInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
