package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C20",
		Rule:  "every vector over a seven-value alphabet (with near-equal large values) up to length 5, and long vectors of every length, for StandardDeviation against the definition; the three bit-reversal permutations on every power of two up to 2^16 (identity-tagged slices: permutation, involution, agreement with the bit-reversed index, nothing beyond N touched); GenSwitchkeysRescalingParams for every basis shape over tiny and large primes and every ordered choice of up to four special primes out of seven of 7 to 61 bits against big-integer inverses; parameter accessors and message shapes on every parameter set",
		Bound: "length 5, and every length up to 2200 and around the powers of two up to 2^17 with values of six magnitudes / 2^16 / 7x6 moduli, parameters up to ring degree 2^15; thorough: length 6",
		Fn: func(r *Run) {
			r.Case("std/long", func(c *Case) { c20stdlong(c, r.Thorough) })
			r.Case("std", func(c *Case) { c20std(c, r.Thorough) })
			for k := 0; k <= 16; k++ {
				k := k
				r.Case(fmt.Sprintf("rev/%d", k), func(c *Case) { c20rev(c, 1<<k) })
			}
			r.Case("swk", c20swk)
			for _, cn := range append(append([]string{}, smallCfgs...), "n6a1", "n7a2", "n12", "n13s", "n15") {
				cn := cn
				r.Case("par/"+cn, func(c *Case) { c20par(c, cn) })
			}
		}})
}

func c20std(c *Case, thorough bool) {
	al := []float64{0, 1, -2.5, 1e6, 3, 1e8, 1e8 + 1}
	depth := 5
	if thorough {
		depth = 6
	}
	var rec func(v []float64)
	rec = func(v []float64) {
		if len(v) > 0 {
			for _, sc := range []float64{1, 0.5, 1024} {
				in := append([]float64(nil), v...)
				got := mkckks.StandardDeviation(in, sc)
				c.Tr(1)
				m := 0.0
				for _, x := range v {
					m += x
				}
				m /= float64(len(v))
				s := 0.0
				for _, x := range v {
					s += (x - m) * (x - m)
				}
				want := math.Sqrt(s/float64(len(v))) * sc
				tol := 1e-9
				if len(v) > 0 && m > 1e7 {
					tol = 1e-6 // any numerically stable order of evaluation
				}
				if !(math.Abs(got-want) <= tol*(1+want)) {
					c.Failf("StandardDeviation(%v,%g)=%g, want %g", v, sc, got, want)
				}
				for i := range v {
					if in[i] != v[i] {
						c.Failf("StandardDeviation changes its input")
					}
				}
			}
			c.State(fmt.Sprint("std", v))
			c.Trace()
		}
		if len(v) == depth {
			return
		}
		for _, x := range al {
			rec(append(append([]float64(nil), v...), x))
		}
	}
	rec(nil)
}

func c20rev(c *Case, n int) {
	logn := 0
	for 1<<logn < n {
		logn++
	}
	rev := func(i int) int {
		r := 0
		for k := 0; k < logn; k++ {
			r = r<<1 | (i>>k)&1
		}
		return r
	}
	for _, ext := range []int{n, n + 5, 2 * n} {
		c20revExt(c, n, ext, rev)
	}
	c.State(fmt.Sprint("rev", n))
	c.Trace()
}

func c20revExt(c *Case, n, ext int, rev func(int) int) {
	f := make([]float64, ext)
	z := make([]complex128, ext)
	g := make([]*ring.Complex, ext)
	for i := range f {
		f[i] = float64(i)
		z[i] = complex(float64(i), -float64(i))
		g[i] = ring.NewComplex(big.NewFloat(float64(i)), big.NewFloat(0))
	}
	g0 := append([]*ring.Complex(nil), g...)
	for pass := 0; pass < 2; pass++ {
		mkckks.SliceBitReverseInPlaceFloat64(f, n)
		mkckks.SliceBitReverseInPlaceComplex128(z, n)
		mkckks.SliceBitReverseInPlaceRingComplex(g, n)
		c.Tr(3)
		for i := 0; i < ext; i++ {
			w := i
			if i < n && pass == 0 {
				w = rev(i)
			}
			if f[i] != float64(w) || z[i] != complex(float64(w), -float64(w)) || g[i] != g0[w] {
				c.Failf("bit reversal of size %d pass %d: index %d holds %g, %v; want %d", n, pass, i, f[i], z[i], w)
			}
		}
	}
}

// c20stdlong: every length, values of several magnitudes, several scales.
func c20stdlong(c *Case, thorough bool) {
	var ls []int
	for n := 1; n <= 2200; n++ {
		ls = append(ls, n)
	}
	for k := 12; k <= 17; k++ {
		ls = append(ls, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, n := range ls {
		for _, mag := range []float64{1, 1e-120, 1e120, 1e-9, 1e9, -3} {
			v := make([]float64, n)
			m := new(big.Float).SetPrec(200)
			for i := range v {
				// an offset of a quarter, all values different
				v[i] = mag * (0.25 + math.Sin(float64(i*i%8191+i)))
				m.Add(m, new(big.Float).SetFloat64(v[i]))
			}
			m.Quo(m, new(big.Float).SetInt64(int64(n)))
			s := new(big.Float).SetPrec(200)
			for _, x := range v {
				d := new(big.Float).SetPrec(200).Sub(new(big.Float).SetFloat64(x), m)
				s.Add(s, d.Mul(d, d))
			}
			s.Quo(s, new(big.Float).SetInt64(int64(n)))
			s.Sqrt(s)
			want, _ := s.Float64()
			in := append([]float64(nil), v...)
			for _, sc := range []float64{1, 1 << 40, 0} {
				got := mkckks.StandardDeviation(in, sc)
				c.Tr(1)
				if !(math.Abs(got-want*sc) <= 1e-9*math.Abs(mag)*sc) {
					c.Failf("StandardDeviation of %d values of magnitude %g, scale %g: %g, want %g", n, mag, sc, got, want*sc)
				}
			}
			for i := range v {
				if in[i] != v[i] {
					c.Failf("StandardDeviation changes its input")
				}
			}
		}
		c.State(fmt.Sprint("stdlong", n))
	}
	c.Trace()
}

func c20swk(c *Case) {
	try := func(Q, P []uint64) {
		got := mkckks.GenSwitchkeysRescalingParams(Q, P)
		c.Tr(1)
		if len(got) != len(Q) {
			c.Failf("%d parameters for %d moduli", len(got), len(Q))
		}
		for i, q := range Q {
			bq := new(big.Int).SetUint64(q)
			w := new(big.Int).ModInverse(new(big.Int).Mod(prod(P), bq), bq)
			w.Lsh(w, 64).Mod(w, bq)
			if w.Uint64() != got[i] {
				c.Failf("P^-1 modulo %d in Montgomery form: %d, want %v (P=%v)", q, got[i], w, P)
			}
		}
		c.State(fmt.Sprint("swk", len(Q), len(P), Q[0]))
		c.Trace()
	}
	for nq := 1; nq <= len(tinyQ); nq++ {
		for np := 0; np <= len(tinyP); np++ {
			try(tinyQ[:nq], tinyP[:np])
		}
	}
	q, p := genPrimes([]int{60, 45, 50, 55, 30, 31, 32}, []int{61, 60, 55, 54, 53, 52})
	for nq := 1; nq <= len(q); nq++ {
		for np := 0; np <= len(p); np++ {
			try(q[:nq], p[:np])
		}
	}
	// every ordered choice of up to four special primes of mixed widths
	q3, mix := genPrimes([]int{60, 45, 50}, []int{30, 60, 33, 50, 61, 31})
	mix = append(mix, 97)
	var rec func(sel []uint64)
	rec = func(sel []uint64) {
		if len(sel) > 0 {
			try(q3, sel)
		}
		if len(sel) == 4 {
			return
		}
	next:
		for _, m := range mix {
			for _, o := range sel {
				if o == m {
					continue next
				}
			}
			rec(append(append([]uint64(nil), sel...), m))
		}
	}
	rec(nil)
}

func c20par(c *Case, cn string) {
	cfg := GetCfg(cn)
	ck := cfg.CkksParams()
	P := mkckks.NewParameters(ck)
	c.Tr(1)
	if P.Slots() != cfg.Slots() || P.LogSlots() != cfg.LogSlots || P.Scale() != cfg.Scale || P.N() != cfg.N() ||
		P.QCount() != len(cfg.LogQ) || P.PCount() != len(cfg.LogP) || P.Gamma() != 2 {
		c.Failf("parameters of %s are not those asked for", cn)
	}
	if P.Alpha() != len(cfg.LogP)/2 {
		c.Failf("digit size %d with %d special primes", P.Alpha(), len(cfg.LogP))
	}
	for l := 0; l < len(cfg.LogQ); l++ {
		if w := (l + P.Alpha()) / P.Alpha(); P.Beta(l) != w {
			c.Failf("beta(%d)=%d, want %d", l, P.Beta(l), w)
		}
	}
	m := mkckks.NewMessage(P)
	if m.Slots() != cfg.Slots() || len(m.Value) != cfg.Slots() {
		c.Failf("a message has %d slots, want %d", m.Slots(), cfg.Slots())
	}
	for i, x := range m.Value {
		if x != 0 {
			c.Failf("new message slot %d is %v", i, x)
		}
	}
	for l := 0; l < len(cfg.LogQ); l++ {
		for _, sub := range Subsets([]string{"a", "user1", ""}, 0) {
			ct := mkckks.NewCiphertext(P, IDSet(sub), l, 7)
			if ct.Level() != l || ct.Scale != 7 || !SameIDs(ct.IDSet(), SetOf(sub)) || len(ct.Value) != len(sub)+1 {
				c.Failf("NewCiphertext(%q, level %d): level %d, scale %g, ids %v", sub, l, ct.Level(), ct.Scale, ct.IDSet().Value)
			}
			for _, p := range ct.Value {
				for _, row := range p.Coeffs {
					for _, y := range row {
						if y != 0 {
							c.Failf("NewCiphertext is not zero")
						}
					}
				}
			}
			// padding adds exactly the missing parties
			for _, more := range Subsets([]string{"a", "z"}, 0) {
				t := deepCt(ct)
				ScribbleCt(t)
				f := deepCt(t)
				t.PadCiphertext(IDSet(more))
				want := SetOf(append(append([]string{}, sub...), more...))
				if !SameIDs(t.IDSet(), want) || t.Level() != l {
					c.Failf("PadCiphertext(%q) of %q has %v", more, sub, t.IDSet().Value)
				}
				for id, p := range t.Value {
					if o, in := f.Value[id]; in {
						if !PolyEq(P.RingQ(), p, o) {
							c.Failf("PadCiphertext changes component %q", id)
						}
					} else if Inf(CRT(P.RingQ().Modulus[:l+1], p.Coeffs)).Sign() != 0 || len(p.Coeffs) != l+1 {
						c.Failf("PadCiphertext: new component %q is not zero at the level of the ciphertext", id)
					}
				}
				c.Tr(1)
			}
			ct.SetScalingFactor(11)
			if ct.ScalingFactor() != 11 || ct.Scale != 11 {
				c.Failf("SetScalingFactor")
			}
		}
	}
	c.State("par" + cn)
	c.Trace()
}
