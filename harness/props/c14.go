package props

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// tiny NTT primes (1 mod 32) make whole residue rings enumerable
var tinyQ = []uint64{97, 257, 353, 193, 449, 577, 641}
var tinyP = []uint64{673, 769, 929, 1153, 1217, 1249}

func init() {
	reg(&Prop{ID: "C14",
		Rule:  "for every pair of levels of every basis shape over tiny NTT primes: ModUpQtoP, ModUpPtoQ on every integer of the source modulus (whole ring when below 2^21, otherwise the complete product of per-modulus boundary residues), ModDownQPtoQ, ModDownQPtoQNTT, ModDownQPtoP on the QP ring likewise, DecomposeAndSplit for every (number of moduli, number of special primes, gamma, level, digit); also with unreduced residues in [0,2q), on shallow copies and interleaved; the same on 40..61-bit primes over the complete boundary-residue product; oracle: exact big-integer arithmetic",
		Bound: "up to 7 moduli and 6 special primes (large primes: up to 18 and 16, digits of up to 8 moduli; and the longest chains the parameters accept, up to 34 and 34, digits of up to 34 moduli, over all vectors that differ from a constant vector in at most two positions), N=16; boundary residues {0,1,2,(q-1)/2,(q+1)/2,q-2,q-1} (2 to 7 of them per modulus so that the product stays below 2^17)",
		Fn: func(r *Run) {
			lim := 1 << 19
			if r.Thorough {
				lim = 1 << 23
			}
			for nq := 1; nq <= 4; nq++ {
				for np := 1; np <= 3; np++ {
					for lq := 0; lq < nq; lq++ {
						for lp := 0; lp < np; lp++ {
							nq, np, lq, lp := nq, np, lq, lp
							r.Case(fmt.Sprintf("tiny/%d/%d/%d/%d", nq, np, lq, lp), func(c *Case) {
								c14conv(c, tinyQ[:nq], tinyP[:np], lq, lp, lim)
							})
						}
					}
				}
			}
			// large primes, found by the library's own generator
			for i, sh := range [][2][]int{{{55, 40, 40}, {55, 55}}, {{60, 45}, {61, 60, 55}}, {{40, 30, 50, 55}, {45}}} {
				for lq := range sh[0] {
					for lp := range sh[1] {
						i, sh, lq, lp := i, sh, lq, lp
						r.Case(fmt.Sprintf("big/%d/%d/%d", i, lq, lp), func(c *Case) {
							q, p := genPrimes(sh[0], sh[1])
							c14conv(c, q, p, lq, lp, 1<<14)
						})
					}
				}
			}
			// many moduli on both sides
			many := func(b, n int) (l []int) {
				for ; n > 0; n-- {
					l = append(l, b)
				}
				return
			}
			for _, lq := range []int{0, 3, 8} {
				for _, lp := range []int{0, 4, 7} {
					lq, lp := lq, lp
					r.Case(fmt.Sprintf("many/%d/%d", lq, lp), func(c *Case) {
						q, p := genPrimes(many(40, 9), many(45, 8))
						c14conv(c, q, p, lq, lp, 1<<12)
					})
				}
			}
			for i, sh := range [][2]int{{12, 10}, {18, 16}, {9, 9}} {
				i, sh := i, sh
				r.Case(fmt.Sprintf("dec/many/%d", i), func(c *Case) {
					q, p := genPrimes(many(40, sh[0]), many(45, sh[1]))
					c14dec(c, q, p, 2, 1<<10)
				})
			}
			// the longest chains the parameters accept
			for i, sh := range [][4]int{{34, 60, 1, 60}, {2, 60, 34, 60}, {33, 45, 33, 55}, {32, 60, 32, 60}, {34, 60, 34, 60}} {
				i, sh := i, sh
				r.Case(fmt.Sprintf("longest/%d", i), func(c *Case) {
					q, p := genPrimes(many(sh[1], sh[0]), many(sh[3], sh[2]))
					c14conv(c, q, p, len(q)-1, len(p)-1, 1<<5)
					if sh[2] > 1 {
						c14dec(c, q, p, 2, 1<<5)
						c14dec(c, q, p, 1, 1<<5)
					}
				})
			}
			for nq := 1; nq <= 7; nq++ {
				for np := 1; np <= 6; np++ {
					for gamma := 1; gamma <= 3; gamma++ {
						if np/gamma == 0 {
							continue
						}
						nq, np, gamma := nq, np, gamma
						r.Case(fmt.Sprintf("dec/%d/%d/%d", nq, np, gamma), func(c *Case) { c14dec(c, tinyQ[:nq], tinyP[:np], gamma, lim) })
					}
				}
			}
			for i, sh := range [][2][]int{{{55, 40, 40, 40, 40}, {55, 55, 55, 55}}, {{60, 45, 50, 55, 30, 31, 32}, {61, 60, 55, 54, 53, 52}}, {{40, 40, 40, 40}, {45, 45}}} {
				i, sh := i, sh
				r.Case(fmt.Sprintf("dec/big/%d", i), func(c *Case) {
					q, p := genPrimes(sh[0], sh[1])
					c14dec(c, q, p, 2, 1<<14)
				})
			}
		}})
}

var primeCache = map[string][2][]uint64{}

func genPrimes(lq, lp []int) ([]uint64, []uint64) {
	k := fmt.Sprint(lq, lp)
	if v, ok := primeCache[k]; ok {
		return v[0], v[1]
	}
	used := map[uint64]bool{}
	gen := func(l []int) (o []uint64) {
		for _, b := range l {
			for _, p := range ring.GenerateNTTPrimes(b, 32, 80) {
				if !used[p] {
					used[p] = true
					o = append(o, p)
					break
				}
			}
		}
		return
	}
	v := [2][]uint64{gen(lq), gen(lp)}
	primeCache[k] = v
	return v[0], v[1]
}

func mustRing(m []uint64) *ring.Ring {
	r, err := ring.NewRing(16, m)
	if err != nil {
		panic(err)
	}
	return r
}

func prod(m []uint64) *big.Int {
	r := big.NewInt(1)
	for _, x := range m {
		r.Mul(r, new(big.Int).SetUint64(x))
	}
	return r
}

// enumMod calls f with every integer below prod(m) when that is at most lim,
// otherwise with every combination of boundary residues.
func enumMod(c *Case, m []uint64, lim int, f func(x *big.Int, res []uint64)) {
	Q := prod(m)
	res := make([]uint64, len(m))
	if Q.IsInt64() && Q.Int64() <= int64(lim) {
		n := Q.Int64()
		x := new(big.Int)
		for i := int64(0); i < n; i++ {
			for j, q := range m {
				res[j] = uint64(i) % q
			}
			f(x.SetInt64(i), res)
		}
		c.Note("complete_rings", 1)
		return
	}
	// as many boundary values as fit
	all := func(q uint64) []uint64 {
		return []uint64{0, 1, q - 1, (q - 1) / 2, (q + 1) / 2, q - 2, 2}
	}
	if len(m) > 17 || lim < 64 && len(m) > 6 {
		enumPairs(m, Q, f)
		return
	}
	k := 7
	for {
		t := 1
		for range m {
			t *= k
			if t > lim {
				break
			}
		}
		if t <= lim || k <= 3 && len(m) <= 10 || k <= 2 {
			break
		}
		k--
	}
	g := make([]*big.Int, len(m))
	for i, q := range m {
		bq := new(big.Int).SetUint64(q)
		st := new(big.Int).Div(Q, bq)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(st, bq), bq)
		g[i] = st.Mul(st, inv)
	}
	var rec func(i int, acc *big.Int)
	rec = func(i int, acc *big.Int) {
		if i == len(m) {
			x := new(big.Int).Mod(acc, Q)
			f(x, res)
			return
		}
		for _, v := range all(m[i])[:k] {
			res[i] = v
			t := new(big.Int).Mul(g[i], new(big.Int).SetUint64(v))
			rec(i+1, t.Add(t, acc))
		}
	}
	rec(0, new(big.Int))
	// and small / wrapping integers, multiples of each partial product +-1
	seen := map[string]bool{}
	add := func(x *big.Int) {
		x.Mod(x, Q)
		if seen[x.String()] {
			return
		}
		seen[x.String()] = true
		for j, q := range m {
			res[j] = new(big.Int).Mod(x, new(big.Int).SetUint64(q)).Uint64()
		}
		f(new(big.Int).Set(x), res)
	}
	for i := 0; i <= len(m); i++ {
		pp := prod(m[:i])
		for k := int64(-3); k <= 3; k++ {
			for d := int64(-2); d <= 2; d++ {
				t := new(big.Int).Mul(pp, big.NewInt(k))
				add(t.Add(t, big.NewInt(d)))
				h := new(big.Int).Mul(pp, big.NewInt(k))
				h.Rsh(h, 1)
				add(h.Add(h, big.NewInt(d)))
			}
		}
	}
}

// enumPairs enumerates, for long chains, every residue vector that differs from
// one of three constant vectors (all zero, all q-1, all (q-1)/2) in at most two
// positions, with the boundary values {0, 1, (q+1)/2, q-1} there.
func enumPairs(m []uint64, Q *big.Int, f func(x *big.Int, res []uint64)) {
	g := make([]*big.Int, len(m))
	for i, q := range m {
		bq := new(big.Int).SetUint64(q)
		st := new(big.Int).Div(Q, bq)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(st, bq), bq)
		g[i] = st.Mul(st, inv)
	}
	vals := func(q uint64) []uint64 { return []uint64{0, 1, (q + 1) / 2, q - 1} }
	res := make([]uint64, len(m))
	for _, base := range []func(q uint64) uint64{
		func(q uint64) uint64 { return 0 },
		func(q uint64) uint64 { return q - 1 },
		func(q uint64) uint64 { return (q - 1) / 2 }} {
		X := new(big.Int)
		for i, q := range m {
			res[i] = base(q)
			X.Add(X, new(big.Int).Mul(g[i], new(big.Int).SetUint64(res[i])))
		}
		X.Mod(X, Q)
		f(new(big.Int).Set(X), res)
		dev := func(x *big.Int, i int, v uint64) *big.Int {
			t := new(big.Int).SetUint64(v)
			t.Sub(t, new(big.Int).SetUint64(base(m[i])))
			t.Mul(t, g[i])
			t.Add(t, x)
			return t.Mod(t, Q)
		}
		for i := range m {
			for _, v := range vals(m[i]) {
				if v == base(m[i]) {
					continue
				}
				y := dev(X, i, v)
				res[i] = v
				f(new(big.Int).Set(y), res)
				for j := i + 1; j < len(m); j++ {
					for _, w := range vals(m[j]) {
						if w == base(m[j]) {
							continue
						}
						res[j] = w
						f(dev(y, j, w), res)
					}
					res[j] = base(m[j])
				}
			}
			res[i] = base(m[i])
		}
	}
}

// batch collects 16 coefficients at a time and runs body on the full batch.
type batch struct {
	rows [][]uint64
	xs   []*big.Int
	body func(rows [][]uint64, xs []*big.Int)
}

func newBatch(n int, body func(rows [][]uint64, xs []*big.Int)) *batch {
	b := &batch{body: body, rows: make([][]uint64, n)}
	for i := range b.rows {
		b.rows[i] = make([]uint64, 16)
	}
	return b
}

func (b *batch) put(x *big.Int, res []uint64) {
	k := len(b.xs)
	for i := range b.rows {
		b.rows[i][k] = res[i]
	}
	b.xs = append(b.xs, new(big.Int).Set(x))
	if len(b.xs) == 16 {
		b.body(b.rows, b.xs)
		b.xs = b.xs[:0]
	}
}

func (b *batch) flush() {
	if len(b.xs) > 0 {
		for k := len(b.xs); k < 16; k++ {
			for i := range b.rows {
				b.rows[i][k] = b.rows[i][0]
			}
			b.xs = append(b.xs, b.xs[0])
		}
		b.body(b.rows, b.xs)
		b.xs = b.xs[:0]
	}
}

// fill puts rows into a polynomial of the ring; lift adds q to every second
// residue (lazy representatives).
func fill(r *ring.Ring, p *ring.Poly, rows [][]uint64, lift bool) {
	for i := range rows {
		copy(p.Coeffs[i], rows[i])
		if lift {
			for j := i & 1; j < 16; j += 2 {
				p.Coeffs[i][j] += r.Modulus[i]
			}
		}
	}
}

// conv decides whether row values y[j] are congruent to x + k*M for one k in
// {-1,0,1}; k != 0 is accepted only when x is within M*2^-40 of 0 or M (the
// floating point estimate of the quotient is inherently ambiguous there).
func congruent(x, M *big.Int, mods []uint64, col func(j int) uint64) bool {
	try := func(k int64) bool {
		t := new(big.Int).Mul(M, big.NewInt(k))
		t.Add(t, x)
		m := new(big.Int)
		for j, p := range mods {
			b := new(big.Int).SetUint64(p)
			if m.Mod(t, b).Uint64() != col(j)%p {
				return false
			}
		}
		return true
	}
	if x.IsInt64() && M.IsInt64() {
		xi := x.Int64()
		good := true
		for j, p := range mods {
			if uint64(xi)%p != col(j)%p {
				good = false
				break
			}
		}
		if good {
			return true
		}
	} else if try(0) {
		return true
	}
	w := new(big.Int).Rsh(M, 40)
	d := new(big.Int).Sub(M, x)
	if x.Cmp(w) < 0 {
		return try(1)
	}
	if d.Cmp(w) < 0 {
		return try(-1)
	}
	return false
}

func c14conv(c *Case, Q, P []uint64, lq, lp int, lim int) {
	rq, rp := mustRing(Q), mustRing(P)
	be := mkrlwe.NewFastBasisExtender(rq, rp)
	sh := be.ShallowCopy()
	dirty := func() { // use the copies in between
		a, b := rq.NewPoly(), rp.NewPoly()
		fill(rq, a, [][]uint64{{5, 4, 3, 2, 1, 0, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}}, false)
		be.ModUpQtoP(len(Q)-1, len(P)-1, a, b)
		be.ModDownQPtoQ(len(Q)-1, len(P)-1, a, b, rq.NewPoly())
		be.ModDownQPtoP(len(Q)-1, len(P)-1, a, b, rp.NewPoly())
	}
	MQ, MP := prod(Q[:lq+1]), prod(P[:lp+1])
	cnt := 0
	up := func(name string, src, dst *ring.Ring, sm, dm []uint64, M *big.Int, f func(a, b *ring.Poly)) {
		for _, lift := range []bool{false, true} {
			c.Step(fmt.Sprintf("%s levels %d->%d lift=%v", name, len(sm)-1, len(dm)-1, lift))
			a, b := src.NewPoly(), dst.NewPoly()
			bt := newBatch(len(sm), func(rows [][]uint64, xs []*big.Int) {
				fill(src, a, rows, lift)
				before := Fp(a)
				f(a, b)
				c.Tr(1)
				cnt += 16
				if Fp(a) != before {
					c.Failf("%s changes its source", name)
				}
				for k, x := range xs {
					if !congruent(x, M, dm, func(j int) uint64 { return b.Coeffs[j][k] }) {
						c.Failf("%s: %v modulo %v extends to residues %v", name, x, M, col(b, len(dm), k))
					}
				}
			})
			enumMod(c, sm, lim, bt.put)
			bt.flush()
			c.Back()
			c.Trace()
		}
		c.State(fmt.Sprint(name, sm, dm))
	}
	up("ModUpQtoP", rq, rp, Q[:lq+1], P[:lp+1], MQ, func(a, b *ring.Poly) { sh.ModUpQtoP(lq, lp, a, b) })
	up("ModUpPtoQ", rp, rq, P[:lp+1], Q[:lq+1], MP, func(a, b *ring.Poly) { be.ModUpPtoQ(lp, lq, a, b) })

	// division: |P*z - x| < P modulo Q
	both := append(append([]uint64{}, Q[:lq+1]...), P[:lp+1]...)
	down := func(name string, D *big.Int, om []uint64, run func(rows [][]uint64, lift bool) *ring.Poly) {
		M := prod(om)
		for _, lift := range []bool{false, true} {
			c.Step(fmt.Sprintf("%s levels %d,%d lift=%v", name, lq, lp, lift))
			bt := newBatch(len(both), func(rows [][]uint64, xs []*big.Int) {
				z := run(rows, lift)
				c.Tr(1)
				cnt += 16
				zs := CRT(om, rows16(z, om))
				for k, x := range xs {
					// z = floor(x/D) or ceil(x/D) modulo M
					fl := new(big.Int).Div(x, D)
					d := new(big.Int).Sub(zs[k], fl)
					d.Mod(d, M)
					rem := new(big.Int).Mod(x, D)
					ok := d.Sign() == 0 || (rem.Sign() != 0 && d.Cmp(big.NewInt(1)) == 0)
					if !ok { // the ambiguous neighbourhood of the quotient estimate
						w := new(big.Int).Rsh(D, 40)
						if rem.Cmp(w) < 0 || new(big.Int).Sub(D, rem).Cmp(w) < 0 {
							dm := new(big.Int).Sub(M, d)
							ok = d.Cmp(big.NewInt(1)) <= 0 || dm.Cmp(big.NewInt(1)) <= 0
						}
					}
					if !ok {
						c.Failf("%s: %v / %v gives %v modulo %v, floor is %v", name, x, D, zs[k], M, fl)
					}
				}
			})
			enumMod(c, both, lim, bt.put)
			bt.flush()
			dirty()
			c.Back()
			c.Trace()
		}
		c.State(fmt.Sprint(name, both))
	}
	a, b, z := rq.NewPoly(), rp.NewPoly(), rq.NewPoly()
	zp := rp.NewPoly()
	down("ModDownQPtoQ", MP, Q[:lq+1], func(rows [][]uint64, lift bool) *ring.Poly {
		fill(rq, a, rows[:lq+1], lift)
		fill(rp, b, rows[lq+1:], lift)
		be.ModDownQPtoQ(lq, lp, a, b, z)
		return z
	})
	down("ModDownQPtoQNTT", MP, Q[:lq+1], func(rows [][]uint64, lift bool) *ring.Poly {
		fill(rq, a, rows[:lq+1], false)
		fill(rp, b, rows[lq+1:], false)
		rq.NTTLvl(lq, a, a)
		rp.NTTLvl(lp, b, b)
		if lift {
			fill(rq, a, a.Coeffs[:lq+1], true)
		}
		sh.ModDownQPtoQNTT(lq, lp, a, b, z)
		rq.InvNTTLvl(lq, z, z)
		return z
	})
	down("ModDownQPtoP", MQ, P[:lp+1], func(rows [][]uint64, lift bool) *ring.Poly {
		fill(rq, a, rows[:lq+1], lift)
		fill(rp, b, rows[lq+1:], lift)
		sh.ModDownQPtoP(lq, lp, a, b, zp)
		return zp
	})
	c.Note("coefficients", int64(cnt))
	c.Outcome(fmt.Sprint(both))
	c.Sample("Q=%v P=%v: %d conversions exact", Q[:lq+1], P[:lp+1], cnt)
}

func rows16(p *ring.Poly, m []uint64) [][]uint64 {
	o := make([][]uint64, len(m))
	for i := range m {
		o[i] = make([]uint64, 16)
		for j := range o[i] {
			o[i][j] = p.Coeffs[i][j] % m[i]
		}
	}
	return o
}

func col(p *ring.Poly, n, k int) (r []uint64) {
	for i := 0; i < n; i++ {
		r = append(r, p.Coeffs[i][k])
	}
	return
}

func c14dec(c *Case, Q, P []uint64, gamma int, lim int) {
	rq, rp := mustRing(Q), mustRing(P)
	alpha := len(P) / gamma
	dec := mkrlwe.NewDecomposer(rq, rp, gamma)
	lp := len(P) - 1
	cnt := 0
	for lq := 0; lq < len(Q); lq++ {
		for i := 0; i*alpha <= lq; i++ {
			lo, hi := i*alpha, minInt((i+1)*alpha, lq+1)
			c.Step(fmt.Sprintf("decompose level %d digit %d (moduli %d..%d)", lq, i, lo, hi-1))
			dm := Q[lo:hi]
			D := prod(dm)
			p0, p1, pP := rq.NewPoly(), rq.NewPoly(), rp.NewPoly()
			bt := newBatch(len(dm), func(rows [][]uint64, xs []*big.Int) {
				for j := range p0.Coeffs {
					for k := range p0.Coeffs[j] {
						// the other digits must not matter
						p0.Coeffs[j][k] = uint64(j*31+k*7+3) % Q[j]
					}
				}
				for j := range rows {
					copy(p0.Coeffs[lo+j], rows[j])
				}
				before := Fp(p0)
				dec.DecomposeAndSplit(lq, lp, alpha, i, gamma, p0, p1, pP)
				c.Tr(1)
				cnt += 16
				if Fp(p0) != before {
					c.Failf("DecomposeAndSplit changes its source")
				}
				for k, x := range xs {
					ok := congruent(x, D, append(append([]uint64{}, Q[:lq+1]...), P...), func(j int) uint64 {
						if j <= lq {
							return p1.Coeffs[j][k]
						}
						return pP.Coeffs[j-lq-1][k]
					})
					if !ok {
						c.Failf("digit value %v modulo %v becomes %v over Q and %v over P", x, D, col(p1, lq+1, k), col(pP, lp+1, k))
					}
				}
			})
			enumMod(c, dm, lim/8, bt.put)
			bt.flush()
			c.Back()
			c.Trace()
			c.State(fmt.Sprint("dec", Q[:lq+1], P, gamma, i))
		}
	}
	c.Note("coefficients", int64(cnt))
	c.Outcome(fmt.Sprint("dec", len(Q), len(P), gamma))
	c.Sample("Q=%v P=%v gamma=%d: %d digits exact", Q, P, gamma, cnt)
}
