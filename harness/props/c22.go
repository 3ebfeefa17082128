package props

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// C22: the generic ring layer below CKKS, for every digit layout. Ciphertexts
// are arbitrary tuples of ring elements (not only encryptions); what an operation
// does to them is decided on exact phases.

var c22widths = []struct {
	name string
	q, p []int
}{
	{"even", []int{50, 45, 45, 45, 45, 45}, []int{50, 50, 50, 50, 50, 50, 50, 50}},
	{"mixed", []int{60, 30, 55, 40, 60, 35}, []int{60, 61, 60, 61, 60, 61, 60, 61}},
}

func init() {
	reg(&Prop{ID: "C22",
		Rule:  "for every digit layout (number of ordinary moduli x special moduli x gadget factor gamma x widths), every level and participant shape, over ciphertexts whose components are arbitrary ring elements of a boundary alphabet: the phase of a generic product (plain, with either, both or no precomputed decomposition, squares by aliasing, operands above the output level, used outputs) is the ring product of the phases, of a generic rotation (plain, hoisted, every key index) and conjugation the automorphic image of the phase, within the gadget noise bound; generic encryption puts the message into the phase and nothing else, and all orders of partial decryption and joint decryption give the phase exactly",
		Bound: "1..6 ordinary and 1..8 special moduli, gamma 1..4, two width patterns, N=16; up to three participants; thorough: also N=32 and all pairs of the alphabet",
		Fn: func(r *Run) {
			for wi := range c22widths {
				for nq := 1; nq <= 6; nq++ {
					for np := 1; np <= 8; np++ {
						for g := 1; g <= 4; g++ {
							if np/g == 0 {
								continue
							}
							for _, logN := range []int{4, 5} {
								if logN > 4 && !r.Thorough {
									continue
								}
								wi, nq, np, g, logN := wi, nq, np, g, logN
								r.Case(fmt.Sprintf("%s/%d/%d/%d/%d", c22widths[wi].name, nq, np, g, logN), func(c *Case) {
									newGen(c, wi, nq, np, g, logN).run(r.Thorough)
								})
							}
						}
					}
				}
			}
		}})
}

type gen struct {
	c    *Case
	P    mkrlwe.Parameters
	ks   *mkrlwe.KeySwitcher
	sk   map[string]*mkrlwe.SecretKey
	pk   map[string]*mkrlwe.PublicKey
	rlk  *mkrlwe.RelinearizationKeySet
	rtk  *mkrlwe.RotationKeySet
	cjk  *mkrlwe.ConjugationKeySet
	rots []int
	rq   *ring.Ring
}

func newGen(c *Case, wi, nq, np, g, logN int) *gen {
	w := c22widths[wi]
	pp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, LogQ: w.q[:nq], LogP: w.p[:np], Sigma: 3.2})
	if err != nil {
		panic(err)
	}
	Reseed(c.ID)
	x := &gen{c: c, P: mkrlwe.NewParameters(pp, g), sk: map[string]*mkrlwe.SecretKey{}, pk: map[string]*mkrlwe.PublicKey{}}
	if x.P.Gamma() != g || x.P.Alpha() != np/g {
		c.Failf("gamma %d and %d special moduli: gamma %d, digits of %d moduli reported", g, np, x.P.Gamma(), x.P.Alpha())
	}
	for l := 0; l < nq; l++ {
		if x.P.Beta(l) != (l+np/g)/(np/g) {
			c.Failf("%d digits at level %d with %d moduli per digit", x.P.Beta(l), l, np/g)
		}
	}
	x.P.AddCRS(3)
	x.rq = x.P.RingQ()
	kg := mkrlwe.NewKeyGenerator(x.P)
	x.ks = mkrlwe.NewKeySwitcher(x.P)
	x.rlk = mkrlwe.NewRelinearizationKeyKeySet(x.P)
	x.rtk = mkrlwe.NewRotationKeySet()
	x.cjk = mkrlwe.NewConjugationKeySet()
	x.rots = []int{3}
	for k := 1; k < x.P.N()/2; k *= 2 {
		x.rots = append(x.rots, k)
	}
	for _, id := range []string{"a", "user1", ""} {
		s, p := kg.GenKeyPair(id)
		x.sk[id], x.pk[id] = s, p
		x.rlk.AddRelinearizationKey(kg.GenRelinearizationKey(s, kg.GenSecretKey(id)))
		for _, k := range x.rots {
			x.rtk.AddRotationKey(kg.GenRotationKey(k, s))
		}
		x.cjk.AddConjugationKey(kg.GenConjugationKey(s))
	}
	return x
}

// elem is one ring element of the alphabet.
func (x *gen) elem(l, kind, salt int) *ring.Poly {
	p := x.rq.NewPolyLvl(l)
	for i := range p.Coeffs {
		q := x.rq.Modulus[i]
		for j := range p.Coeffs[i] {
			h := uint64(i+1)*0x9e3779b97f4a7c15 + uint64(j+1)*0xbf58476d1ce4e5b9 + uint64(salt+1)*0x94d049bb133111eb
			h ^= h >> 31
			h *= 0xd6e8feb86659fd93
			h ^= h >> 29
			switch kind {
			case 0:
				p.Coeffs[i][j] = h % q
			case 1:
				p.Coeffs[i][j] = q - 1
			case 2:
				p.Coeffs[i][j] = q/2 + uint64(j&1)
			case 3: // a monomial
				if j == (salt*5+3)%x.rq.N {
					p.Coeffs[i][j] = (q - 1) / 2
				}
			case 4: // zero, and rows at the ends of the range in turn
				p.Coeffs[i][j] = [3]uint64{0, q - 1, q / 2}[(i*7+j*11+salt)%3]
			}
		}
	}
	return p
}

const c22kinds = 5

func (x *gen) ct(ids []string, l, kind, salt int) *mkrlwe.Ciphertext {
	ct := mkrlwe.NewCiphertext(x.P, IDSet(ids), l)
	ct.Value["0"] = x.elem(l, kind, salt)
	for i, id := range ids {
		ct.Value[id] = x.elem(l, (kind+i*(salt%2))%c22kinds, salt+i+1)
	}
	return ct
}

// out is an output that held something else.
func (x *gen) out(ids []string, l int) *mkrlwe.Ciphertext {
	ct := x.ct(ids, l, 0, 77)
	return ct
}

// phase in the transform domain, at the level l.
func (x *gen) phase(ct *mkrlwe.Ciphertext, l int) *ring.Poly {
	acc := x.rq.NewPolyLvl(l)
	for id, p := range ct.Value {
		t := x.rq.NewPolyLvl(l)
		x.rq.ReduceLvl(l, p, t)
		x.rq.NTTLvl(l, t, t)
		if id != "0" {
			x.rq.MulCoeffsMontgomeryLvl(l, t, x.sk[id].Value.Q, t)
		}
		x.rq.AddLvl(l, acc, t, acc)
	}
	return acc
}

// near compares two phases (transform domain) up to the bound.
func (x *gen) near(what string, got, want *ring.Poly, l int, bound *big.Int) {
	x.c.Tr(1)
	d := x.rq.NewPolyLvl(l)
	x.rq.SubLvl(l, got, want, d)
	x.rq.InvNTTLvl(l, d, d)
	q := prod(x.rq.Modulus[:l+1])
	if new(big.Int).Mul(bound, big.NewInt(4)).Cmp(q) >= 0 {
		x.c.Note("nothing_promised", 1)
		return
	}
	e := Inf(CRT(x.rq.Modulus[:l+1], d.Coeffs))
	if e.Cmp(bound) > 0 {
		x.c.Failf("%s: the phase is off by %v (bound %v, modulus of %d bits)", what, e, bound, q.BitLen())
	}
	if bound.Sign() > 0 {
		m := new(big.Int).Mul(e, big.NewInt(1000))
		x.c.NoteMax("max:err_permille_of_bound", m.Div(m, bound).Int64())
	}
}

// sizes: the largest digit modulus, the number of digits.
func (x *gen) digit(l int) *big.Int {
	D := big.NewInt(1)
	a := x.P.Alpha()
	for i := 0; i*a <= l; i++ {
		hi := minInt((i+1)*a, x.P.QCount())
		if d := prod(x.rq.Modulus[i*a : hi]); d.Cmp(D) > 0 {
			D = d
		}
	}
	return D
}

func (x *gen) kswNoise(l, k int) *big.Int {
	N, beta, R := int64(x.P.N()), int64(x.P.Beta(l)), int64(x.P.PCount()+4)
	b := new(big.Int).Mul(x.digit(l), big.NewInt(beta*N*20))
	b.Div(b, x.P.RingP().ModulusBigint)
	b.Add(b, big.NewInt(R*(N+1)+1))
	return b.Mul(b, big.NewInt(2*int64(k)))
}

func (x *gen) mulNoise(l, ka, kb int) *big.Int {
	N, beta, R := int64(x.P.N()), int64(x.P.Beta(l)), int64(x.P.PCount()+4)
	b := new(big.Int).Mul(x.digit(l), x.digit(l))
	b.Mul(b, big.NewInt(beta*N*N*N*20*2*int64(ka*kb)))
	b.Div(b, x.P.RingP().ModulusBigint)
	b.Add(b, big.NewInt(R*N*int64(ka+kb)+1))
	b.Add(b, x.kswNoise(l, ka))
	return b.Mul(b, big.NewInt(2))
}

func (x *gen) prodPhase(a, b *ring.Poly, l int) *ring.Poly {
	t := x.rq.NewPolyLvl(l)
	x.rq.MFormLvl(l, a, t)
	x.rq.MulCoeffsMontgomeryLvl(l, t, b, t)
	return t
}

// auto applies X -> X^g to a transform-domain polynomial, by definition.
func (x *gen) auto(p *ring.Poly, g uint64, l int) *ring.Poly {
	t := x.rq.NewPolyLvl(l)
	x.rq.InvNTTLvl(l, p, t)
	o := x.rq.NewPolyLvl(l)
	n := uint64(x.rq.N)
	for i := 0; i <= l; i++ {
		q := x.rq.Modulus[i]
		for j := uint64(0); j < n; j++ {
			k := j * g % (2 * n)
			y := t.Coeffs[i][j] % q
			if k >= n {
				k, y = k-n, (q-y)%q
			}
			o.Coeffs[i][k] = y
		}
	}
	x.rq.NTTLvl(l, o, o)
	return o
}

func (x *gen) hoist(ct *mkrlwe.Ciphertext) *mkrlwe.HoistedCiphertext {
	h := mkrlwe.NewHoistedCiphertext()
	for id, p := range ct.Value {
		if id == "0" {
			continue
		}
		h.Value[id] = mkrlwe.NewSwitchingKey(x.P)
		for i := range h.Value[id].Value { // stale content
			ScribblePoly(h.Value[id].Value[i].Q)
			ScribblePoly(h.Value[id].Value[i].P)
		}
		x.ks.Decompose(ct.Level(), p, h.Value[id])
	}
	return h
}

func (x *gen) owners(what string, ct *mkrlwe.Ciphertext, ids map[string]bool, l int) {
	if !SameIDs(ct.IDSet(), ids) || ct.Level() != l {
		x.c.Failf("%s: participants %v at level %d, want %v at level %d", what, ct.IDSet().Value, ct.Level(), ids, l)
	}
	for id, p := range ct.Value {
		if len(p.Coeffs) != l+1 {
			x.c.Failf("%s: component %q has %d residues, level is %d", what, id, len(p.Coeffs), l)
		}
		for i := range p.Coeffs {
			for _, y := range p.Coeffs[i] {
				if y > 2*x.rq.Modulus[i] {
					x.c.Failf("%s: component %q holds an unreduced residue", what, id)
				}
			}
		}
	}
}

var c22pairs = [][2][]string{
	{{"a"}, {"a"}},
	{{"a"}, {"user1"}},
	{{"a", "user1"}, {"user1", ""}},
	{{"", "a", "user1"}, {"a"}},
	{{}, {"a", ""}},
	{{"a"}, {}},
	{{}, {}},
}

func (x *gen) run(thorough bool) {
	c := x.c
	L := x.P.MaxLevel()
	for l := 0; l <= L; l++ {
		up := []int{l}
		if l < L {
			up = append(up, L)
		}
		// products
		for pi, pr := range c22pairs {
			for k0 := 0; k0 < c22kinds; k0++ {
				for k1 := 0; k1 < c22kinds; k1++ {
					if !thorough && k1 != (k0+pi)%c22kinds && k0+k1 != 0 {
						continue
					}
					for _, l0 := range up {
						for _, l1 := range up {
							if l0 != l1 && k0 != 0 && !thorough {
								continue
							}
							x.mul(pr[0], pr[1], k0, k1, l0, l1, l)
						}
					}
				}
			}
		}
		for _, ids := range [][]string{{}, {"a"}, {"a", "user1", ""}} {
			for k := 0; k < c22kinds; k++ {
				for _, l0 := range up {
					x.square(ids, k, l0, l)
					x.autos(ids, k, l0, l)
				}
				x.crypt(ids, k, l)
			}
		}
	}
	c.Outcome(c.ID)
	c.Sample("%s: alpha %d, %d digits at the top level", c.ID, x.P.Alpha(), x.P.Beta(L))
}

func (x *gen) mul(A, B []string, k0, k1, l0, l1, l int) {
	c := x.c
	a, b := x.ct(A, l0, k0, 1), x.ct(B, l1, k1, 11)
	fa, fb := Fp(a), Fp(b)
	what := fmt.Sprintf("%q(kind %d, level %d) x %q(kind %d, level %d) at level %d", A, k0, l0, B, k1, l1, l)
	c.Step(what)
	want := x.prodPhase(x.phase(a, l), x.phase(b, l), l)
	D := l
	if l0 > D {
		D = l0
	}
	if l1 > D {
		D = l1
	}
	bound := x.mulNoise(D, len(A)+1, len(B)+1)
	u := SetOf(append(append([]string{}, A...), B...))
	ha, hb := x.hoist(a), x.hoist(b)
	fh := Fp(ha, hb)
	for v := 0; v < 5; v++ {
		o := x.out(SortedIDs(u), l)
		switch v {
		case 0:
			x.ks.MulAndRelin(a, b, x.rlk, o)
		case 1:
			x.ks.MulAndRelinHoisted(a, b, nil, nil, x.rlk, o)
		case 2:
			x.ks.MulAndRelinHoisted(a, b, ha, nil, x.rlk, o)
		case 3:
			x.ks.MulAndRelinHoisted(a, b, nil, hb, x.rlk, o)
		case 4:
			x.ks.MulAndRelinHoisted(a, b, ha, hb, x.rlk, o)
		}
		w := fmt.Sprintf("%s, variant %d", what, v)
		x.owners(w, o, u, l)
		x.near(w, x.phase(o, l), want, l, bound)
	}
	if Fp(a) != fa || Fp(b) != fb || Fp(ha, hb) != fh {
		c.Failf("%s: an operand changed", what)
	}
	c.State(what)
	c.Trace()
	c.Back()
}

func (x *gen) square(ids []string, k, l0, l int) {
	a := x.ct(ids, l0, k, 5)
	p := x.phase(a, l)
	want := x.prodPhase(p, p, l)
	bound := x.mulNoise(l0, len(ids)+1, len(ids)+1)
	h := x.hoist(a)
	for v := 0; v < 3; v++ {
		what := fmt.Sprintf("square of %q(kind %d, level %d) at level %d, variant %d", ids, k, l0, l, v)
		o := x.out(ids, l)
		switch v {
		case 0:
			x.ks.MulAndRelin(a, a, x.rlk, o)
		case 1:
			x.ks.MulAndRelinHoisted(a, a, nil, nil, x.rlk, o)
		case 2:
			x.ks.MulAndRelinHoisted(a, a, h, h, x.rlk, o)
		}
		x.owners(what, o, SetOf(ids), l)
		x.near(what, x.phase(o, l), want, l, bound)
		x.c.State(what)
	}
	x.c.Trace()
}

func (x *gen) autos(ids []string, k, l0, l int) {
	c := x.c
	a := x.ct(ids, l0, k, 9)
	fa := Fp(a)
	p := x.phase(a, l)
	bound := x.kswNoise(l0, len(ids))
	h := x.hoist(a)
	n2 := uint64(2 * x.P.N())
	for _, rot := range x.rots {
		g := uint64(1)
		for i := 0; i < rot; i++ {
			g = g * 5 % n2
		}
		want := x.auto(p, g, l)
		for v := 0; v < 3; v++ {
			what := fmt.Sprintf("rotation by %d of %q(kind %d, level %d) at level %d, variant %d", rot, ids, k, l0, l, v)
			o := x.out(ids, l)
			switch v {
			case 0:
				x.ks.Rotate(a, rot, x.rtk, o)
			case 1:
				x.ks.RotateHoisted(a, rot, h, x.rtk, o)
			case 2:
				x.ks.Rotate(a, rot-x.P.N()/2, x.rtk, o)
			}
			x.owners(what, o, SetOf(ids), l)
			x.near(what, x.phase(o, l), want, l, bound)
		}
	}
	want := x.auto(p, n2-1, l)
	what := fmt.Sprintf("conjugate of %q(kind %d, level %d) at level %d", ids, k, l0, l)
	o := x.out(ids, l)
	x.ks.Conjugate(a, x.cjk, o)
	x.owners(what, o, SetOf(ids), l)
	x.near(what, x.phase(o, l), want, l, bound)
	if Fp(a) != fa {
		c.Failf("%s: the operand changed", what)
	}
	c.State(what)
	c.Trace()
}

func (x *gen) crypt(ids []string, k, l int) {
	c := x.c
	dec := mkrlwe.NewDecryptor(x.P)
	a := x.ct(ids, l, k, 3)
	fa := Fp(a)
	p := x.phase(a, l)
	same := func(what string, got *ring.Poly, lv int) {
		x.near(what, got, p, lv, new(big.Int))
	}
	for _, perm := range Perms(ids) {
		t := a.CopyNew()
		for _, id := range perm {
			dec.PartialDecrypt(t, x.sk[id])
		}
		what := fmt.Sprintf("partial decryptions %q (kind %d, level %d)", perm, k, l)
		x.owners(what, t, map[string]bool{}, l)
		same(what, x.phase(t, l), l)
	}
	set := mkrlwe.NewSecretKeySet()
	for _, s := range x.sk {
		set.AddSecretKey(s)
	}
	for lp := 0; lp <= x.P.MaxLevel(); lp++ {
		for _, ntt := range []bool{false, true} {
			what := fmt.Sprintf("joint decryption of %q (kind %d, level %d) into level %d, ntt=%v", ids, k, l, lp, ntt)
			pt := &rlwe.Plaintext{Value: x.elem(lp, 0, 99)}
			pt.Value.IsNTT = ntt
			dec.Decrypt(a, set, pt)
			lo := minInt(l, lp)
			if pt.Level() != lo || pt.Value.IsNTT != ntt {
				c.Failf("%s: level %d, ntt=%v", what, pt.Level(), pt.Value.IsNTT)
			}
			g := pt.Value
			if !ntt {
				g = x.rq.NewPolyLvl(lo)
				x.rq.NTTLvl(lo, pt.Value, g)
			}
			same(what, g, lo)
		}
	}
	if Fp(a) != fa {
		c.Failf("decryption changes the ciphertext")
	}
	// encryption: the message and bounded noise
	for _, id := range ids {
		enc := mkrlwe.NewEncryptor(x.P)
		o := x.out(ids, l)
		m := &rlwe.Plaintext{Value: x.elem(l, k, 21)}
		enc.Encrypt(m, x.pk[id], o)
		what := fmt.Sprintf("encryption of kind %d under %q into %q at level %d", k, id, ids, l)
		x.owners(what, o, SetOf(ids), l)
		want := x.rq.NewPolyLvl(l)
		x.rq.NTTLvl(l, m.Value, want)
		x.near(what, x.phase(o, l), want, l, big.NewInt(int64(20*(2*x.P.N()+1))))
	}
	c.State(fmt.Sprintf("crypt %q %d %d", ids, k, l))
	c.Trace()
}
