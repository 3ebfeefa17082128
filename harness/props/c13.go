package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C13",
		Rule:  "every key kind (secret: uniform ternary, every sparse weight, Gaussian; public; relinearisation b, d, v; rotation for every default and extra index; conjugation; raw switching key) for every party name, after every history of one or two other key generations on the same generator: the error e obtained by removing the documented mask and payload from each digit is one integer polynomial consistent over all moduli of Q and P, bounded by 6 sigma, non-zero, and never repeated; CRS entries are distinct, in range and untouched; every encryption (levels, entry points, both domains) uses a non-zero ternary mask with fresh non-zero errors in both components and repeats nothing; with crafted public keys the mask and both errors of 200 encryptions per party and domain are read off exactly; long histories of 4 generators: all draws distinct, bounded, every coefficient alive, prescribed deviation",
		Bound: "18 shapes N=16..64 (two with other deviations than the default, chains of up to 34 moduli and digits of up to 8); 70,000 encryptions and 17,500 key pairs in one life on two shapes; reference strings also on N=2^12 to 2^15 (thorough adds N=64, 128, 4096); all ordered pairs of generator operations, thorough triples",
		Fn: func(r *Run) {
			cl := smallCfgs
			if r.Thorough {
				cl = append(append([]string{}, cl...), "n6a1", "n7a2", "n12")
			} else {
				cl = append(append([]string{}, cl...), "n6a1")
			}
			for _, cn := range []string{"n12", "n13s", "n15"} {
				cn := cn
				r.Case(cn+"/strings", func(c *Case) { c13crs(c, cn) })
			}
			for _, cn := range []string{"n5a2", "n5sp"} {
				cn, n := cn, 70000
				if r.Thorough {
					n = 300000
				}
				r.Case(cn+"/life", func(c *Case) { c13life(c, cn, n) })
			}
			for _, cn := range append(append(append([]string{}, cl...), "n5sg", "n5ss"), wideCfgs...) {
				cn := cn
				for k := 0; k < nKeyOps; k++ {
					for j := 0; j < nKeyOps; j++ {
						k, j := k, j
						r.Case(fmt.Sprintf("%s/keys/%d/%d", cn, k, j), func(c *Case) {
							c13keys(c, cn, []int{k, j})
							if r.Thorough && GetCfg(cn).LogN == 4 {
								for l := 0; l < nKeyOps; l++ {
									c13keys(c, cn, []int{k, j, l})
								}
							}
						})
					}
				}
				if GetCfg(cn).LogN == 5 || r.Thorough && GetCfg(cn).LogN < 8 && GetCfg(cn).LogN > 4 {
					r.Case(cn+"/long", func(c *Case) { c13long(c, cn) })
					r.Case(cn+"/dist", func(c *Case) { c13dist(c, cn) })
					for _, ntt := range []bool{false, true} {
						for i := range AllIDs {
							ntt, i := ntt, i
							r.Case(fmt.Sprintf("%s/craft/%v/%d", cn, ntt, i), func(c *Case) { c13craft(c, cn, ntt, AllIDs[i]) })
						}
					}
				}
				r.Case(cn+"/secret", func(c *Case) { c13secret(c, cn) })
				r.Case(cn+"/crs", func(c *Case) { c13crs(c, cn) })
				for i := range AllIDs {
					i := i
					r.Case(fmt.Sprintf("%s/enc/%d", cn, i), func(c *Case) { c13enc(c, cn, AllIDs[i]) })
				}
			}
		}})
}

// ints lifts an NTT-domain polynomial over QP to one small integer polynomial
// consistent over all moduli; ok is false when no such polynomial exists.
func ints(P mkrlwe.Parameters, p rlwe.PolyQP) (v []int64, ok bool) {
	rq, rp := P.RingQ(), P.RingP()
	q := rq.NewPoly()
	pp := rp.NewPoly()
	rq.InvNTT(p.Q, q)
	rp.InvNTT(p.P, pp)
	var first []int64
	lift := func(row []uint64, m uint64) []int64 {
		o := make([]int64, len(row))
		for i, x := range row {
			x %= m
			if x > m/2 {
				o[i] = -int64(m - x)
			} else {
				o[i] = int64(x)
			}
		}
		return o
	}
	for i, m := range rq.Modulus {
		o := lift(q.Coeffs[i], m)
		if first == nil {
			first = o
			continue
		}
		for j := range o {
			if o[j] != first[j] {
				return first, false
			}
		}
	}
	for i, m := range rp.Modulus {
		o := lift(pp.Coeffs[i], m)
		for j := range o {
			if o[j] != first[j] {
				return first, false
			}
		}
	}
	return first, true
}

func newQP(P mkrlwe.Parameters) rlwe.PolyQP { return P.RingQP().NewPoly() }

// mont returns the Montgomery product a*b.
func mont(P mkrlwe.Parameters, a, b rlwe.PolyQP) rlwe.PolyQP {
	o := newQP(P)
	P.RingQP().MulCoeffsMontgomeryLvl(P.QCount()-1, P.PCount()-1, a, b, o)
	return o
}

func addQP(P mkrlwe.Parameters, a, b rlwe.PolyQP, sign int) rlwe.PolyQP {
	o := newQP(P)
	if sign > 0 {
		P.RingQ().Add(a.Q, b.Q, o.Q)
		P.RingP().Add(a.P, b.P, o.P)
	} else {
		P.RingQ().Sub(a.Q, b.Q, o.Q)
		P.RingP().Sub(a.P, b.P, o.P)
	}
	return o
}

func invM(P mkrlwe.Parameters, a rlwe.PolyQP) rlwe.PolyQP {
	o := newQP(P)
	P.RingQP().InvMFormLvl(P.QCount()-1, P.PCount()-1, a, o)
	return o
}

// gadget returns P*s on the moduli of digit i and 0 elsewhere (form of s kept).
func gadget(P mkrlwe.Parameters, s rlwe.PolyQP, i int) rlwe.PolyQP {
	o := newQP(P)
	t := P.RingQ().NewPoly()
	P.RingQ().MulScalarBigint(s.Q, P.RingP().ModulusBigint, t)
	al := P.Alpha()
	for j := i * al; j < (i+1)*al && j < P.QCount(); j++ {
		copy(o.Q.Coeffs[j], t.Coeffs[j])
	}
	return o
}

// autSK applies X -> X^g to a secret key given in NTT and Montgomery form,
// through its integer coefficients.
func autSK(P mkrlwe.Parameters, sk *mkrlwe.SecretKey, g uint64) rlwe.PolyQP {
	v, ok := ints(P, invM(P, sk.Value))
	if !ok {
		panic("secret key is not an integer polynomial")
	}
	n := uint64(len(v))
	w := make([]int64, n)
	for i := uint64(0); i < n; i++ {
		e := i * g % (2 * n)
		if e >= n {
			w[e-n] = -v[i]
		} else {
			w[e] = v[i]
		}
	}
	o := newQP(P)
	put := func(r *ring.Ring, p *ring.Poly) {
		for i, m := range r.Modulus {
			for j, x := range w {
				if x < 0 {
					p.Coeffs[i][j] = m - uint64(-x)
				} else {
					p.Coeffs[i][j] = uint64(x)
				}
			}
		}
	}
	put(P.RingQ(), o.Q)
	put(P.RingP(), o.P)
	P.RingQ().NTT(o.Q, o.Q)
	P.RingP().NTT(o.P, o.P)
	P.RingQP().MFormLvl(P.QCount()-1, P.PCount()-1, o, o)
	return o
}

func powMod(b, e, m uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * b % m
		}
		b = b * b % m
	}
	return r
}

// keyErrs collects the errors of every generated digit to check freshness.
type keyErrs struct {
	c    *Case
	P    mkrlwe.Parameters
	seen map[string]string
	fam  *draws
}

func (k *keyErrs) err(what string, p rlwe.PolyQP) {
	e, ok := ints(k.P, p)
	k.c.Tr(1)
	if !ok {
		k.c.Failf("%s: removing mask and payload leaves no polynomial consistent over Q and P", what)
	}
	zero := true
	for j, x := range e {
		if b := int64(6 * k.P.Sigma()); x > b || x < -b {
			k.c.Failf("%s: error coefficient %d is %d, beyond 6 sigma", what, j, x)
		}
		if x != 0 {
			zero = false
		}
	}
	if zero {
		k.c.Failf("%s: no error is added, the secret is exposed", what)
	}
	s := fmt.Sprint(e)
	if o, dup := k.seen[s]; dup {
		k.c.Failf("%s reuses the error of %s", what, o)
	}
	k.seen[s] = what
	if k.fam != nil {
		k.fam.all = append(k.fam.all, e)
	}
}

func (k *keyErrs) pk(what string, pk *mkrlwe.PublicKey, sk *mkrlwe.SecretKey, crs *mkrlwe.SwitchingKey) {
	if pk.ID != sk.ID {
		k.c.Failf("%s: owner %q, secret key of %q", what, pk.ID, sk.ID)
	}
	k.err(what, addQP(k.P, pk.Value[0], mont(k.P, sk.Value, pk.Value[1]), 1))
	if !PolyEq(k.P.RingQ(), pk.Value[1].Q, crs.Value[0].Q) || !PolyEq(k.P.RingP(), pk.Value[1].P, crs.Value[0].P) {
		k.c.Failf("%s: a is not the common reference string", what)
	}
}

func (k *keyErrs) swk(what string, w *mkrlwe.SwitchingKey, in rlwe.PolyQP) {
	for i := range w.Value {
		k.err(fmt.Sprintf("%s digit %d", what, i), invM(k.P, addQP(k.P, w.Value[i], gadget(k.P, in, i), -1)))
	}
}

func (k *keyErrs) rlk(what string, rl *mkrlwe.RelinearizationKey, sk, r *mkrlwe.SecretKey) {
	if rl.ID != sk.ID {
		k.c.Failf("%s: owner %q", what, rl.ID)
	}
	a, u := k.P.CRS[0], k.P.CRS[-1]
	for i := 0; i < k.P.Beta(k.P.QCount()-1); i++ {
		b, d, v := rl.Value[0].Value[i], rl.Value[1].Value[i], rl.Value[2].Value[i]
		k.err(fmt.Sprintf("%s b[%d]", what, i), invM(k.P, addQP(k.P, b, mont(k.P, a.Value[i], sk.Value), 1)))
		t := addQP(k.P, d, mont(k.P, a.Value[i], r.Value), 1)
		k.err(fmt.Sprintf("%s d[%d]", what, i), invM(k.P, addQP(k.P, t, gadget(k.P, sk.Value, i), -1)))
		t = addQP(k.P, v, mont(k.P, u.Value[i], sk.Value), 1)
		k.err(fmt.Sprintf("%s v[%d]", what, i), invM(k.P, addQP(k.P, t, gadget(k.P, r.Value, i), 1)))
	}
}

func (k *keyErrs) rtk(what string, rk *mkrlwe.RotationKey, sk *mkrlwe.SecretKey, idx int) {
	h := k.P.N() / 2
	n := ((idx % h) + h) % h
	if rk.ID != sk.ID || rk.RotIdx != uint(n) {
		k.c.Failf("%s: labelled (%q,%d), want (%q,%d)", what, rk.ID, rk.RotIdx, sk.ID, n)
	}
	M := uint64(2 * k.P.N())
	g := powMod(5, uint64(n), M)
	inv := powMod(g, M/2-1, M) // the unit group of Z/2N has exponent N/2
	if g*inv%M != 1 {
		panic("inverse")
	}
	so := autSK(k.P, sk, inv)
	a := k.P.CRS[n]
	for i := range rk.Value.Value {
		t := addQP(k.P, rk.Value.Value[i], mont(k.P, a.Value[i], so), 1)
		k.err(fmt.Sprintf("%s[%d]", what, i), invM(k.P, addQP(k.P, t, gadget(k.P, sk.Value, i), -1)))
	}
}

func (k *keyErrs) cjk(what string, cj *mkrlwe.ConjugationKey, sk *mkrlwe.SecretKey) {
	if cj.ID != sk.ID {
		k.c.Failf("%s: owner %q", what, cj.ID)
	}
	so := autSK(k.P, sk, uint64(2*k.P.N()-1))
	a := k.P.CRS[-2]
	for i := range cj.Value.Value {
		t := addQP(k.P, cj.Value.Value[i], mont(k.P, a.Value[i], sk.Value), 1)
		k.err(fmt.Sprintf("%s[%d]", what, i), invM(k.P, addQP(k.P, t, gadget(k.P, so, i), -1)))
	}
}

const nKeyOps = 11

// genOp performs and verifies one key generation.
func (k *keyErrs) genOp(o int, kg *mkrlwe.KeyGenerator, id string, sk *mkrlwe.SecretKey) {
	P := k.P
	h := P.N() / 2
	switch o {
	case 0:
		s2 := kg.GenSecretKey(id)
		k.pk("pk of a new secret", kg.GenPublicKey(s2), s2, P.CRS[0])
	case 1:
		k.pk("pk", kg.GenPublicKey(sk), sk, P.CRS[0])
	case 2:
		r := kg.GenSecretKey(id)
		k.rlk("rlk", kg.GenRelinearizationKey(sk, r), sk, r)
	case 3:
		k.rtk("rtk1", kg.GenRotationKey(1, sk), sk, 1)
	case 4:
		k.rtk("rtk N/4", kg.GenRotationKey(h/2, sk), sk, h/2)
	case 5:
		k.rtk("rtk -1 (extra)", kg.GenRotationKey(-1, sk), sk, -1)
	case 6:
		k.cjk("cjk", kg.GenConjugationKey(sk), sk)
	case 7:
		w := mkrlwe.NewSwitchingKey(P)
		kg.GenSwitchingKey(sk, w)
		k.swk("swk", w, sk.Value)
	case 8:
		set := mkrlwe.NewRotationKeySet()
		kg.GenDefaultRotationKeys(sk, set)
		for r := 1; r < h; r *= 2 {
			k.rtk(fmt.Sprintf("default rtk %d", r), set.GetRotationKey(id, uint(r)), sk, r)
		}
	case 9:
		s2, p2 := kg.GenKeyPairSparse(4, id)
		k.pk("sparse pair", p2, s2, P.CRS[0])
	case 10:
		s2 := kg.GenSecretKeyGaussian(id)
		k.cjk("cjk of a gaussian secret", kg.GenConjugationKey(s2), s2)
		k.rtk("rtk of a gaussian secret", kg.GenRotationKey(2, s2), s2, 2)
	}
}

func c13keys(c *Case, cn string, seq []int) {
	Reseed(fmt.Sprint(c.ID, seq))
	cfg := GetCfg(cn)
	P := mkckks.NewParameters(cfg.CkksParams())
	P.AddCRS(cfg.N()/2 - 1)
	fp := Fp(P.CRS)
	kg := mkckks.NewKeyGenerator(P)
	idl := AllIDs
	if len(seq) > 2 || cfg.LogN > 5 {
		idl = AllIDs[:2]
	}
	k := &keyErrs{c: c, P: P.Parameters, seen: map[string]string{}}
	var prev *mkrlwe.SecretKey
	for _, id := range idl {
		sk, pk := kg.GenKeyPair(id)
		if sk.ID != id {
			c.Failf("secret key of %q labelled %q", id, sk.ID)
		}
		k.pk("key pair", pk, sk, P.CRS[0])
		if prev != nil && PolyEq(P.RingQ(), prev.Value.Q, sk.Value.Q) {
			c.Failf("two parties share one secret")
		}
		prev = sk
		base := c.TrailLen()
		f := Fp(sk)
		for _, o := range seq {
			c.Step(fmt.Sprintf("key op %d for %q", o, id))
			k.genOp(o, kg, id, sk)
		}
		if Fp(sk) != f {
			c.Failf("key generation changes the secret key")
		}
		c.TrailTo(base)
		c.State(fmt.Sprintf("%s|%q|%v", cn, id, seq))
	}
	// the first operation again: still fresh
	k.genOp(seq[0], kg, idl[len(idl)-1], prev)
	if Fp(P.CRS) != fp {
		c.Failf("key generation changes the common reference string")
	}
	c.Trace()
	c.Outcome(fmt.Sprint(seq))
	c.Sample("%s: key operations %v, %d digits checked", cn, seq, len(k.seen))
}

func c13secret(c *Case, cn string) {
	cfg := GetCfg(cn)
	P := mkckks.NewParameters(cfg.CkksParams())
	kg := mkckks.NewKeyGenerator(P)
	seen := map[string]bool{}
	check := func(what string, sk *mkrlwe.SecretKey, id string, max int64, hw int) {
		c.Tr(1)
		v, ok := ints(P.Parameters, invM(P.Parameters, sk.Value))
		if !ok {
			c.Failf("%s: not one integer polynomial over Q and P", what)
		}
		if sk.ID != id {
			c.Failf("%s: labelled %q", what, sk.ID)
		}
		w := 0
		for _, x := range v {
			if x > max || x < -max {
				c.Failf("%s: coefficient %d outside the distribution", what, x)
			}
			if x != 0 {
				w++
			}
		}
		if w == 0 {
			c.Failf("%s: the secret is zero", what)
		}
		if hw >= 0 && w != hw {
			c.Failf("%s: %d non-zero coefficients, asked for %d", what, w, hw)
		}
		if s := fmt.Sprint(v); hw < 0 || hw > cfg.N()/2 && cfg.LogN > 4 {
			if seen[s] {
				c.Failf("%s: secret repeated", what)
			}
			seen[s] = true
		}
		c.State(cn + what)
	}
	for rep := 0; rep < 3; rep++ {
		for _, id := range AllIDs {
			check(fmt.Sprintf("ternary#%d", rep), kg.GenSecretKey(id), id, 1, -1)
			check(fmt.Sprintf("gaussian#%d", rep), kg.GenSecretKeyGaussian(id), id, cfg.B(), -1)
			check(fmt.Sprintf("distrib 2/3 #%d", rep), kg.GenSecretKeyWithDistrib(2.0/3, id), id, 1, -1)
			check(fmt.Sprintf("distrib 1/3 #%d", rep), kg.GenSecretKeyWithDistrib(1.0/3, id), id, 1, -1)
		}
	}
	for hw := 1; hw <= cfg.N(); hw++ {
		check(fmt.Sprintf("sparse %d", hw), kg.GenSecretKeySparse(hw, "a"), "a", 1, hw)
		sk, pk := kg.GenKeyPairSparse(hw, "b")
		check(fmt.Sprintf("sparse pair %d", hw), sk, "b", 1, hw)
		if pk.ID != "b" {
			c.Failf("sparse pair: public key labelled %q", pk.ID)
		}
	}
	c.Trace()
}

func c13crs(c *Case, cn string) {
	cfg := GetCfg(cn)
	P := mkckks.NewParameters(cfg.CkksParams())
	seen := map[[32]byte]string{}
	beta := P.Beta(P.MaxLevel())
	check := func(idx int) {
		k, ok := P.CRS[idx]
		if !ok {
			c.Failf("no reference string for index %d", idx)
		}
		if len(k.Value) != beta {
			c.Failf("reference string %d has %d digits, want %d", idx, len(k.Value), beta)
		}
		for i := range k.Value {
			c.Tr(1)
			rows := func(r *ring.Ring, p *ring.Poly) {
				for j, m := range r.Modulus {
					var big bool
					for _, x := range p.Coeffs[j] {
						if x >= m {
							c.Failf("reference string %d: residue out of range", idx)
						}
						if x > m/4 {
							big = true
						}
					}
					if !big {
						c.Failf("reference string %d digit %d is not uniform (all residues small)", idx, i)
					}
					f := Fp(p.Coeffs[j])
					if o, dup := seen[f]; dup {
						c.Failf("reference string %d digit %d modulus %d equals %s", idx, i, j, o)
					}
					seen[f] = fmt.Sprintf("%d/%d/%d", idx, i, j)
				}
			}
			rows(P.RingQ(), k.Value[i].Q)
			rows(P.RingP(), k.Value[i].P)
		}
		c.State(fmt.Sprint(cn, "crs", idx))
	}
	idx := []int{0, -1, -2, -3, -4}
	for r := 1; r < cfg.N()/2; r *= 2 {
		idx = append(idx, r)
	}
	for _, i := range idx {
		check(i)
	}
	step := 2
	if cfg.LogN > 8 {
		step = cfg.N()/8 + 2
	}
	for i := 3; i < cfg.N()/2; i += step {
		f := Fp(P.CRS)
		old := map[int]*mkrlwe.SwitchingKey{}
		for k, v := range P.CRS {
			old[k] = v
		}
		P.AddCRS(i)
		check(i)
		if Fp(old) != f {
			c.Failf("AddCRS(%d) changes other reference strings", i)
		}
		for k := range old {
			if P.CRS[k] != old[k] {
				c.Failf("AddCRS(%d) replaces reference string %d", i, k)
			}
		}
	}
	c.Trace()
}

// c13enc: structure of encryptions.
func c13enc(c *Case, cn string, id string) {
	s := CachedSys(cn, AllIDs)
	Reseed(c.ID)
	x := s.Ctx()
	rq := s.P.RingQ()
	n := s.Cfg.Slots()
	m := Vec(n, 4)
	pk := s.PK[id]
	L := s.P.MaxLevel()
	var prev []*mkckks.Ciphertext
	small := func(p *ring.Poly, b int64) bool {
		return Inf(s.Centered(p)).IsInt64() && Inf(s.Centered(p)).Int64() <= b
	}
	// divide by an NTT-domain polynomial (all its evaluations are units)
	div := func(p, d *ring.Poly, l int) *ring.Poly {
		t := rq.NewPolyLvl(l)
		rq.NTTLvl(l, p, t)
		for i := 0; i <= l; i++ {
			q := rq.Modulus[i]
			for j := range t.Coeffs[i] {
				dv := d.Coeffs[i][j] % q
				if dv == 0 {
					return nil
				}
				t.Coeffs[i][j] = ring.BRed(t.Coeffs[i][j], ring.ModExp(dv, q-2, q), q, rq.BredParams[i])
			}
		}
		rq.InvNTTLvl(l, t, t)
		return t
	}
	check := func(what string, ct *mkckks.Ciphertext, pt *ring.Poly) {
		l := ct.Level()
		c.Tr(1)
		c0, c1 := ct.Value["0"], ct.Value[id]
		// c1 = u*pk1 + e1: u non-zero (c1 not small), e1 non-zero (c1/pk1 not ternary)
		if small(c1, 1000) {
			c.Failf("%s: the mask is missing (c1 is small)", what)
		}
		if u := div(c1, pk.Value[1].Q, l); u != nil && small(u, 40) {
			c.Failf("%s: c1 carries no error, the encryption randomness can be read off", what)
		}
		d := rq.NewPolyLvl(l)
		rq.SubLvl(l, c0, pt, d)
		if small(d, 1000) {
			c.Failf("%s: c0 exposes the plaintext", what)
		}
		if u := div(d, pk.Value[0].Q, l); u != nil && small(u, 40) {
			c.Failf("%s: c0 carries no error, the encryption randomness can be read off", what)
		}
		if u := div(d, pk.Value[1].Q, l); u != nil && small(u, 40) {
			c.Failf("%s: c0 is masked by the public reference string", what)
		}
		// relation of the two components: c0 - pt + c1*s = small, non zero
		t := s.MulSK(&ring.Poly{Coeffs: c1.Coeffs[:l+1]}, s.SK[id])
		rq.AddLvl(l, t, d, t)
		e := Inf(s.Centered(t))
		if !e.IsInt64() || e.Int64() > s.Cfg.B()*int64(2*s.Cfg.N()+1) {
			c.Failf("%s: encryption error %v beyond 6 sigma (2N+1)", what, e)
		}
		if e.Sign() == 0 {
			c.Failf("%s: no encryption error", what)
		}
		// for a ternary mask u = (c1 - e1)/pk1 the error must also be small
		for _, o := range prev {
			lo := minInt(l, o.Level())
			for _, k := range []string{"0", id} {
				dd := rq.NewPolyLvl(lo)
				rq.SubLvl(lo, &ring.Poly{Coeffs: ct.Value[k].Coeffs[:lo+1]}, &ring.Poly{Coeffs: o.Value[k].Coeffs[:lo+1]}, dd)
				if small(dd, 1000) {
					c.Failf("%s: component %q repeats the randomness of an earlier encryption", what, k)
				}
			}
		}
		prev = append(prev, ct)
		c.State(fmt.Sprint(cn, id, what))
	}
	encode := func(l int) *ring.Poly {
		p := x.Encode(m)
		o := rq.NewPolyLvl(l)
		rq.InvNTTLvl(l, p.Value, o)
		if !p.Value.IsNTT {
			ring.CopyValuesLvl(l, p.Value, o)
		}
		return o
	}
	for rep := 0; rep < 2; rep++ {
		if rep == 1 {
			x = s.Ctx() // a second encryptor must not repeat the first
		}
		check(fmt.Sprintf("EncryptMsgNew#%d", rep), x.Enc.EncryptMsgNew(Msg(m), pk), encode(L))
		check(fmt.Sprintf("EncryptMsgNew again#%d", rep), x.Enc.EncryptMsgNew(Msg(m), pk), encode(L))
		check(fmt.Sprintf("EncryptMsgNewExpand#%d", rep), x.Enc.EncryptMsgNewExpand(Msg(m), pk, IDSet(AllIDs)), encode(L))
		for l := 0; l <= L; l++ {
			for _, ntt := range []bool{false, true} {
				ct := mkckks.NewCiphertext(s.P, IDSet([]string{id}), l, 1)
				for _, p := range ct.Value {
					p.IsNTT = ntt
				}
				x.Enc.EncryptMsg(Msg(m), pk, ct)
				if ntt {
					for k, p := range ct.Value {
						if !p.IsNTT {
							c.Failf("NTT-domain encryption: component %q lost its domain flag", k)
						}
						rq.InvNTTLvl(l, p, p)
						p.IsNTT = false
					}
				}
				check(fmt.Sprintf("EncryptMsg@%d ntt=%v#%d", l, ntt, rep), ct, encode(l))
			}
		}
	}
	c.Trace()
	c.Sample("%s %q: %d encryptions pairwise independent", cn, id, len(prev))
}
