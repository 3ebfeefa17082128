package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// A public key is an input of encryption. With the constant polynomials B0, B1
// in its place, an encryption (u*B0 + e0 + m, u*B1 + e1) shows its mask and
// both errors exactly: every draw can be checked, not only their combination.
const craftB = 1 << 12

func craftKey(s *Sys, id string) *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(s.P.Parameters, id)
	for k := range pk.Value {
		for _, rows := range [][][]uint64{pk.Value[k].Q.Coeffs, pk.Value[k].P.Coeffs} {
			for _, r := range rows {
				for j := range r {
					r[j] = craftB << k
				}
			}
		}
	}
	return pk
}

// draws collects a family of random polynomials that must be pairwise different,
// bounded, and alive in every coefficient.
type draws struct {
	name string
	max  int64
	seen map[string]int
	all  [][]int64
}

func newDraws(name string, max int64) *draws {
	return &draws{name: name, max: max, seen: map[string]int{}}
}

func (d *draws) add(c *Case, what string, v []int64) {
	c.Tr(1)
	zero := true
	for j, x := range v {
		if x > d.max || x < -d.max {
			c.Failf("%s: %s has coefficient %d at %d, outside the distribution", what, d.name, x, j)
		}
		zero = zero && x == 0
	}
	if zero {
		c.Failf("%s: %s is zero", what, d.name)
	}
	k := fmt.Sprint(v)
	if o, dup := d.seen[k]; dup {
		c.Failf("%s: %s repeats the one of draw %d", what, d.name, o)
	}
	d.seen[k] = len(d.all)
	d.all = append(d.all, v)
}

// alive: over at least 96 draws every coefficient takes positive and negative
// values, and the spread is the prescribed one.
func (d *draws) alive(c *Case, sigmas ...float64) {
	if len(d.all) < 96 {
		panic("too few draws")
	}
	var sq, sum float64
	for j := range d.all[0] {
		var p, n bool
		for _, v := range d.all {
			p = p || v[j] > 0
			n = n || v[j] < 0
			sq += float64(v[j] * v[j])
			sum += float64(v[j])
		}
		if !p || !n {
			c.Failf("coefficient %d of %s is never %s in %d draws", j, d.name, map[bool]string{true: "negative", false: "positive"}[p], len(d.all))
		}
	}
	n, N := float64(len(d.all)), len(d.all[0])
	all := n * float64(N)
	sd := math.Sqrt(sq / all)
	// seven standard errors of the estimate, and the rounding to integers
	tol := 7/math.Sqrt(2*all) + 0.01
	var ok bool
	for _, sigma := range sigmas {
		ok = ok || math.Abs(sd/sigma-1) <= tol
	}
	if !ok {
		c.Failf("%s has deviation %.3f over %d draws, prescribed %.3f", d.name, sd, len(d.all), sigmas)
	}
	if m := sum / all; math.Abs(m) > 7*sd/math.Sqrt(all) {
		c.Failf("%s has mean %.3f over %d draws", d.name, m, len(d.all))
	}
	// coefficients of one draw, and the same coefficients of successive draws,
	// are drawn independently of each other
	for j := 0; j < N; j++ {
		for k := j; k < N; k++ {
			var in, next float64
			for i, v := range d.all {
				in += float64(v[j] * v[k])
				if i > 0 {
					next += float64(v[j] * d.all[i-1][k])
				}
			}
			if r := in / n / sd / sd; j != k && math.Abs(r)*math.Sqrt(n) > 7 {
				c.Failf("coefficients %d and %d of %s are correlated (%.2f over %d draws)", j, k, d.name, r, len(d.all))
			}
			if r := next / n / sd / sd; math.Abs(r)*math.Sqrt(n) > 7 {
				c.Failf("coefficient %d of %s is correlated with coefficient %d of the draw before (%.2f over %d draws)", j, d.name, k, r, len(d.all))
			}
		}
	}
}

// independent: two families drawn together, at every distance of coefficients.
func independent(c *Case, d, e *draws) {
	var sd, se float64
	N := len(d.all[0])
	for i := range d.all {
		for j := range d.all[i] {
			sd += float64(d.all[i][j] * d.all[i][j])
			se += float64(e.all[i][j] * e.all[i][j])
		}
	}
	for k := 0; k < N; k++ {
		var x float64
		for i := range d.all {
			for j := 0; j < N; j++ {
				x += float64(d.all[i][j] * e.all[i][(j+k)%N])
			}
		}
		all := float64(len(d.all) * N)
		if r := x / math.Sqrt(sd*se); math.Abs(r)*math.Sqrt(all) > 7 {
			c.Failf("%s and %s of one encryption are correlated at distance %d (%.2f over %d draws)", d.name, e.name, k, r, len(d.all))
		}
	}
}

func c13craft(c *Case, cn string, ntt bool, id string) {
	s := CachedSys(cn, AllIDs)
	Reseed(c.ID)
	rq := s.P.RingQ()
	L := s.P.MaxLevel()
	pk := craftKey(s, id)
	fp := Fp(pk)
	m := Vec(s.Cfg.Slots(), 4)
	us, e0s, e1s := newDraws("the mask", 1), newDraws("the error of component 0", s.Cfg.B()), newDraws("the error of the owner's component", s.Cfg.B())
	split := func(what string, p *ring.Poly, b int64) (u, e []int64) {
		for j, z := range s.Centered(p) {
			if !z.IsInt64() {
				c.Failf("%s: coefficient %d is not mask times key plus error", what, j)
			}
			x := z.Int64()
			k := int64(math.Floor(float64(x)/float64(b) + 0.5))
			u, e = append(u, k), append(e, x-k*b)
		}
		return
	}
	look := func(what string, ct *mkckks.Ciphertext, pt *ring.Poly, l int) {
		if ct.Level() != l {
			c.Failf("%s: level %d, want %d", what, ct.Level(), l)
		}
		o := map[string]*ring.Poly{}
		for k, p := range ct.Value {
			if p.IsNTT != ntt {
				c.Failf("%s: component %q changed its domain", what, k)
			}
			o[k] = rq.NewPolyLvl(l)
			ring.CopyValuesLvl(l, p, o[k])
			if ntt {
				rq.InvNTTLvl(l, p, o[k])
			}
			if k != "0" && k != id {
				if Inf(s.Centered(o[k])).Sign() != 0 {
					c.Failf("%s: component of %q is not zero", what, k)
				}
			}
		}
		rq.SubLvl(l, o["0"], pt, o["0"])
		u0, e0 := split(what, o["0"], craftB)
		u1, e1 := split(what, o[id], craftB<<1)
		if fmt.Sprint(u0) != fmt.Sprint(u1) {
			c.Failf("%s: the components use different masks", what)
		}
		if fmt.Sprint(e0) == fmt.Sprint(e1) {
			c.Failf("%s: the components use the same error", what)
		}
		us.add(c, what, u0)
		e0s.add(c, what, e0)
		if _, dup := e0s.seen[fmt.Sprint(e1)]; dup {
			c.Failf("%s: error reused in the other component", what)
		}
		e1s.add(c, what, e1)
		c.State(fmt.Sprint(cn, id, ntt, what))
	}
	plain := func(p *ring.Poly, isNTT bool, l int) *ring.Poly {
		o := rq.NewPolyLvl(l)
		ring.CopyValuesLvl(l, p, o)
		if isNTT {
			rq.InvNTTLvl(l, p, o)
		}
		return o
	}
	mk := func(l int, idl ...string) *mkckks.Ciphertext {
		ct := mkckks.NewCiphertext(s.P, IDSet(idl), l, 1)
		for _, p := range ct.Value {
			p.IsNTT = ntt
		}
		return ct
	}
	x := s.Ctx()
	ge := mkrlwe.NewEncryptor(s.P.Parameters)
	var used *mkckks.Ciphertext
	for i := 0; len(us.all) < 200; i++ {
		if i%20 == 19 { // further encryptors draw on
			x = s.Ctx()
			ge = mkrlwe.NewEncryptor(s.P.Parameters)
		}
		pt := x.Encode(m)
		for l := 0; l <= L; l++ {
			ct := mk(l, id)
			x.Enc.EncryptMsg(Msg(m), pk, ct)
			look(fmt.Sprintf("EncryptMsg@%d #%d", l, i), ct, plain(pt.Value, pt.Value.IsNTT, l), l)
			ct = mk(l, AllIDs...)
			x.Enc.EncryptPtxt(pt, pk, ct)
			look(fmt.Sprintf("EncryptPtxt@%d expanded #%d", l, i), ct, plain(pt.Value, pt.Value.IsNTT, l), l)
			// the generic layer, plaintext in either domain
			for _, pn := range []bool{false, true} {
				gp := &rlwe.Plaintext{Value: rq.NewPolyLvl(l)}
				for k := 0; k <= l; k++ {
					for j := range gp.Value.Coeffs[k] {
						gp.Value.Coeffs[k][j] = uint64(j*j*7919+i+l) % rq.Modulus[k]
					}
				}
				gp.Value.IsNTT = pn
				ct := mk(l, id)
				ge.Encrypt(gp, pk, &mkrlwe.Ciphertext{Value: ct.Value})
				look(fmt.Sprintf("generic@%d plaintext ntt=%v #%d", l, pn, i), ct, plain(gp.Value, pn, l), l)
			}
		}
		if !ntt {
			look(fmt.Sprintf("EncryptMsgNew #%d", i), x.Enc.EncryptMsgNew(Msg(m), pk), plain(pt.Value, pt.Value.IsNTT, L), L)
			look(fmt.Sprintf("EncryptMsgNewExpand #%d", i), x.Enc.EncryptMsgNewExpand(Msg(m), pk, IDSet(AllIDs)), plain(pt.Value, pt.Value.IsNTT, L), L)
		}
		if used == nil {
			used = mk(L, AllIDs...)
		}
		x.Enc.EncryptPtxt(pt, pk, used) // into one and the same ciphertext
		look(fmt.Sprintf("EncryptPtxt again #%d", i), used, plain(pt.Value, pt.Value.IsNTT, L), L)
	}
	us.alive(c, math.Sqrt(0.5))
	e0s.alive(c, s.P.Sigma())
	e1s.alive(c, s.P.Sigma())
	independent(c, us, e0s)
	independent(c, us, e1s)
	independent(c, e0s, e1s)
	if Fp(pk) != fp {
		c.Failf("encryption changes the public key")
	}
	c.Trace()
	c.Sample("%s %q: masks and errors of %d encryptions exact, distinct, alive", cn, id, len(us.all))
}

// c13long: a long life of several key generators over one parameter object and
// over a second one; all errors and secrets stay fresh and alive.
func c13long(c *Case, cn string) {
	Reseed(c.ID)
	cfg := GetCfg(cn)
	k := &keyErrs{c: c, seen: map[string]string{}, fam: newDraws("the key error", cfg.B())}
	sec := newDraws("the secret", 1)
	for g := 0; g < 2; g++ {
		P := mkckks.NewParameters(cfg.CkksParams())
		P.AddCRS(cfg.N()/2 - 1)
		k.P = P.Parameters
		fp := Fp(P.CRS)
		for h := 0; h < 2; h++ {
			kg := mkckks.NewKeyGenerator(P)
			for rep := 0; rep < 24; rep++ {
				id := fmt.Sprintf("p%d", rep%3)
				sk, pk := kg.GenKeyPair(id)
				v, ok := ints(P.Parameters, invM(P.Parameters, sk.Value))
				if !ok {
					c.Failf("secret key is not one integer polynomial")
				}
				sec.add(c, fmt.Sprintf("parameters %d generator %d key %d", g, h, rep), v)
				k.pk("key pair", pk, sk, P.CRS[0])
				k.genOp((rep+1)%nKeyOps, kg, id, sk)
			}
		}
		if Fp(P.CRS) != fp {
			c.Failf("key generation changes the common reference string")
		}
	}
	// a zero with probability one half (or one third, as the comment says)
	sec.alive(c, math.Sqrt(0.5), math.Sqrt(2.0/3))
	k.fam.alive(c, k.P.Sigma())
	c.Trace()
	c.Outcome(cn)
	c.Sample("%s: 4 generators, %d digits, all distinct and alive", cn, len(k.seen))
}

// c13dist: every kind of secret key follows its distribution.
func c13dist(c *Case, cn string) {
	Reseed(c.ID)
	cfg := GetCfg(cn)
	P := mkckks.NewParameters(cfg.CkksParams())
	kg := mkckks.NewKeyGenerator(P)
	family := func(name string, max int64, gen func() *mkrlwe.SecretKey, sd ...float64) {
		d := newDraws(name, max)
		for len(d.all) < 200 {
			v, ok := ints(P.Parameters, invM(P.Parameters, gen().Value))
			if !ok {
				c.Failf("%s is not one integer polynomial", name)
			}
			d.add(c, fmt.Sprintf("#%d", len(d.all)), v)
		}
		d.alive(c, sd...)
		c.Outcome(name)
	}
	family("the secret", 1, func() *mkrlwe.SecretKey { return kg.GenSecretKey("a") }, math.Sqrt(0.5), math.Sqrt(2.0/3))
	family("the Gaussian secret", cfg.B(), func() *mkrlwe.SecretKey { return kg.GenSecretKeyGaussian("a") }, P.Sigma())
	for _, p := range []float64{0.5, 1.0 / 3, 2.0 / 3, 0.25} {
		p := p
		family(fmt.Sprintf("the secret with zeros of probability %.2f", p), 1, func() *mkrlwe.SecretKey { return kg.GenSecretKeyWithDistrib(p, "a") }, math.Sqrt(1-p))
	}
	N := cfg.N()
	for _, hw := range []int{N / 2, 3 * N / 4, N - 1, N} {
		hw := hw
		family(fmt.Sprintf("the sparse secret of weight %d", hw), 1, func() *mkrlwe.SecretKey { return kg.GenSecretKeySparse(hw, "a") }, math.Sqrt(float64(hw)/float64(N)))
		family(fmt.Sprintf("the sparse secret of a pair of weight %d", hw), 1, func() *mkrlwe.SecretKey { sk, _ := kg.GenKeyPairSparse(hw, "a"); return sk }, math.Sqrt(float64(hw)/float64(N)))
	}
	c.Trace()
	c.Sample("%s: ten kinds of secret keys, 200 of each", cn)
}

// c13life: one encryptor and one key generator with a long life; no mask, error
// or secret ever repeats or is missing.
func c13life(c *Case, cn string, n int) {
	s := CachedSys(cn, AllIDs)
	Reseed(c.ID)
	rq := s.P.RingQ()
	id := "a"
	pk := craftKey(s, id)
	x := s.Ctx()
	msg := Msg(Vec(s.Cfg.Slots(), 4))
	enc := x.Encode(msg.Value)
	pt := rq.NewPolyLvl(0)
	ring.CopyValuesLvl(0, enc.Value, pt)
	if enc.Value.IsNTT {
		rq.InvNTTLvl(0, pt, pt)
	}
	us, e0s, e1s := newDraws("the mask", 1), newDraws("the error of component 0", s.Cfg.B()), newDraws("the error of the owner's component", s.Cfg.B())
	q := int64(rq.Modulus[0])
	ct := mkckks.NewCiphertext(s.P, IDSet([]string{id}), 0, 1)
	for i := 0; i < n; i++ {
		x.Enc.EncryptMsg(msg, pk, ct)
		what := fmt.Sprintf("encryption %d", i)
		split := func(p, sub *ring.Poly, b int64) (u, e []int64) {
			for j := range p.Coeffs[0] {
				v := int64(p.Coeffs[0][j])
				if sub != nil {
					v -= int64(sub.Coeffs[0][j])
				}
				v = (v%q + q) % q
				if v > q/2 {
					v -= q
				}
				k := int64(math.Floor(float64(v)/float64(b) + 0.5))
				u, e = append(u, k), append(e, v-k*b)
			}
			return
		}
		u0, e0 := split(ct.Value["0"], pt, craftB)
		u1, e1 := split(ct.Value[id], nil, craftB<<1)
		if fmt.Sprint(u0) != fmt.Sprint(u1) {
			c.Failf("%s: the components use different masks", what)
		}
		us.add(c, what, u0)
		e0s.add(c, what, e0)
		e1s.add(c, what, e1)
	}
	P := s.P.Parameters
	kg := mkckks.NewKeyGenerator(s.P)
	k := &keyErrs{c: c, P: P, seen: map[string]string{}}
	sec := newDraws("the secret", 1)
	for i := 0; i < n/4; i++ {
		sk, pk := kg.GenKeyPair(id)
		k.pk(fmt.Sprintf("key pair %d", i), pk, sk, P.CRS[0])
		v, ok := ints(P, invM(P, sk.Value))
		if !ok {
			c.Failf("secret key is not one integer polynomial")
		}
		sec.add(c, fmt.Sprintf("key pair %d", i), v)
	}
	c.Trace()
	c.State(cn + "life")
	c.Sample("%s: %d encryptions and %d key pairs of one encryptor and one key generator", cn, n, n/4)
}
