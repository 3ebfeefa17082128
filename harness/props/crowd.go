package props

import (
	"fmt"
	"strings"

	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// crowd is a larger group of parties with names that are easily confused:
// common prefixes, case, blanks, control characters, very long names that
// differ in the last character, names next to the reserved one.
var crowd = func() []string {
	long := strings.Repeat("party-", 50)
	l := []string{"user1", "user10", "User1", " user1", "user1 ", "user1\x00", long + "A", long + "B", "1", "-1", "000", "\u00e9", "e\u0301"}
	for i := len(l); i < 20; i++ {
		l = append(l, fmt.Sprintf("company%d", i))
	}
	return l
}()

var crowdCfgs = []string{"n4a1", "n4w3"}

// crowdSizes are the group sizes explored.
var crowdSizes = []int{1, 2, 3, 4, 5, 8, 13, 16, 17, 20}

func crowdSys(cn string) *Sys { return CachedSys(cn, namesOf(cn)) }

// throng: so many parties that an unreduced sum of one 60-bit residue per
// party exceeds 64 bits.
var throng = func() []string {
	l := append([]string{}, crowd...)
	for i := len(l); i < 48; i++ {
		l = append(l, fmt.Sprintf("company%d", i))
	}
	return l
}()

const throngCfg = "n4wt"

func namesOf(cn string) []string {
	if cn == throngCfg {
		return throng
	}
	return crowd
}

// crowdPair is a pair of participant sets: the first na and the last nb names.
func crowdCases(r *Run, what string, f func(c *Case, cn string, na, nb int)) {
	for _, cn := range crowdCfgs {
		for _, na := range crowdSizes {
			for _, nb := range crowdSizes {
				if !r.Thorough && cn != "n4a1" && na != nb && nb != 20 && na != 20 {
					continue
				}
				cn, na, nb := cn, na, nb
				r.Case(fmt.Sprintf("crowd/%s/%s/%d/%d", what, cn, na, nb), func(c *Case) { f(c, cn, na, nb) })
			}
		}
	}
	for _, n := range [][2]int{{48, 48}, {1, 48}, {48, 1}, {24, 33}, {32, 32}} {
		n := n
		r.Case(fmt.Sprintf("throng/%s/%d/%d", what, n[0], n[1]), func(c *Case) { f(c, throngCfg, n[0], n[1]) })
	}
}

func crowdOne(r *Run, what string, f func(c *Case, cn string, na int)) {
	for _, cn := range crowdCfgs {
		for na := 1; na <= len(crowd); na++ {
			cn, na := cn, na
			r.Case(fmt.Sprintf("crowd/%s/%s/%d", what, cn, na), func(c *Case) { f(c, cn, na) })
		}
	}
	for _, na := range []int{32, 33, 48} {
		na := na
		r.Case(fmt.Sprintf("throng/%s/%d", what, na), func(c *Case) { f(c, throngCfg, na) })
	}
}

func c03crowd(c *Case, cn string, na, nb int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	L := s.P.MaxLevel()
	for _, l := range [][2]int{{L, L}, {L, 1}, {0, L}} {
		a, b := mk(x, namesOf(cn)[:na], 1, l[0], 1), mk(x, namesOf(cn)[len(namesOf(cn))-nb:], 7, l[1], 1)
		ws := []*V{x.Add(a, b), x.Sub(b, a)}
		for _, w := range ws {
			x.Check(c, w)
		}
		exactSum(c, x, a, b, ws[0], 1)
		exactSum(c, x, b, a, ws[1], -1)
	}
	c.Trace()
}

func c04crowd(c *Case, cn string, na, nb int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	ks := mkrlwe.NewKeySwitcher(s.P.Parameters)
	L := s.P.MaxLevel()
	for _, l := range [][2]int{{L, L}, {1, L}} {
		a, b := mk(x, namesOf(cn)[:na], 1, l[0], 1), mk(x, namesOf(cn)[len(namesOf(cn))-nb:], 7, l[1], 1)
		x.Check(c, x.Mul(a, b))
		x.Check(c, x.MulHoisted(b, a, 3))
		x.Check(c, x.MulHoisted(b, a, 1))
		x.Check(c, mulDirect(x, ks, a, b, false))
		x.Check(c, x.Mul(a, a))
	}
	c.Trace()
}

func c06crowd(c *Case, cn string, na int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	for l := 0; l <= s.P.MaxLevel(); l++ {
		a := mk(x, namesOf(cn)[:na], 1, l, 1)
		for _, r := range []int{1, 3, -1, s.Cfg.N()/2 - 1} {
			x.Check(c, x.Rotate(a, r))
		}
		x.Check(c, x.RotateHoisted(a, 2))
	}
	c.Trace()
}

func c07crowd(c *Case, cn string, na int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	for l := 0; l <= s.P.MaxLevel(); l++ {
		a := mk(x, namesOf(cn)[:na], 1, l, 1)
		b := x.Conj(a)
		x.Check(c, b)
		x.Check(c, x.Conj(b))
	}
	c.Trace()
}

// c05crowd: plaintext and constant products, rescaling and level drops.
func c05crowd(c *Case, cn string, na int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	for l := 0; l <= s.P.MaxLevel(); l++ {
		a := mk(x, namesOf(cn)[:na], 1, l, 1)
		for _, k := range []interface{}{-3, 0.375, complex(0.5, -2)} {
			x.Check(c, x.MultByConst(a, k))
		}
		if l > 0 {
			x.Check(c, x.MulPtxt(a, Vec(s.Cfg.Slots(), 3)))
		}
	}
	c.Trace()
}

// c11crowd: with many participants, every single missing key and every single
// foreign key prevents decryption; contributions in rotated and reversed order.
func c11crowd(c *Case, cn string, na int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	sub := namesOf(cn)[:na]
	for l := 0; l <= s.P.MaxLevel(); l += 1 + s.P.MaxLevel()/2 {
		v := mk(x, sub, 1, l, 1)
		x.Check(c, v)
		for miss := 0; miss < na; miss++ {
			k := only(s, sub...)
			k.DelSecretKey(sub[miss])
			if p, _ := Panics(func() { x.Dec.Decrypt(v.Ct, k) }); !p {
				c.Failf("Decrypt returns a message although the key of %q is missing", sub[miss])
			}
			f := s.SK[namesOf(cn)[(miss+1)%len(namesOf(cn))]].CopyNew()
			f.ID = sub[miss]
			k.AddSecretKey(f)
			if e, _ := MaxErr(x.Dec.Decrypt(v.Ct, k).Value, v.S); e < 0.5 {
				c.Failf("a foreign key in place of the one of %q decrypts", sub[miss])
			}
			c.Tr(2)
		}
		ref := x.Phase(v.Ct, x.SK)
		for start := 0; start < na; start++ {
			for _, dir := range []int{1, -1} {
				t := deepCt(v.Ct)
				for i := 0; i < na; i++ {
					id := sub[((start+dir*i)%na+na)%na]
					x.Dec.PartialDecrypt(t, s.SK[id])
					c.Tr(1)
					if t.IDSet().Has(id) || t.IDSet().Size() != na-1-i {
						c.Failf("participants after the contribution of %q: %v", id, t.IDSet().Value)
					}
				}
				if !BigEqMod(x.Phase(t, x.SK), ref, s.BigQ(v.Level)) {
					c.Failf("distributed decryption differs from joint decryption")
				}
				c.Trace()
			}
		}
	}
}

// c02crowd: encryption and decryption for every name.
func c02crowd(c *Case, cn string, na int) {
	s := crowdSys(cn)
	Reseed(c.ID)
	x := s.Ctx()
	id := namesOf(cn)[na-1]
	v := x.Encrypt(id, Vec(s.Cfg.Slots(), na))
	x.Check(c, v)
	x.Compare(c, v, x.Dec.Decrypt(v.Ct, only(s, id)).Value, "own key: ")
	for _, other := range namesOf(cn) {
		if other == id {
			continue
		}
		if p, _ := Panics(func() { x.Dec.Decrypt(v.Ct, only(s, other)) }); !p {
			c.Failf("the key of %q decrypts a message to %q", other, id)
		}
		w := x.EncryptExpand(id, []string{id, other}, Vec(s.Cfg.Slots(), na))
		x.Check(c, w)
		c.Tr(1)
	}
	x.Check(c, x.EncryptExpand(id, namesOf(cn), Vec(s.Cfg.Slots(), na)))
	c.Trace()
}

// bigCfgs are rings of production size (the programs use N=2^15).
var bigCfgs = []string{"n12", "n13s", "n15"}

// bigCases runs f on the large rings: two parties, all levels.
func bigCases(r *Run, f func(c *Case, x *Ctx, a, b *V)) {
	for _, cn := range bigCfgs {
		cn := cn
		r.Case("big/"+cn, func(c *Case) {
			s := CachedSys(cn, []string{"a", "b"})
			Reseed(c.ID)
			x := s.Ctx()
			n := s.Cfg.Slots()
			f(c, x, x.Encrypt("a", Vec(n, 1)), x.Encrypt("b", Vec(n, 2)))
			c.Trace()
		})
	}
}

func c03big(c *Case, x *Ctx, a, b *V) {
	for d := 0; d <= a.Level; d++ {
		e := x.Drop(b, d)
		for _, w := range []*V{x.Add(a, e), x.Sub(a, e), x.Add(e, a), x.Sub(e, a), x.Add(e, e)} {
			x.Check(c, w)
		}
		exactSum(c, x, a, e, x.Sub(a, e), -1)
	}
}

func c04big(c *Case, x *Ctx, a, b *V) {
	ks := mkrlwe.NewKeySwitcher(x.P.Parameters)
	for d := 0; d < a.Level; d++ {
		e := x.Drop(b, d)
		w := x.Mul(a, e)
		x.Check(c, w)
		x.Check(c, x.MulHoisted(e, a, 3))
		x.Check(c, x.Mul(e, e))
		x.Check(c, mulDirect(x, ks, a, e, false))
		if w.Level > 0 {
			x.Check(c, x.Mul(w, a))
		}
	}
}

func c05big(c *Case, x *Ctx, a, b *V) {
	s := x.Add(a, b)
	for d := 0; d <= a.Level; d++ {
		e := x.Drop(s, d)
		for _, k := range []interface{}{-3, 0.375, complex(0.5, -2), complex(0, 1)} {
			x.Check(c, x.MultByConst(e, k))
		}
		if e.Level > 0 {
			x.Check(c, x.MulPtxt(e, Vec(x.Cfg.Slots(), 3)))
		}
	}
}

func c06big(c *Case, x *Ctx, a, b *V) {
	s := x.Add(a, b)
	h := x.Cfg.N() / 2
	for d := 0; d <= a.Level; d++ {
		e := x.Drop(s, d)
		for _, r := range []int{1, h / 2, -1, 1000, h - 3, h, -h - 5} {
			x.Check(c, x.Rotate(e, r))
		}
		x.Check(c, x.RotateHoisted(e, 64))
	}
}

func c07big(c *Case, x *Ctx, a, b *V) {
	s := x.Add(a, b)
	for d := 0; d <= a.Level; d++ {
		e := x.Conj(x.Drop(s, d))
		x.Check(c, e)
		x.Check(c, x.Conj(e))
	}
}

func c08big(c *Case, x *Ctx, a, b *V) {
	s := x.Add(a, b)
	q := x.P.RingQ().Modulus
	for d := 0; d < a.Level; d++ {
		e := x.Drop(s, d)
		x.Check(c, e)
		for n := 0; n < e.Level; n++ {
			f := 1.0
			for k := 0; k <= n; k++ {
				f *= float64(q[e.Level-k])
			}
			v := scaled(x, e, f)
			if !x.Fits(v) {
				continue
			}
			w, err := x.RescaleNew(v, x.P.Scale())
			if err != nil {
				c.Failf("RescaleNew: %v", err)
			}
			x.Check(c, w)
		}
	}
}

func c11big(c *Case, x *Ctx, a, b *V) {
	s := x.Add(a, b)
	for d := 0; d <= a.Level; d++ {
		e := x.Drop(s, d)
		x.Check(c, e)
		for _, id := range []string{"a", "b"} {
			if p, _ := Panics(func() { x.Dec.Decrypt(e.Ct, only(x.Sys, id)) }); !p {
				c.Failf("Decrypt returns with the key of %q only", id)
			}
			t := deepCt(e.Ct)
			x.Dec.PartialDecrypt(t, x.SK[id])
			if er, _ := MaxErr(c0Decode(x, t), e.S); er < 0.5 {
				c.Failf("the contribution of %q alone reveals the value", id)
			}
			x.Compare(c, e, x.Dec.Decrypt(t, x.SKS).Value, "after one contribution: ")
		}
	}
}
