package props

import (
	"fmt"
	"math"

	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C06",
		Rule:  "every rotation index in [-N, 2N] and indices at +-2^31, +-2^40 and both ends of the range of int x every level x participant set, direct (key exists), composed from powers of two, with additional precomputed indices, with the keys for that index alone, and from the hoisted form; the generic layer into used outputs of every lower level; every ordered pair of rotations composes to the sum; all basis vectors; key generation by negative index; oracle: cleartext left rotation of the slots",
		Bound: "N=16 (all indices, all pairs), N=32 dense and sparse, 11 shapes (chains of up to 34 moduli); thorough adds N=64, 128; groups of 1 to 20 parties with confusable names on 2 shapes and of up to 48 on 60-bit moduli; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c06big)
			crowdOne(r, "rot", c06crowd)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4a3", "n4p5", "n4s0", "n4s1", "n4a5", "n4mix", "n4w3", "n4w"}
			if r.Thorough {
				cl = append(cl, "n6a1", "n7a2", "n4lr")
			} else {
				cl = append(cl, "n6a1")
			}
			idl := []string{"a", "user1", ""}
			for _, cn := range cl {
				cfg := GetCfg(cn)
				N := cfg.N()
				for i, sa := range Subsets(idl, 1) {
					for l := 0; l < len(cfg.LogQ); l++ {
						for _, extra := range [][]int{nil, {3, N/2 - 1, 5}} {
							if cfg.LogN > 5 && (i > 2 || l == 1) {
								continue
							}
							cn, sa, l, extra := cn, sa, l, extra
							r.Case(fmt.Sprintf("%s/%d/%d/x%d", cn, i, l, len(extra)), func(c *Case) { c06case(c, cn, idl, sa, l, extra) })
						}
					}
				}
				cn := cn
				r.Case(cn+"/basis", func(c *Case) { c06basis(c, cn, idl) })
				r.Case(cn+"/onlykey", func(c *Case) { c06only(c, cn, idl, []int{3, N/2 - 1, 5}) })
				r.Case(cn+"/keygen", func(c *Case) { c06keygen(c, cn) })
				if cfg.LogN <= 5 {
					for k := 0; k < N/2; k++ {
						k := k
						r.Case(fmt.Sprintf("%s/pairs/%d", cn, k), func(c *Case) { c06pairs(c, cn, idl, k) })
					}
				}
			}
		}})
}

func hasKey(s *Sys, r int) bool {
	h := s.Cfg.N() / 2
	r = ((r % h) + h) % h
	for _, k := range s.RotIdx {
		if k == r {
			return true
		}
	}
	return r == 0
}

func c06case(c *Case, cn string, idl, sa []string, l int, extra []int) {
	s := CachedSys(cn, idl, extra...)
	Reseed(c.ID)
	x := s.Ctx()
	N := s.Cfg.N()
	a := mk(x, sa, 1, l, 1)
	h := x.Ev.HoistedForm(a.Ct)
	for r := -N; r <= 2*N; r++ {
		c.Step(fmt.Sprintf("rotate %q@%d by %d", sa, l, r))
		x.Check(c, x.Rotate(a, r))
		if hasKey(s, r) {
			v := x.RotModel(a, r, 1, fmt.Sprintf("rotH%d", r))
			v.Ct = x.Ev.RotateHoistedNew(a.Ct, r, h, x.RTS)
			x.Check(c, v)
		} else if p, _ := Panics(func() { x.Ev.RotateHoistedNew(a.Ct, r, h, x.RTS) }); !p {
			c.Failf("hoisted rotation by %d has no precomputed key but returned a result", r)
		}
		c.Back()
	}
	ks := mkrlwe.NewKeySwitcher(s.P.Parameters)
	for _, r := range s.RotIdx {
		for _, g := range []int{r, r - N/2, r - N<<36} {
			generic(c, x, a, fmt.Sprintf("rotation by %d", g), func(b *V) *V { return x.RotModel(b, r, 1, "generic") },
				func(o *mkrlwe.Ciphertext) { ks.Rotate(a.Ct.Ciphertext, g, x.RTS, o) })
			generic(c, x, a, fmt.Sprintf("hoisted rotation by %d", g), func(b *V) *V { return x.RotModel(b, r, 1, "generic") },
				func(o *mkrlwe.Ciphertext) { ks.RotateHoisted(a.Ct.Ciphertext, g, h, x.RTS, o) })
		}
	}
	// indices far beyond the number of slots
	far := []int{1000*N + 3, -1000*N - 3, 1<<20 + 5, -(1 << 20) - 5, 12345677, -12345677}
	// beyond 32 bits, and the ends of the range of indices
	far = append(far, 1<<31+5, -(1<<31)-5, 1<<40+3, -(1<<40)-3, math.MaxInt64, math.MinInt64, math.MinInt64+1)
	for _, r := range far {
		c.Step(fmt.Sprintf("rotate %q@%d by %d", sa, l, r))
		x.Check(c, x.Rotate(a, r))
		if hasKey(s, r) {
			v := x.RotModel(a, r, 1, fmt.Sprintf("rotH%d", r))
			v.Ct = x.Ev.RotateHoistedNew(a.Ct, r, h, x.RTS)
			x.Check(c, v)
		}
		c.Back()
	}
	c.Trace()
	c.Sample("all rotations of %q level %d extra %v", sa, l, extra)
}

// c06only: a rotation for which every participant has a key needs no other key.
func c06only(c *Case, cn string, idl []string, extra []int) {
	s := CachedSys(cn, idl, extra...)
	h := s.Cfg.N() / 2
	for _, sa := range Subsets(idl, 1) {
		for l := 0; l < len(s.Cfg.LogQ); l++ {
			for ki, k := range s.RotIdx {
				Reseed(fmt.Sprint(c.ID, sa, l, k))
				x := s.Ctx()
				x.RTS = mkrlwe.NewRotationKeySet()
				for _, id := range sa {
					x.RTS.AddRotationKey(s.RTK[id][ki])
				}
				a := mk(x, sa, 1, l, 1)
				for _, g := range []int{k, k - h, k + 2*h} {
					c.Step(fmt.Sprintf("only the keys for %d, rotate %q@%d by %d", k, sa, l, g))
					x.Check(c, x.Rotate(a, g))
					v := x.RotModel(a, g, 1, fmt.Sprintf("rotH%d", g))
					v.Ct = x.Ev.RotateHoistedNew(a.Ct, g, x.Ev.HoistedForm(a.Ct), x.RTS)
					x.Check(c, v)
					c.Back()
				}
				c.State(fmt.Sprint("only", cn, sa, l, k))
			}
		}
	}
	c.Trace()
}

func c06basis(c *Case, cn string, idl []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	n := s.Cfg.Slots()
	for j := 0; j < n; j++ {
		for _, z := range []complex128{1, 1i} {
			a := x.Encrypt("user1", Basis(n, j, z))
			for r := 0; r < n; r++ {
				x.Check(c, x.Rotate(a, r))
			}
		}
	}
	c.Trace()
}

func c06pairs(c *Case, cn string, idl []string, k int) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	h := s.Cfg.N() / 2
	a := x.Shared(idl, 1)
	b := x.Rotate(a, k)
	for q := -h + 1; q < h; q++ {
		w := x.Rotate(b, q)
		x.Check(c, w)
	}
	// back to the start
	w := x.Rotate(b, -k)
	w.S = a.S
	x.Check(c, w)
	c.Trace()
}

// c06keygen: rotation keys generated by a negative index serve the equivalent
// positive rotation.
func c06keygen(c *Case, cn string) {
	s := CachedSys(cn, []string{"a"})
	Reseed(c.ID)
	x := s.Ctx()
	h := s.Cfg.N() / 2
	a := x.Encrypt("a", Vec(s.Cfg.Slots(), 1))
	for _, r := range s.RotIdx {
		for _, g := range []int{r, r - h, r - 2*h, r - h<<36} {
			c.Step(fmt.Sprintf("GenRotationKey(%d)", g))
			k := s.KG.GenRotationKey(g, s.SK["a"])
			if k.ID != "a" || int(k.RotIdx) != r {
				c.Failf("key generated for %d is labelled (%q,%d)", g, k.ID, k.RotIdx)
			}
			x.RTS.AddRotationKey(k)
			x.Check(c, x.Rotate(a, r))
			x.Check(c, x.Rotate(a, g))
			c.Back()
		}
	}
	// default generation covers every rotation
	y := s.Ctx()
	y.NewSets(nil)
	y.SKS.AddSecretKey(s.SK["a"])
	s.KG.GenDefaultRotationKeys(s.SK["a"], y.RTS)
	for r := 0; r < h; r++ {
		y.Check(c, y.Rotate(a, r))
	}
	c.Trace()
}
