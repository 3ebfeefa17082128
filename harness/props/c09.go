package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

type polyT = ring.Poly

func init() {
	reg(&Prop{ID: "C09",
		Rule:  "every operation of the public API (one instance per operand shape: disjoint/overlapping/equal parties, aliased operands, different levels and scales, hoisted inputs, refused calls and the results and errors they return) is executed with content fingerprints of all operands, keys, CRS, plaintexts, messages and hoisted forms taken before and after; every produced object is overwritten and the inputs re-fingerprinted, every input is overwritten and the product re-fingerprinted; every ordered pair (op1, op2) on one evaluator checks that op2 does not change what op1 returned",
		Bound: "about 160 operation instances, all ordered pairs; 12 parameter shapes (thorough: 15)",
		Fn: func(r *Run) {
			cl := append(append([]string{}, smallCfgs...), "n4w3", "n4mix", "n4a5")
			if r.Thorough {
				cl = append(append([]string{}, cl...), "n6a1", "n7a2", "n5lr")
			}
			for _, cn := range cl {
				ops := worldOps(GetCfg(cn))
				for i := range ops {
					cn, i := cn, i
					r.Case(cn+"/"+ops[i].name, func(c *Case) { c09case(c, cn, ops, i) })
				}
				cn := cn
				r.Case(cn+"/keys", func(c *Case) { c09keys(c, cn) })
				r.Case(cn+"/inplace", func(c *Case) { c09inplace(c, cn) })
				r.Case(cn+"/refused", func(c *Case) { c09refused(c, cn) })
			}
		}})
}

func c09case(c *Case, cn string, ops []op, i int) {
	idl := []string{"a", "user1", "00"}
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	w0 := newWorld(x)
	o := ops[i]
	c.Step(o.name)
	exec := func(w *world) (res []interface{}) {
		p, val := Panics(func() { res = o.run(x, w) })
		if p && !o.refuses {
			panic(fmt.Sprintf("%s: %v", o.name, val))
		}
		c.Tr(1)
		return
	}
	// inputs and keys unchanged
	w := w0.clone()
	all := func(w *world) [32]byte {
		var l []interface{}
		for _, k := range []string{"A", "B", "AB", "BC0", "C2", "ABC", "A~"} {
			l = append(l, w.v[k].Ct)
		}
		return Fp(append(l, w.pt, w.msg, w.h["A"], w.h["AB"], w.h["ABC"])...)
	}
	b, kb := all(w), keyFp(x)
	res := exec(w)
	if all(w) != b {
		c.Failf("%s changes one of its operands", o.name)
	}
	if keyFp(x) != kb {
		c.Failf("%s changes key material, the CRS or a key set", o.name)
	}
	// overwriting the result leaves the inputs and keys alone
	for _, q := range res {
		scribble(q)
	}
	if all(w) != b {
		c.Failf("the result of %s shares memory with an operand", o.name)
	}
	if keyFp(x) != kb {
		c.Failf("the result of %s shares memory with key material or the CRS", o.name)
	}
	// overwriting the inputs leaves the result alone
	w = w0.clone()
	res = exec(w)
	if len(res) > 0 {
		f := Fp(res...)
		for _, v := range w.v {
			ScribbleCt(v.Ct)
		}
		for k := range w.msg.Value {
			w.msg.Value[k] = 7
		}
		if Fp(res...) != f {
			c.Failf("the result of %s follows later changes of an operand", o.name)
		}
		// no later operation on the same objects changes the result
		w = w0.clone()
		res = exec(w)
		f = Fp(res...)
		for _, o2 := range ops {
			c.Step(o2.name)
			Panics(func() { o2.run(x, w) })
			c.Tr(1)
			if Fp(res...) != f {
				c.Failf("a later %s changes the earlier result of %s", o2.name, o.name)
			}
			c.Trace()
			c.Back()
		}
	}
	c.State(cn + o.name)
	c.Outcome(o.name)
	c.Sample("%s: operands, keys, CRS unchanged; result independent", o.name)
}

// c09keys: generated keys share no memory with each other, the CRS or their
// source, and generating one leaves all others unchanged.
func c09keys(c *Case, cn string) {
	Reseed(c.ID)
	s := NewSys(GetCfg(cn), []string{"a", "user1"}, nil)
	kg := s.KG
	sk := s.SK["a"]
	r := kg.GenSecretKey("a")
	type gen struct {
		name string
		f    func() (interface{}, func())
	}
	swk := func(k *mkrlwe.SwitchingKey) {
		for i := range k.Value {
			ScribblePoly(k.Value[i].Q)
			ScribblePoly(k.Value[i].P)
		}
	}
	scSK := func(k *mkrlwe.SecretKey) func() {
		return func() { ScribblePoly(k.Value.Q); ScribblePoly(k.Value.P); k.ID = "zz" }
	}
	scPK := func(k *mkrlwe.PublicKey) func() {
		return func() {
			for i := 0; i < 2; i++ {
				ScribblePoly(k.Value[i].Q)
				ScribblePoly(k.Value[i].P)
			}
			k.ID = "zz"
		}
	}
	gens := []gen{
		{"GenSecretKey", func() (interface{}, func()) { k := kg.GenSecretKey("q"); return k, scSK(k) }},
		{"GenSecretKeyGaussian", func() (interface{}, func()) { k := kg.GenSecretKeyGaussian("q"); return k, scSK(k) }},
		{"GenSecretKeySparse", func() (interface{}, func()) { k := kg.GenSecretKeySparse(4, "q"); return k, scSK(k) }},
		{"SecretKey.CopyNew", func() (interface{}, func()) { k := sk.CopyNew(); return k, scSK(k) }},
		{"GenPublicKey", func() (interface{}, func()) { k := kg.GenPublicKey(sk); return k, scPK(k) }},
		{"PublicKey.CopyNew", func() (interface{}, func()) { k := s.PK["a"].CopyNew(); return k, scPK(k) }},
		{"GenRelinearizationKey", func() (interface{}, func()) {
			k := kg.GenRelinearizationKey(sk, r)
			return k, func() { swk(k.Value[0]); swk(k.Value[1]); swk(k.Value[2]) }
		}},
		{"GenRotationKey", func() (interface{}, func()) { k := kg.GenRotationKey(1, sk); return k, func() { swk(k.Value) } }},
		{"GenRotationKey2", func() (interface{}, func()) { k := kg.GenRotationKey(2, sk); return k, func() { swk(k.Value) } }},
		{"GenConjugationKey", func() (interface{}, func()) { k := kg.GenConjugationKey(sk); return k, func() { swk(k.Value) } }},
		{"GenSwitchingKey", func() (interface{}, func()) {
			k := mkrlwe.NewSwitchingKey(s.P.Parameters)
			kg.GenSwitchingKey(sk, k)
			return k, func() { swk(k) }
		}},
		{"GenDefaultRotationKeys", func() (interface{}, func()) {
			k := mkrlwe.NewRotationKeySet()
			kg.GenDefaultRotationKeys(sk, k)
			return k, func() {
				for _, m := range k.Value {
					for _, q := range m {
						swk(q.Value)
					}
				}
			}
		}},
	}
	fp := func() [32]byte { return Fp(s.SK, s.PK, s.RLK, s.RTK, s.CJK, s.P.CRS, r) }
	b := fp()
	for _, g := range gens {
		c.Step(g.name)
		k, sc := g.f()
		f := Fp(k)
		if fp() != b {
			c.Failf("%s changes existing keys or the CRS", g.name)
		}
		for _, g2 := range gens {
			c.Step(g2.name)
			g2.f()
			c.Tr(1)
			if Fp(k) != f {
				c.Failf("a later %s changes a key made by %s", g2.name, g.name)
			}
			if fp() != b {
				c.Failf("%s after %s changes existing keys or the CRS", g2.name, g.name)
			}
			c.Back()
			c.Trace()
		}
		sc()
		if fp() != b {
			c.Failf("a key made by %s shares memory with existing keys or the CRS", g.name)
		}
		c.State(cn + "keys" + g.name)
		c.Back()
	}
}

// c09inplace: operations that write into a given ciphertext change that one
// only.
func c09inplace(c *Case, cn string) {
	idl := []string{"a", "user1", "00"}
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	w := newWorld(x)
	names := []string{"A", "B", "AB", "BC0", "C2", "ABC", "A~"}
	type ip struct {
		name string
		f    func(ct *mkckks.Ciphertext)
	}
	ops := []ip{
		{"DropLevel", func(ct *mkckks.Ciphertext) {
			if ct.Level() > 0 {
				x.Ev.DropLevel(ct, 1)
			}
		}},
		{"Rescale", func(ct *mkckks.Ciphertext) { x.Ev.Rescale(ct, 1, ct) }},
		{"MultByConst", func(ct *mkckks.Ciphertext) { x.Ev.MultByConst(ct, 5, ct) }},
		{"MultByConst i", func(ct *mkckks.Ciphertext) { x.Ev.MultByConst(ct, complex(1, 2), ct) }},
		{"PadCiphertext", func(ct *mkckks.Ciphertext) { ct.PadCiphertext(IDSet(idl)) }},
		{"SetScalingFactor", func(ct *mkckks.Ciphertext) { ct.SetScalingFactor(9) }},
		{"PartialDecrypt", func(ct *mkckks.Ciphertext) {
			for id := range ct.IDSet().Value {
				x.Dec.PartialDecrypt(ct, x.SK[id])
			}
		}},
	}
	kb := keyFp(x)
	for _, n := range names {
		for _, o := range ops {
			for _, how := range []string{"CopyNew", "DropLevelNew(0)", "RotateNew(0)", "AddNew"} {
				c.Step(fmt.Sprintf("%s of %s(%s)", o.name, how, n))
				src := deepCt(w.v[n].Ct)
				f := Fp(src)
				var cp *mkckks.Ciphertext
				switch how {
				case "CopyNew":
					cp = src.CopyNew()
				case "DropLevelNew(0)":
					cp = x.Ev.DropLevelNew(src, 0)
				case "RotateNew(0)":
					cp = x.Ev.RotateNew(src, 0, x.RTS)
				default:
					cp = x.Ev.AddNew(src, src)
				}
				o.f(cp)
				c.Tr(1)
				if Fp(src) != f {
					c.Failf("%s on the result of %s changes the original", o.name, how)
				}
				if keyFp(x) != kb {
					c.Failf("%s changes keys or the CRS", o.name)
				}
				c.Trace()
				c.Back()
			}
		}
	}
	// Copy into another ciphertext is deep
	for _, n := range names {
		src := deepCt(w.v[n].Ct)
		dst := mkckks.NewCiphertext(x.P, src.IDSet(), src.Level(), src.Scale)
		dst.Ciphertext.Copy(src.Ciphertext)
		if m := x.CtEq(src, dst); m != "" {
			c.Failf("Copy(%s): %s", n, m)
		}
		f := Fp(src)
		ScribbleCt(dst)
		if Fp(src) != f {
			c.Failf("Copy(%s) shares memory", n)
		}
	}
}

// c09refused: participant sets handed to an encryption, and operations that
// report an error, leave their operands alone and return nothing of them.
func c09refused(c *Case, cn string) {
	idl := []string{"a", "user1", "00"}
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	n := s.Cfg.Slots()
	for _, id := range idl {
		for _, set := range Subsets(idl, 0) {
			c.Step(fmt.Sprintf("encrypt for %q into %q", id, set))
			ids, m := IDSet(set), Msg(Vec(n, 3))
			f, k := Fp(ids), keyFp(x)
			var ct *mkckks.Ciphertext
			Panics(func() { ct = x.Enc.EncryptMsgNewExpand(m, x.PK[id], ids) })
			if Fp(ids) != f || keyFp(x) != k {
				c.Failf("EncryptMsgNewExpand changes the participant set or a key")
			}
			if ct != nil {
				fc := Fp(ct)
				ids.Add("later")
				delete(ids.Value, id)
				if Fp(ct) != fc {
					c.Failf("the ciphertext follows later changes of the participant set")
				}
			}
			c.Tr(1)
			c.Back()
		}
	}
	for _, set := range Subsets(idl, 1) {
		for l := 0; l <= s.P.MaxLevel(); l++ {
			for _, bad := range []string{"scale", "minimum", "negative minimum", "level"} {
				if bad == "level" && l > 0 {
					continue
				}
				a := mk(x, set, 1, l, 1).Ct
				ms := s.P.Scale()
				switch bad {
				case "scale":
					a.Scale = 0
				case "minimum":
					ms = 0
				case "negative minimum":
					ms = -1
				}
				c.Step(fmt.Sprintf("RescaleNew of %q at level %d, invalid %s", set, l, bad))
				f := Fp(a)
				o, err := x.Ev.RescaleNew(a, ms)
				if err == nil {
					c.Failf("no error")
				}
				if Fp(a) != f {
					c.Failf("a refused RescaleNew changes its operand")
				}
				if o != nil {
					scribble(o)
					if Fp(a) != f {
						c.Failf("what a refused RescaleNew returns shares memory with the operand")
					}
				}
				c.Tr(1)
				c.Back()
			}
		}
	}
	c.Trace()
	c.State(cn + "refused")
}
