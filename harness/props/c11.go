package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C11",
		Rule:  "for ciphertexts with every participant set (fresh, sums, products, rotations, expanded, at every level): Decrypt with every subset of the parties' keys (both layers), with a foreign key under a participant's name, and PartialDecrypt in every order of every subset; oracle: returns the reference value iff all participants' keys are present and refuses (panics) otherwise, the phase after partial decryption is order independent and exact, and c0 of a ciphertext with a participant outstanding does not decode to the value",
		Bound: "4 parties (all 15 sets, all 16 key subsets, all orders), 5 parameter shapes; thorough: 5 parties, 8 shapes; groups of 1 to 20 parties with confusable names on 2 shapes and of up to 48 on 60-bit moduli; two parties on rings of degree 2^12, 2^13 and 2^15",
		Fn: func(r *Run) {
			bigCases(r, c11big)
			crowdOne(r, "keys", c11crowd)
			cl := []string{"n4a1", "n5a2", "n5sp", "n4w3", "n4mix"}
			idl := []string{"a", "user1", "00", ""}
			if r.Thorough {
				cl = smallCfgs
				idl = AllIDs
			}
			for _, cn := range cl {
				L := len(GetCfg(cn).LogQ) - 1
				for i, sub := range Subsets(idl, 1) {
					for l := 0; l <= L; l++ {
						for _, kind := range []string{"sum", "expand", "prod", "rot", "ptmul"} {
							if (kind == "prod" || kind == "ptmul") && l == 0 {
								continue
							}
							cn, sub, l, kind := cn, sub, l, kind
							r.Case(fmt.Sprintf("%s/%d/%d/%s", cn, i, l, kind), func(c *Case) { c11case(c, cn, idl, sub, l, kind) })
						}
					}
				}
			}
		}})
}

func c11make(x *Ctx, sub []string, l int, kind string) *V {
	n := x.Cfg.Slots()
	base := mk(x, sub, 1, l, 1)
	switch kind {
	case "sum":
		return base
	case "expand":
		e := x.EncryptExpand(sub[0], sub, Vec(n, 2))
		return x.Drop(e, e.Level-l)
	case "prod":
		return x.Mul(base, mk(x, sub[:1], 5, l, 1))
	case "rot":
		return x.Rotate(base, 3)
	default:
		return x.MulPtxt(base, Vec(n, 6))
	}
}

func c11case(c *Case, cn string, idl, sub []string, l int, kind string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	v := c11make(x, sub, l, kind)
	x.Check(c, v)
	tol := x.Tol(v)
	mask := 1e3 * tol
	if mask < 0.5 {
		mask = 0.5
	}
	ref := x.Phase(v.Ct, x.SK)
	// every key subset, through both layers
	for _, ks := range Subsets(idl, 0) {
		c.Step(fmt.Sprintf("Decrypt(%s of %q) with keys %q", kind, sub, ks))
		has := SetOf(ks)
		need := true
		for _, id := range sub {
			need = need && has[id]
		}
		var got []complex128
		p, _ := Panics(func() { got = x.Dec.Decrypt(v.Ct, only(s, ks...)).Value })
		c.Tr(1)
		if need && p {
			c.Failf("Decrypt refuses although every participant's key is present")
		}
		if !need && !p {
			c.Failf("Decrypt returns a message although a participant's key is missing")
		}
		if need {
			x.Compare(c, v, got, "")
		}
		pt := rlwe.NewPlaintext(s.P.Parameters.Parameters, s.P.MaxLevel())
		p, _ = Panics(func() { x.Dec.Decryptor.Decrypt(v.Ct.Ciphertext, only(s, ks...), pt) })
		c.Tr(1)
		if p == need {
			c.Failf("generic Decrypt: refused=%v with all keys present=%v", p, need)
		}
		if need && !BigEqMod(s.Centered(pt.Value), ref, s.BigQ(v.Level)) {
			c.Failf("generic Decrypt is not c0 + sum c_i s_i")
		}
		c.State(fmt.Sprintf("%s|%q|%q|%d|%s", cn, sub, ks, l, kind))
		c.Trace()
		c.Back()
	}
	// a foreign key under a participant's name must not open it
	for _, id := range sub {
		if kind == "expand" && id != sub[0] {
			continue
		}
		for _, other := range idl {
			if other == id {
				continue
			}
			c.Step(fmt.Sprintf("key of %q presented as %q", other, id))
			k := only(s, sub...)
			f := s.SK[other].CopyNew()
			f.ID = id
			k.AddSecretKey(f)
			got := x.Dec.Decrypt(v.Ct, k).Value
			c.Tr(1)
			if e, _ := MaxErr(got, v.S); e < mask {
				c.Failf("a foreign key decrypts the ciphertext (error %.3g)", e)
			}
			c.Back()
		}
	}
	// every order of partial decryption
	perms := Perms(sub)
	for _, pm := range perms {
		t := deepCt(v.Ct)
		left := SetOf(sub)
		for i, id := range pm {
			c.Step(fmt.Sprintf("PartialDecrypt %q", pm[:i+1]))
			x.Dec.PartialDecrypt(t, s.SK[id])
			c.Tr(1)
			delete(left, id)
			if !SameIDs(t.IDSet(), left) {
				c.Failf("participants after partial decryption: %v", t.IDSet().Value)
			}
			if t.Level() != v.Level || t.Scale != v.Ct.Scale {
				c.Failf("partial decryption changes level or scale")
			}
			if !BigEqMod(x.Phase(t, x.SK), ref, s.BigQ(v.Level)) {
				c.Failf("partial decryption changes the value the remaining parties would obtain")
			}
			if len(left) > 0 {
				if p, _ := Panics(func() { x.Dec.Decrypt(t, mkrlwe.NewSecretKeySet()) }); !p {
					c.Failf("Decrypt without keys returns although %d parties are outstanding", len(left))
				}
				involved := kind != "expand" || left[sub[0]]
				if involved && maxAbs(v.S) > 0.01 {
					e, _ := MaxErr(c0Decode(x, t), v.S)
					if e < mask {
						c.Failf("c0 reveals the message although parties %v are outstanding (error %.3g)", left, e)
					}
				}
				// the remaining keys finish the job
				rest := mkrlwe.NewSecretKeySet()
				for id := range left {
					rest.AddSecretKey(s.SK[id])
				}
				x.Compare(c, v, x.Dec.Decrypt(t, rest).Value, "partial then full: ")
			}
			c.Back()
		}
		x.Compare(c, v, x.Dec.Decrypt(t, mkrlwe.NewSecretKeySet()).Value, "all partial: ")
		c.Trace()
	}
	// a party that is not a participant cannot change the outcome
	for _, id := range idl {
		if v.IDs[id] {
			continue
		}
		t := deepCt(v.Ct)
		Panics(func() { x.Dec.PartialDecrypt(t, s.SK[id]) })
		c.Tr(1)
		if m := x.CtEq(t, v.Ct); m != "" {
			c.Failf("PartialDecrypt by the uninvolved %q changes the ciphertext: %s", id, m)
		}
	}
	c.Outcome(fmt.Sprintf("%s %d", kind, len(sub)))
	c.Sample("%s of %q at level %d: 16 key subsets, %d orders", kind, sub, l, len(perms))
}

// c0Decode decodes c0 as if it were the plaintext.
func c0Decode(x *Ctx, ct *mkckks.Ciphertext) []complex128 {
	t := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": deepCt(ct).Value["0"]}}, Scale: ct.Scale}
	return x.Dec.Decrypt(t, mkrlwe.NewSecretKeySet()).Value
}
