package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

var smallCfgs = []string{"n4a1", "n5a2", "n5sp", "n4a3", "n4p5", "n4lr", "n4a2", "n4s0", "n4s1"}

// long chains, wide and mixed moduli, large digits.
var wideCfgs = []string{"n4w3", "n4mix", "n4a5", "n4a8", "n4p32", "n4w"}

// alphabet of messages: linear maps are decided by the basis, plus generic,
// extreme and degenerate vectors.
func alphabet(cfg Cfg, full bool) (names []string, msgs [][]complex128) {
	n := cfg.Slots()
	add := func(s string, v []complex128) { names = append(names, s); msgs = append(msgs, v) }
	add("zero", Const(n, 0))
	add("gen1", Vec(n, 1))
	add("gen2", Vec(n, 2))
	add("one", Const(n, 1))
	add("neg-i", Const(n, -1i))
	alt := Const(n, 1)
	for i := range alt {
		if i%2 == 1 {
			alt[i] = -1
		}
	}
	add("alt", alt)
	add("tiny", Const(n, complex(1e-7, -1e-7)))
	add("big", Const(n, complex(3000, -2500)))
	if full {
		for j := 0; j < n; j++ {
			add(fmt.Sprintf("e%d", j), Basis(n, j, 1))
			add(fmt.Sprintf("ie%d", j), Basis(n, j, -0.5i))
		}
	}
	return
}

func init() {
	reg(&Prop{ID: "C02",
		Rule:  "for every parameter shape, party, message of the alphabet (all basis vectors in both axes, generic, extreme, zero), entry point (new, expanded to every participant set, into a ciphertext of every level, encode-then-encrypt at every level and three scales, generic layer with every plaintext level, ciphertext level and output level in each transform-domain combination): encrypt, decrypt with exactly the needed keys, with extra keys, and compare; messages of every length up to the slot count; sequences of two encryptions and decryptions of different levels on one encryptor/decryptor",
		Bound: "17 parameter shapes with N=16..64 and 4096 (chains of up to 34 moduli, 32 special primes, digits of up to 8 moduli, mixed widths), up to 5 party names; thorough adds N=64..8192; 20 parties with confusable names on 2 shapes",
		Fn: func(r *Run) {
			crowdOne(r, "names", c02crowd)
			cl := smallCfgs
			if r.Thorough {
				cl = append(append([]string{}, cl...), "n6a1", "n7a2", "n12", "n13s")
			} else {
				cl = append(append([]string{}, cl...), "n6a1", "n12")
			}
			cl = append(cl, wideCfgs...)
			for _, cn := range cl {
				cfg := GetCfg(cn)
				idl := AllIDs
				if cfg.LogN > 7 || len(cfg.LogQ) > 8 {
					idl = AllIDs[:2]
				}
				names, msgs := alphabet(cfg, cfg.LogN <= 6 && len(cfg.LogQ) <= 12)
				for _, id := range idl {
					for mi := range msgs {
						cn, id, mi := cn, id, mi
						r.Case(fmt.Sprintf("%s/%q/%s", cn, id, names[mi]), func(c *Case) { c02case(c, cn, idl, id, msgs[mi]) })
					}
				}
				cn := cn
				r.Case(cn+"/short", func(c *Case) { c02short(c, cn, idl[:2]) })
				for _, id := range idl {
					id := id
					r.Case(fmt.Sprintf("%s/%q/pairs", cn, id), func(c *Case) { c02pairs(c, cn, idl, id) })
				}
			}
		}})
}

func only(s *Sys, idl ...string) *mkrlwe.SecretKeySet {
	k := mkrlwe.NewSecretKeySet()
	for _, id := range idl {
		k.AddSecretKey(s.SK[id])
	}
	return k
}

func c02case(c *Case, cn string, idl []string, id string, m []complex128) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	// new ciphertext
	c.Step("EncryptMsgNew")
	v := x.Encrypt(id, m)
	if x.Check(c, v) {
		x.Compare(c, v, x.Dec.Decrypt(v.Ct, only(s, id)).Value, "own key: ")
	}
	// the encryption is a ciphertext at the top level with the default scale
	if v.Ct.Level() != s.P.MaxLevel() || v.Ct.Scale != s.P.Scale() {
		c.Failf("fresh ciphertext: level %d scale %g", v.Ct.Level(), v.Ct.Scale)
	}
	// expanded to every participant set containing id
	for _, sub := range Subsets(idl[:minInt(4, len(idl))], 1) {
		if !SetOf(sub)[id] {
			continue
		}
		c.Step(fmt.Sprintf("EncryptMsgNewExpand %q", sub))
		w := x.EncryptExpand(id, sub, m)
		if x.Check(c, w) {
			x.Compare(c, w, x.Dec.Decrypt(w.Ct, only(s, sub...)).Value, "needed keys: ")
		}
		for o, p := range w.Ct.Value {
			if o != "0" && o != id && Inf(s.Centered(p)).Sign() != 0 {
				c.Failf("expanded encryption: component of uninvolved %q is not zero", o)
			}
		}
		c.Back()
	}
	// into an existing ciphertext of several participants, fresh or holding
	// another encryption, at every combination of levels
	encd := ckks.NewEncoder(s.CK)
	for _, sub := range Subsets(idl[:minInt(3, len(idl))], 2) {
		if !SetOf(sub)[id] {
			continue
		}
		for l := 0; l <= s.P.MaxLevel(); l++ {
			for _, pl := range []int{l, s.P.MaxLevel(), 0} {
				for _, dirty := range []bool{false, true} {
					c.Step(fmt.Sprintf("EncryptPtxt pt@%d into %q @%d dirty=%v", pl, sub, l, dirty))
					pt := ckks.NewPlaintext(s.CK, pl, s.P.Scale())
					encd.Encode(pt, append([]complex128(nil), m...), s.Cfg.LogSlots)
					w := *v
					w.Level = minInt(l, pl)
					w.Desc = "EncryptPtxt into a joint ciphertext"
					w.IDs = SetOf(sub)
					w.Ct = mkckks.NewCiphertext(s.P, IDSet(sub), l, 1)
					if dirty {
						for _, o := range sub {
							// every component used before
							x.Enc.EncryptMsg(Msg(Vec(s.Cfg.Slots(), 7)), s.PK[o], w.Ct)
						}
						w.Ct = x.Ev.AddNew(w.Ct, x.Drop(mk(x, sub, 8, s.P.MaxLevel(), 1), s.P.MaxLevel()-l).Ct)
					}
					x.Enc.EncryptPtxt(pt, s.PK[id], w.Ct)
					x.Check(c, &w)
					c.Back()
				}
			}
		}
	}
	// into a ciphertext of every level
	for l := 0; l <= s.P.MaxLevel(); l++ {
		c.Step(fmt.Sprintf("EncryptMsg level %d", l))
		w := *v
		w.Desc = fmt.Sprintf("EncryptMsg@%d", l)
		w.Level = l
		w.Ct = mkckks.NewCiphertext(s.P, IDSet([]string{id}), l, 1)
		x.Enc.EncryptMsg(Msg(m), s.PK[id], w.Ct)
		x.Check(c, &w)
		// and re-used as the target of a second encryption
		x.Enc.EncryptMsg(Msg(Vec(cfgOf(x).Slots(), 5)), s.PK[id], w.Ct)
		w2 := w
		w2.S = Vec(cfgOf(x).Slots(), 5)
		w2.Desc = "re-" + w.Desc
		x.Check(c, &w2)
		c.Back()
	}
	// encode at every level and scale, encrypt the plaintext
	for l := 0; l <= s.P.MaxLevel(); l++ {
		for _, f := range []float64{1, 0.25, 3} {
			pt := ckks.NewPlaintext(s.CK, l, s.P.Scale()*f)
			encd.Encode(pt, append([]complex128(nil), m...), s.Cfg.LogSlots)
			for _, cl := range []int{l, s.P.MaxLevel(), 0} {
				c.Step(fmt.Sprintf("EncryptPtxt pt@%d*%g ct@%d", l, f, cl))
				w := *v
				w.Level = minInt(l, cl)
				w.Scale = s.P.Scale() * f
				w.Desc = "EncryptPtxt"
				w.E = v.E
				w.Ct = mkckks.NewCiphertext(s.P, IDSet([]string{id}), cl, 1)
				x.Enc.EncryptPtxt(pt, s.PK[id], w.Ct)
				x.Check(c, &w)
				c.Back()
			}
		}
	}
	// EncodeMsgNew: the plaintext carries the message
	pt := x.Enc.EncodeMsgNew(Msg(m))
	if pt.Scale != s.P.Scale() || pt.Level() != s.P.MaxLevel() {
		c.Failf("EncodeMsgNew: scale %g level %d", pt.Scale, pt.Level())
	}
	got := encd.Decode(pt, s.Cfg.LogSlots)
	e, at := MaxErr(got, m)
	if e > 4*float64(s.Cfg.N())/s.P.Scale()+maxAbs(m)*1e-11 {
		c.Failf("EncodeMsgNew: slot %d is %v, want %v", at, got[at], m[at])
	}
	c.Tr(1)
	// generic layer, each domain
	c02generic(c, x, id, m, v)
	c.Trace()
	c.Sample("%s", c.ID)
}

// c02short: a message of fewer values than slots is padded with zeros, whatever
// was encrypted before.
func c02short(c *Case, cn string, idl []string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	n := s.Cfg.Slots()
	step := 1
	if n > 64 {
		step = n/16 - 1
	}
	for k := 0; k <= n; k += step {
		for _, order := range []int{0, 1} {
			for i, id := range idl {
				full := Vec(n, 3)
				m := append([]complex128(nil), Vec(n, 4)[:k]...)
				want := make([]complex128, n)
				copy(want, m)
				c.Step(fmt.Sprintf("message of %d of %d values, order %d", k, n, order))
				var a *V
				if order == 0 {
					a = x.Encrypt(id, full)
				}
				w := *x.Encrypt(id, want)
				w.Desc = fmt.Sprintf("short message of %d values", k)
				w.Ct = x.Enc.EncryptMsgNew(&mkckks.Message{Value: append([]complex128(nil), m...)}, s.PK[id])
				if order == 1 {
					a = x.Encrypt(id, full)
				}
				x.Check(c, &w)
				x.Check(c, a)
				x.Check(c, &w)
				// as a plaintext factor
				if i == 0 && s.P.MaxLevel() > 0 {
					v := x.MulPtxtModel(a, want, s.P.Scale(), "short factor")
					v.Ct = x.Ev.MulPtxtNew(a.Ct, x.Enc.EncodeMsgNew(&mkckks.Message{Value: append([]complex128(nil), m...)}))
					x.Check(c, v)
				}
				c.Back()
			}
		}
	}
	c.Trace()
}

func cfgOf(x *Ctx) Cfg { return x.Cfg }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxAbs(v []complex128) float64 {
	m := 0.0
	for _, z := range v {
		m = math.Max(m, math.Hypot(real(z), imag(z)))
	}
	return m
}

// c02generic drives the ring layer directly: plaintext and ciphertext in or out
// of the transform domain, every level.
func c02generic(c *Case, x *Ctx, id string, m []complex128, v *V) {
	s := x.Sys
	rq := s.P.RingQ()
	enc := mkrlwe.NewEncryptor(s.P.Parameters)
	dec := mkrlwe.NewDecryptor(s.P.Parameters)
	encd := ckks.NewEncoder(s.CK)
	max := s.P.MaxLevel()
	for pl := max; pl >= 0; pl-- {
		for cl := max; cl >= 0; cl-- {
			if pl != cl && pl != max && cl != max && max > 5 {
				continue
			}
			for mode := 0; mode < 4; mode++ {
				ctNTT, ptNTT := mode&1 != 0, mode&2 != 0
				l := minInt(pl, cl)
				c.Step(fmt.Sprintf("generic plaintext level %d (NTT %v), ciphertext level %d (NTT %v)", pl, ptNTT, cl, ctNTT))
				pt := ckks.NewPlaintext(s.CK, pl, s.P.Scale())
				encd.Encode(pt, append([]complex128(nil), m...), s.Cfg.LogSlots)
				if ptNTT {
					rq.NTTLvl(pl, pt.Value, pt.Value)
					pt.Value.IsNTT = true
				}
				var ct *mkrlwe.Ciphertext
				if ctNTT {
					ct = mkrlwe.NewCiphertextNTT(s.P.Parameters, IDSet([]string{id}), cl)
				} else {
					ct = mkrlwe.NewCiphertext(s.P.Parameters, IDSet([]string{id}), cl)
				}
				fpt := Fp(pt.Value)
				enc.Encrypt(&rlwe.Plaintext{Value: pt.Value}, s.PK[id], ct)
				if Fp(pt.Value) != fpt {
					c.Failf("Encrypt changed its input")
				}
				if ct.Level() != l || len(ct.Value[id].Coeffs) != l+1 || ct.Value[id].IsNTT != ctNTT || ct.Value["0"].IsNTT != ctNTT {
					c.Failf("generic encryption: level %d, domain flags %v/%v, want level %d, %v", ct.Level(), ct.Value["0"].IsNTT, ct.Value[id].IsNTT, l, ctNTT)
				}
				fp := Fp(ct)
				ref := polyOf(rq, l, pt, ptNTT)
				for ol := 0; ol <= max; ol++ {
					if ol != l && ol != max && ol != 0 && max > 5 {
						continue
					}
					for _, outNTT := range []bool{false, true} {
						k := minInt(l, ol)
						out := rlwe.NewPlaintext(s.P.Parameters.Parameters, ol)
						out.Value.IsNTT = outNTT
						dec.Decrypt(ct, only(s, id), out)
						if Fp(ct) != fp {
							c.Failf("Decrypt changed its input")
						}
						if out.Level() != k || out.Value.IsNTT != outNTT {
							c.Failf("decryption into a plaintext of level %d: level %d (NTT %v), want %d (NTT %v)", ol, out.Level(), out.Value.IsNTT, k, outNTT)
						}
						if outNTT {
							rq.InvNTTLvl(k, out.Value, out.Value)
						}
						diff := rq.NewPolyLvl(k)
						rq.SubLvl(k, out.Value, ref, diff)
						if e := Inf(s.Centered(diff)); !e.IsInt64() || float64(e.Int64()) > 2*float64(s.Cfg.B())*(2*float64(rq.N)+1) {
							c.Failf("decryption into a plaintext of level %d (NTT %v): error %v exceeds the noise bound", ol, outNTT, e)
						}
						c.Tr(1)
					}
				}
				c.Back()
			}
		}
	}
}

func polyOf(rq *ring.Ring, l int, pt *ckks.Plaintext, ntt bool) *ring.Poly {
	p := rq.NewPolyLvl(l)
	if ntt {
		rq.InvNTTLvl(l, pt.Value, p)
	} else {
		ring.CopyValuesLvl(l, pt.Value, p)
	}
	return p
}

// c02pairs: all ordered pairs of (level, magnitude) decrypted one after the
// other with one decryptor, and encrypted one after the other with one encryptor.
func c02pairs(c *Case, cn string, idl []string, id string) {
	s := CachedSys(cn, idl)
	Reseed(c.ID)
	x := s.Ctx()
	n := s.Cfg.Slots()
	var vs []*V
	for l := 0; l <= s.P.MaxLevel(); l++ {
		mags := []float64{1, 0}
		if l > 0 {
			mags = append(mags, math.Exp2(25))
		}
		for _, mg := range mags {
			m := Vec(n, 3+l)
			for i := range m {
				m[i] *= complex(mg, 0)
			}
			v := x.Encrypt(id, m)
			if l < s.P.MaxLevel() {
				v = x.Drop(v, s.P.MaxLevel()-l)
			}
			vs = append(vs, v)
		}
	}
	for i, a := range vs {
		for j, b := range vs {
			c.Step(fmt.Sprintf("decrypt #%d then #%d", i, j))
			d := s.Ctx()
			d.Check(c, a)
			d.Check(c, b)
			d.Check(c, a)
			c.Back()
		}
	}
	c.Trace()
}
