package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// world is a fixed pool of operands; op is one public operation on it.
type world struct {
	v   map[string]*V
	pt  *ckks.Plaintext
	msg *mkckks.Message
	h   map[string]*mkrlwe.HoistedCiphertext
}

// op runs one public operation; ins lists what it was given (besides keys),
// run returns the produced objects (pointers). random: consumes entropy, so
// its result is not a function of its inputs. refuses: must not return.
type op struct {
	name    string
	ins     func(w *world) []interface{}
	run     func(x *Ctx, w *world) []interface{}
	random  bool
	refuses bool
	val     int // random: the encrypted vector when it is not the world's message
}

func newWorld(x *Ctx) *world { return newWorldV(x, 0) }

// newWorldV builds variant v of the world: 0 is the world the probes see, 1 has
// the same shapes and other contents, 2 other contents with A, B, C2 one level
// lower and ABC one higher.
func newWorldV(x *Ctx, variant int) *world {
	n := x.Cfg.Slots()
	L := x.P.MaxLevel()
	top, mid := L, 1
	if variant == 2 && L >= 2 {
		top, mid = L-1, 2
	}
	q := 20 * variant
	a, b, d := x.IDs[0], x.IDs[1], x.IDs[2]
	w := &world{v: map[string]*V{}, h: map[string]*mkrlwe.HoistedCiphertext{}}
	w.v["A"] = mk(x, []string{a}, q+1, top, 1)
	w.v["B"] = mk(x, []string{b}, q+2, top, 1)
	w.v["AB"] = mk(x, []string{a, b}, q+3, L-1, 1)
	w.v["BC0"] = mk(x, []string{b, d}, q+5, 0, 1)
	w.v["C2"] = mk(x, []string{d}, q+7, top, 4)
	w.v["ABC"] = mk(x, []string{a, b, d}, q+8, mid, 1)
	w.v["A~"] = mk(x, []string{a}, q+9, L, 0.4)
	w.pt = x.Encode(Vec(n, q+11))
	w.msg = Msg(Vec(n, q+12))
	for _, k := range []string{"A", "AB", "ABC"} {
		w.h[k] = x.Ev.HoistedForm(w.v[k].Ct)
	}
	return w
}

// clone copies the world so that in-place operations do not leak between runs
// (library independent deep copy).
func (w *world) clone() *world {
	o := &world{v: map[string]*V{}, h: map[string]*mkrlwe.HoistedCiphertext{}}
	for k, v := range w.v {
		u := *v
		u.Ct = deepCt(v.Ct)
		o.v[k] = &u
	}
	pt := *w.pt
	v := *w.pt.Plaintext
	v.Value = deepPoly(w.pt.Value)
	pt.Plaintext = &v
	o.pt = &pt
	o.msg = Msg(append([]complex128(nil), w.msg.Value...))
	for k, h := range w.h {
		g := &mkrlwe.HoistedCiphertext{Value: map[string]*mkrlwe.SwitchingKey{}}
		for id, d := range h.Value {
			e := new(mkrlwe.SwitchingKey)
			for i := range d.Value {
				e.Value = append(e.Value, rlwe.PolyQP{Q: deepPoly(d.Value[i].Q), P: deepPoly(d.Value[i].P)})
			}
			g.Value[id] = e
		}
		o.h[k] = g
	}
	return o
}

// become gives every object of w the contents of its counterpart in src, in
// place: the same ciphertext, polynomial, plaintext, message and hoisted
// objects (and, where the shapes agree, the same rows) hold other contents.
func (w *world) become(src *world) {
	src = src.clone()
	for k, v := range w.v {
		ct, s := v.Ct, src.v[k].Ct
		*v = *src.v[k]
		v.Ct = ct
		ct.Scale = s.Scale
		for id, p := range s.Value {
			if ct.Value[id] == nil {
				ct.Value[id] = p
			} else {
				refill(ct.Value[id], p)
			}
		}
		for id := range ct.Value {
			if s.Value[id] == nil {
				delete(ct.Value, id)
			}
		}
	}
	w.pt.Scale = src.pt.Scale
	refill(w.pt.Value, src.pt.Value)
	copy(w.msg.Value, src.msg.Value)
	for k, h := range w.h {
		for id, d := range src.h[k].Value {
			e := h.Value[id]
			if e == nil || len(e.Value) != len(d.Value) {
				h.Value[id] = d
				continue
			}
			for i := range d.Value {
				refill(e.Value[i].Q, d.Value[i].Q)
				refill(e.Value[i].P, d.Value[i].P)
			}
		}
	}
}

func refill(dst, src *polyT) {
	dst.IsNTT = src.IsNTT
	if len(dst.Coeffs) > len(src.Coeffs) {
		dst.Coeffs = dst.Coeffs[:len(src.Coeffs)]
	}
	for i, row := range src.Coeffs {
		if i < len(dst.Coeffs) {
			copy(dst.Coeffs[i], row)
		} else {
			dst.Coeffs = append(dst.Coeffs, row)
		}
	}
}

func deepPoly(p *polyT) *polyT {
	q := &polyT{IsNTT: p.IsNTT}
	for _, row := range p.Coeffs {
		q.Coeffs = append(q.Coeffs, append([]uint64(nil), row...))
	}
	return q
}

func outs(o ...interface{}) []interface{} { return o }

func worldOps(cfg Cfg) []op {
	var l []op
	in := func(k ...string) func(w *world) []interface{} {
		return func(w *world) []interface{} {
			var r []interface{}
			for _, n := range k {
				r = append(r, w.v[n].Ct)
			}
			return append(r, w.pt, w.msg)
		}
	}
	bin := func(a, b string) {
		l = append(l,
			op{name: "add(" + a + "," + b + ")", ins: in(a, b), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.AddNew(w.v[a].Ct, w.v[b].Ct)) }},
			op{name: "sub(" + a + "," + b + ")", ins: in(a, b), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.SubNew(w.v[a].Ct, w.v[b].Ct)) }})
	}
	mul := func(a, b string) {
		l = append(l, op{name: "mul(" + a + "," + b + ")", ins: in(a, b), run: func(x *Ctx, w *world) []interface{} {
			return outs(x.Ev.MulRelinNew(w.v[a].Ct, w.v[b].Ct, x.RLS))
		}})
	}
	bin("A", "B")
	bin("AB", "BC0")
	bin("C2", "A")
	bin("A", "A")
	bin("A~", "ABC")
	bin("ABC", "C2")
	bin("C2", "ABC")
	bin("A", "C2")
	mul("A", "B")
	mul("AB", "AB")
	mul("ABC", "A")
	mul("A", "A")
	mul("BC0", "A")
	mul("A", "ABC")
	mul("AB", "BC0")
	mulH := func(a, b, ha, hb string) {
		l = append(l, op{name: fmt.Sprintf("mulH(%s,%s,%s,%s)", a, b, ha, hb),
			ins: func(w *world) []interface{} { return append(in(a, b)(w), w.h["A"], w.h["AB"], w.h["ABC"]) },
			run: func(x *Ctx, w *world) []interface{} {
				var p, q *mkrlwe.HoistedCiphertext
				if ha != "" {
					p = w.h[ha]
				}
				if hb != "" {
					q = w.h[hb]
				}
				return outs(x.Ev.MulRelinHoistedNew(w.v[a].Ct, w.v[b].Ct, p, q, x.RLS))
			}})
	}
	mulH("AB", "AB", "AB", "AB")
	mulH("A", "ABC", "A", "ABC")
	mulH("A", "B", "A", "")
	mulH("B", "AB", "", "AB")
	mulH("B", "A", "", "")
	for _, a := range []string{"A", "AB", "BC0", "C2"} {
		a := a
		l = append(l, op{name: "mulPt(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.MulPtxtNew(w.v[a].Ct, w.pt)) }})
	}
	for _, a := range []string{"A", "ABC"} {
		for _, k := range []interface{}{-3, 0.375, complex(2, -1), complex(0.5, 0.25), 0, 1} {
			a, k := a, k
			l = append(l, op{name: fmt.Sprintf("const[%v](%s)", k, a), ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := mkckks.NewCiphertext(x.P, w.v[a].Ct.IDSet(), w.v[a].Ct.Level(), 1)
				x.Ev.MultByConst(w.v[a].Ct, k, o)
				return outs(o)
			}})
		}
	}
	for _, a := range []string{"A", "ABC", "BC0"} {
		for _, r := range []int{0, 1, 3, -1, cfg.N() / 2, 2} {
			a, r := a, r
			l = append(l, op{name: fmt.Sprintf("rot%d(%s)", r, a), ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.RotateNew(w.v[a].Ct, r, x.RTS)) }})
		}
	}
	for _, a := range []string{"A", "ABC"} {
		for _, r := range []int{0, 2, 1} {
			a, r := a, r
			l = append(l, op{name: fmt.Sprintf("rotH%d(%s)", r, a),
				ins: func(w *world) []interface{} { return append(in(a)(w), w.h[a]) },
				run: func(x *Ctx, w *world) []interface{} {
					return outs(x.Ev.RotateHoistedNew(w.v[a].Ct, r, w.h[a], x.RTS))
				}})
		}
		a := a
		l = append(l, op{name: "hoist(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.HoistedForm(w.v[a].Ct)) }})
	}
	for _, a := range []string{"A", "ABC", "BC0"} {
		a := a
		l = append(l,
			op{name: "conj(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.ConjugateNew(w.v[a].Ct, x.CJS)) }},
			op{name: "copy(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(w.v[a].Ct.CopyNew()) }},
			op{name: "copyG(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(w.v[a].Ct.Ciphertext.CopyNew()) }},
			op{name: "drop0(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.DropLevelNew(w.v[a].Ct, 0)) }},
			op{name: "idset(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(w.v[a].Ct.IDSet()) }},
			op{name: "dec(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Dec.Decrypt(w.v[a].Ct, x.SKS)) }},
			op{name: "decG(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				p := rlwe.NewPlaintext(x.P.Parameters.Parameters, x.P.MaxLevel())
				x.Dec.Decryptor.Decrypt(w.v[a].Ct.Ciphertext, x.SKS, p)
				return outs(p)
			}},
			op{name: "pdec(copy " + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				t := deepCt(w.v[a].Ct)
				for id := range t.IDSet().Value {
					x.Dec.PartialDecrypt(t, x.SK[id])
				}
				return outs(t)
			}})
	}
	for _, a := range []string{"A", "C2", "ABC"} {
		for _, f := range []float64{1, 1.0 / (1 << 20), 1.0 / (1 << 38)} {
			a, f := a, f
			l = append(l, op{name: fmt.Sprintf("rescale[%g](%s)", f, a), ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o, err := x.Ev.RescaleNew(w.v[a].Ct, w.v[a].Ct.Scale*f)
				if err != nil {
					panic(err)
				}
				return outs(o)
			}})
		}
		a := a
		l = append(l, op{name: "drop1(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} { return outs(x.Ev.DropLevelNew(w.v[a].Ct, 1)) }})
	}
	// operations that write into a given output (here: copies of world objects)
	for _, a := range []string{"A", "AB", "BC0", "ABC"} {
		a := a
		for _, k := range []interface{}{int64(-3), 0.375, complex(0.5, -2)} {
			k := k
			l = append(l, op{name: fmt.Sprintf("const![%v](%s)", k, a), ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := deepCt(w.v[a].Ct)
				x.Ev.MultByConst(o, k, o)
				return outs(o)
			}})
		}
		l = append(l,
			op{name: "const dirty(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := x.Ev.AddNew(w.v[a].Ct, w.v[a].Ct)
				x.Ev.MultByConst(w.v[a].Ct, complex(1, 1), o)
				return outs(o)
			}},
			op{name: "drop!(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := deepCt(w.v[a].Ct)
				x.Ev.DropLevel(o, o.Level())
				return outs(o)
			}},
			op{name: "pad(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := deepCt(w.v[a].Ct)
				o.PadCiphertext(IDSet(x.IDs))
				return outs(o)
			}},
			op{name: "idset(" + a + ",copy)", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				s := w.v[a].Ct.IDSet()
				return outs(s.CopyNew(), s.Union(IDSet(x.IDs[:1])), s.Intersection(IDSet(x.IDs[1:])))
			}})
		if a != "BC0" {
			l = append(l, op{name: "rescale!(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := deepCt(w.v[a].Ct)
				if err := x.Ev.Rescale(o, 2, o); err != nil {
					panic(err)
				}
				return outs(o)
			}}, op{name: "rescale>(" + a + ")", ins: in(a), run: func(x *Ctx, w *world) []interface{} {
				o := mkckks.NewCiphertext(x.P, w.v[a].Ct.IDSet(), w.v[a].Ct.Level(), 3)
				if err := x.Ev.Rescale(w.v[a].Ct, w.v[a].Ct.Scale, o); err != nil {
					panic(err)
				}
				return outs(o)
			}})
		}
	}
	for _, fail := range []string{"min0", "scale0", "level0"} {
		fail := fail
		l = append(l, op{name: "rescale error " + fail, ins: in("A", "BC0"), run: func(x *Ctx, w *world) []interface{} {
			o, ms := deepCt(w.v["A"].Ct), 1.0
			switch fail {
			case "min0":
				ms = 0
			case "scale0":
				o.Scale = 0
			case "level0":
				o = deepCt(w.v["BC0"].Ct)
			}
			if x.Ev.Rescale(o, ms, o) == nil {
				panic("no error")
			}
			return outs(o)
		}})
	}
	// entropy consuming
	for _, lv := range []int{0, 1} {
		lv := lv
		l = append(l,
			op{name: fmt.Sprintf("encMsg@%d", lv), random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
				o := mkckks.NewCiphertext(x.P, IDSet([]string{x.IDs[1]}), lv, 1)
				x.Enc.EncryptMsg(w.msg, x.PK[x.IDs[1]], o)
				return outs(o)
			}},
			op{name: fmt.Sprintf("encPt(pt@%d)", lv), val: 11, random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
				p := ckks.NewPlaintext(x.CK, lv, w.pt.Scale)
				for i := range p.Value.Coeffs {
					copy(p.Value.Coeffs[i], w.pt.Value.Coeffs[i])
				}
				p.Value.IsNTT = w.pt.Value.IsNTT
				o := mkckks.NewCiphertext(x.P, IDSet(x.IDs[:2]), x.P.MaxLevel(), 1)
				x.Enc.EncryptPtxt(p, x.PK[x.IDs[0]], o)
				return outs(o)
			}},
			op{name: fmt.Sprintf("encGeneric ntt @%d", lv), val: 11, random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
				ct := mkrlwe.NewCiphertextNTT(x.P.Parameters, IDSet(x.IDs[:1]), lv)
				x.Enc.Encryptor.Encrypt(&rlwe.Plaintext{Value: w.pt.Value}, x.PK[x.IDs[0]], ct)
				for _, p := range ct.Value {
					x.P.RingQ().InvNTTLvl(lv, p, p)
					p.IsNTT = false
				}
				return outs(&mkckks.Ciphertext{Ciphertext: ct, Scale: w.pt.Scale})
			}})
	}
	l = append(l,
		op{name: "enc other", val: 13, random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
			return outs(x.Enc.EncryptMsgNew(Msg(Vec(x.Cfg.Slots(), 13)), x.PK[x.IDs[2]]))
		}},
		op{name: "encMsg over a used ciphertext", random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
			o := deepCt(w.v["ABC"].Ct)
			x.Enc.EncryptMsg(w.msg, x.PK[x.IDs[1]], o)
			return outs(o)
		}},
		op{name: "encode other", ins: in(), run: func(x *Ctx, w *world) []interface{} {
			return outs(x.Enc.EncodeMsgNew(Msg(Vec(x.Cfg.Slots(), 14))))
		}},
		op{name: "enc", random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} { return outs(x.Enc.EncryptMsgNew(w.msg, x.PK[x.IDs[0]])) }},
		op{name: "encExpand", random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
			return outs(x.Enc.EncryptMsgNewExpand(w.msg, x.PK[x.IDs[1]], IDSet(x.IDs)))
		}},
		op{name: "encPt@0", val: 11, random: true, ins: in(), run: func(x *Ctx, w *world) []interface{} {
			o := mkckks.NewCiphertext(x.P, IDSet([]string{x.IDs[2]}), 0, 1)
			x.Enc.EncryptPtxt(w.pt, x.PK[x.IDs[2]], o)
			return outs(o)
		}},
		op{name: "encode", ins: in(), run: func(x *Ctx, w *world) []interface{} { return outs(x.Enc.EncodeMsgNew(w.msg)) }},
	)
	// refused operations
	miss := func(name string, f func(x *Ctx, w *world)) {
		l = append(l, op{name: name, refuses: true, ins: in("A", "B", "AB", "ABC", "BC0"), run: func(x *Ctx, w *world) []interface{} { f(x, w); return nil }})
	}
	miss("mul without a's key", func(x *Ctx, w *world) {
		s := mkrlwe.NewRelinearizationKeyKeySet(x.P.Parameters)
		s.AddRelinearizationKey(x.RLK[x.IDs[1]])
		x.Ev.MulRelinNew(w.v["B"].Ct, w.v["AB"].Ct, s)
	})
	miss("mul with no keys", func(x *Ctx, w *world) {
		x.Ev.MulRelinHoistedNew(w.v["ABC"].Ct, w.v["ABC"].Ct, w.h["ABC"], w.h["ABC"], mkrlwe.NewRelinearizationKeyKeySet(x.P.Parameters))
	})
	miss("rot without keys", func(x *Ctx, w *world) { x.Ev.RotateNew(w.v["AB"].Ct, 3, mkrlwe.NewRotationKeySet()) })
	miss("rot without one key", func(x *Ctx, w *world) {
		s := mkrlwe.NewRotationKeySet()
		for _, k := range x.RTK[x.IDs[0]] {
			s.AddRotationKey(k)
		}
		x.Ev.RotateNew(w.v["ABC"].Ct, 1, s)
	})
	miss("rotH without CRS", func(x *Ctx, w *world) { x.Ev.RotateHoistedNew(w.v["A"].Ct, 3, w.h["A"], x.RTS) })
	miss("conj without one key", func(x *Ctx, w *world) {
		s := mkrlwe.NewConjugationKeySet()
		s.AddConjugationKey(x.CJK[x.IDs[0]])
		x.Ev.ConjugateNew(w.v["AB"].Ct, s)
	})
	miss("dec without one key", func(x *Ctx, w *world) { x.Dec.Decrypt(w.v["BC0"].Ct, only(x.Sys, x.IDs[1])) })
	miss("enc for an absent party", func(x *Ctx, w *world) {
		x.Enc.EncryptMsgNewExpand(w.msg, x.PK[x.IDs[0]], IDSet([]string{x.IDs[1]}))
	})
	return l
}

// deepCt copies a ciphertext without using the library's own copy functions.
func deepCt(ct *mkckks.Ciphertext) *mkckks.Ciphertext {
	o := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*polyT{}}, Scale: ct.Scale}
	for id, p := range ct.Value {
		o.Value[id] = deepPoly(p)
	}
	return o
}

// keyFp fingerprints all key material and parameters an operation may read.
func keyFp(x *Ctx) [32]byte {
	return Fp(x.SK, x.PK, x.RLK, x.RTK, x.CJK, x.P.CRS, x.SKS.Value, x.RLS.Value, x.RTS.Value, x.CJS.Value,
		x.P.RingQ().Modulus, x.P.RingP().Modulus, x.P.Scale())
}

// scribble overwrites everything reachable from an operation's result.
func scribble(o interface{}) {
	switch t := o.(type) {
	case *mkckks.Ciphertext:
		ScribbleCt(t)
		for id := range t.Value {
			delete(t.Value, id)
		}
	case *mkrlwe.Ciphertext:
		for id, p := range t.Value {
			ScribblePoly(p)
			delete(t.Value, id)
		}
	case *mkrlwe.HoistedCiphertext:
		for id, k := range t.Value {
			for i := range k.Value {
				ScribblePoly(k.Value[i].Q)
				ScribblePoly(k.Value[i].P)
			}
			delete(t.Value, id)
		}
	case *mkckks.Message:
		for i := range t.Value {
			t.Value[i] = 42
		}
	case *rlwe.Plaintext:
		ScribblePoly(t.Value)
	case *ckks.Plaintext:
		ScribblePoly(t.Value)
	case *mkrlwe.IDSet:
		for k := range t.Value {
			delete(t.Value, k)
		}
		t.Value["zz"] = struct{}{}
	default:
		panic(fmt.Sprintf("scribble %T", o))
	}
}
