package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// concOps: the world's operations, key generation, key sets, construction.
func concOps(c *Case, cfg Cfg) []op {
	l := worldOps(cfg)
	none := func(w *world) []interface{} { return nil }
	l = append(l,
		op{name: "hoist and use", ins: none, run: func(x *Ctx, w *world) []interface{} {
			h := x.Ev.HoistedForm(w.v["AB"].Ct)
			return outs(x.Ev.MulRelinHoistedNew(w.v["AB"].Ct, w.v["ABC"].Ct, h, nil, x.RLS), x.Ev.RotateHoistedNew(w.v["AB"].Ct, 2, h, x.RTS))
		}},
		op{name: "new evaluator", ins: none, run: func(x *Ctx, w *world) []interface{} {
			return outs(mkckks.NewEvaluator(x.P).RotateNew(w.v["AB"].Ct, 3, x.RTS))
		}},
		op{name: "new decryptor", ins: none, run: func(x *Ctx, w *world) []interface{} {
			return outs(mkckks.NewDecryptor(x.P).Decrypt(w.v["AB"].Ct, x.SKS))
		}},
		op{name: "new encryptor", random: true, ins: none, run: func(x *Ctx, w *world) []interface{} {
			return outs(mkckks.NewEncryptor(x.P).EncryptMsgNew(w.msg, x.PK[x.IDs[1]]))
		}},
		op{name: "new key sets", ins: none, run: func(x *Ctx, w *world) []interface{} {
			y := &Ctx{Sys: x.Sys, Ev: x.Ev, Dec: x.Dec, Enc: x.Enc}
			y.NewSets(x.IDs)
			y.RLS.DelRelinearizationKey(x.IDs[0])
			y.RTS.DelRotationKey(x.IDs[1], 1)
			y.CJS.DelConjugationKey(x.IDs[2])
			y.SKS.DelSecretKey(x.IDs[0])
			return outs(y.Ev.MulRelinNew(w.v["B"].Ct, w.v["C2"].Ct, y.RLS), y.Ev.RotateNew(w.v["AB"].Ct, 2, y.RTS), y.Ev.ConjugateNew(w.v["AB"].Ct, y.CJS), y.Dec.Decrypt(w.v["BC0"].Ct, y.SKS))
		}},
		op{name: "other session", random: true, ins: none, run: func(x *Ctx, w *world) []interface{} {
			// a session with parameters of its own; its result is translated
			P := mkckks.NewParameters(x.CK)
			kg := mkckks.NewKeyGenerator(P)
			sk, pk := kg.GenKeyPair(x.IDs[0])
			ks := mkrlwe.NewSecretKeySet()
			ks.AddSecretKey(sk)
			m := mkckks.NewDecryptor(P).Decrypt(mkckks.NewEncryptor(P).EncryptMsgNew(w.msg, pk), ks)
			return outs(x.Enc.EncryptMsgNew(m, x.PK[x.IDs[0]]))
		}},
	)
	l = append(l, op{name: "basis extension", ins: none, run: func(x *Ctx, w *world) []interface{} {
		rq, rp := x.P.RingQ(), x.P.RingP()
		lq, lp := x.P.MaxLevel(), x.P.PCount()-1
		a, ap, o1, o2 := rq.NewPoly(), rp.NewPoly(), rq.NewPoly(), rp.NewPoly()
		src := w.v["ABC"].Ct.Value["0"]
		for i := range src.Coeffs {
			copy(a.Coeffs[i], src.Coeffs[i])
		}
		x.BE.ModUpQtoP(len(src.Coeffs)-1, lp, a, ap)
		x.BE.ModDownQPtoQ(lq, lp, a, ap, o1)
		x.BE.ModDownQPtoP(lq, lp, a, ap, o2)
		for i := range o2.Coeffs { // normalised here, norm knows the other moduli only
			for j := range o2.Coeffs[i] {
				o2.Coeffs[i][j] %= rp.Modulus[i]
			}
		}
		o3 := rq.NewPoly()
		x.BE.ModDownQPtoQNTT(lq, lp, a, ap, o3)
		return outs(&rlwe.Plaintext{Value: o1}, o2.Coeffs, &rlwe.Plaintext{Value: o3})
	}})
	for o := 0; o < nKeyOps; o++ {
		if o == 5 {
			continue
		}
		o := o
		l = append(l, op{name: fmt.Sprintf("key generation %d", o), ins: none, run: func(x *Ctx, w *world) []interface{} {
			kg := mkckks.NewKeyGenerator(x.P)
			k := &keyErrs{c: c, P: x.P.Parameters, seen: map[string]string{}}
			k.genOp(o, kg, x.IDs[1], x.SK[x.IDs[1]])
			return nil
		}})
	}
	return l
}

func catch(f func()) (p bool, val interface{}) {
	defer func() {
		if e := recover(); e != nil {
			p, val = true, e
		}
	}()
	f()
	return
}
