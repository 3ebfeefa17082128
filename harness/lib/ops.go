package lib

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func Msg(s []complex128) *mkckks.Message {
	return &mkckks.Message{Value: append([]complex128(nil), s...)}
}

// ---- message alphabet --------------------------------------------------------

// Vec returns the tag-th generic vector: all slots distinct, full complex,
// magnitude at most 1.
func Vec(n, tag int) []complex128 {
	v := make([]complex128, n)
	for i := range v {
		a := float64((i*7+tag*13+3)%17)/17 - 0.45
		b := float64((i*5+tag*11+8)%19)/19 - 0.55
		v[i] = complex(0.9*a+0.01*float64(i)/float64(n), 0.9*b)
	}
	return v
}

func Basis(n, j int, val complex128) []complex128 {
	v := make([]complex128, n)
	v[j] = val
	return v
}

func Const(n int, val complex128) []complex128 {
	v := make([]complex128, n)
	for i := range v {
		v[i] = val
	}
	return v
}

func mapv(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
	r := make([]complex128, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func unionIDs(a, b map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// ---- operations: real call + model -------------------------------------------

func (x *Ctx) freshModel(s []complex128, id []string, desc string) *V {
	m := map[string]bool{}
	for _, i := range id {
		m[i] = true
	}
	v := &V{S: append([]complex128(nil), s...), IDs: m, Level: x.P.MaxLevel(), Scale: x.P.Scale(), Desc: desc}
	v.E = x.encNoise() + x.fl(v.M())
	return v
}

func (x *Ctx) Encrypt(id string, s []complex128) *V {
	v := x.freshModel(s, []string{id}, fmt.Sprintf("enc(%q)", id))
	v.Ct = x.Enc.EncryptMsgNew(Msg(s), x.PK[id])
	return v
}

func (x *Ctx) EncryptExpand(id string, all []string, s []complex128) *V {
	v := x.freshModel(s, all, fmt.Sprintf("encExpand(%q,%q)", id, all))
	v.Ct = x.Enc.EncryptMsgNewExpand(Msg(s), x.PK[id], IDSet(all))
	v.IDs[id] = true
	return v
}

func (x *Ctx) addModel(a, b *V, sign complex128, desc string) *V {
	v := &V{IDs: unionIDs(a.IDs, b.IDs), Level: minI(a.Level, b.Level), Scale: math.Max(a.Scale, b.Scale), Desc: desc}
	v.S = mapv(a.S, b.S, func(p, q complex128) complex128 { return p + sign*q })
	e := 0.0
	for _, o := range []*V{a, b} {
		r := math.Floor(v.Scale / o.Scale)
		if r < 1 {
			r = 1
		}
		e += r*(o.E+1) + math.Abs(v.Scale-r*o.Scale)*cmax(o.S)
	}
	v.E = e
	return v
}

func (x *Ctx) Add(a, b *V) *V {
	v := x.addModel(a, b, 1, "add("+a.Desc+","+b.Desc+")")
	v.Ct = x.Ev.AddNew(a.Ct, b.Ct)
	return v
}

func (x *Ctx) Sub(a, b *V) *V {
	v := x.addModel(a, b, -1, "sub("+a.Desc+","+b.Desc+")")
	v.Ct = x.Ev.SubNew(a.Ct, b.Ct)
	return v
}

// rescaleModel applies the documented rescaling rule to v.
func (x *Ctx) RescaleModel(v *V, minScale float64) int {
	q := x.P.RingQ().Modulus
	n := 0
	for v.Level > 0 && v.Scale/float64(q[v.Level]) >= minScale/2 {
		v.Scale /= float64(q[v.Level])
		v.E = v.E/float64(q[v.Level]) + x.roundNoise(v.K())
		v.Level--
		n++
	}
	return n
}

func (x *Ctx) MulModel(a, b *V, desc string) *V {
	v := &V{IDs: unionIDs(a.IDs, b.IDs), Level: minI(a.Level, b.Level), Scale: a.Scale * b.Scale, Desc: desc}
	v.S = mapv(a.S, b.S, func(p, q complex128) complex128 { return p * q })
	v.E = x.nf()*(a.M()*b.E+b.M()*a.E+a.E*b.E) + x.mulNoise(v.Level, v.K())
	x.RescaleModel(v, x.P.Scale())
	return v
}

func (x *Ctx) Mul(a, b *V) *V {
	v := x.MulModel(a, b, "mul("+a.Desc+","+b.Desc+")")
	v.Ct = x.Ev.MulRelinNew(a.Ct, b.Ct, x.RLS)
	return v
}

// MulHoisted with mode bits: 1 hoist a, 2 hoist b.
func (x *Ctx) MulHoisted(a, b *V, mode int) *V {
	v := x.MulModel(a, b, fmt.Sprintf("mulH%d(%s,%s)", mode, a.Desc, b.Desc))
	var ha, hb *mkrlwe.HoistedCiphertext
	if mode&1 != 0 {
		ha = x.Ev.HoistedForm(a.Ct)
	}
	if mode&2 != 0 {
		if b == a && ha != nil {
			hb = ha
		} else {
			hb = x.Ev.HoistedForm(b.Ct)
		}
	}
	v.Ct = x.Ev.MulRelinHoistedNew(a.Ct, b.Ct, ha, hb, x.RLS)
	return v
}

func (x *Ctx) Encode(s []complex128) *ckks.Plaintext { return x.Enc.EncodeMsgNew(Msg(s)) }

func (x *Ctx) MulPtxtModel(a *V, s []complex128, ptScale float64, desc string) *V {
	v := &V{IDs: unionIDs(a.IDs, nil), Level: a.Level, Scale: a.Scale * ptScale, Desc: desc}
	v.S = mapv(a.S, s, func(p, q complex128) complex128 { return p * q })
	mp := ptScale * cmax(s)
	v.E = x.nf() * (a.M()*(1+x.fl(mp)) + mp*a.E + a.E)
	x.RescaleModel(v, x.P.Scale())
	return v
}

func (x *Ctx) MulPtxt(a *V, s []complex128) *V {
	v := x.MulPtxtModel(a, s, x.P.Scale(), "mulPt("+a.Desc+")")
	v.Ct = x.Ev.MulPtxtNew(a.Ct, x.Encode(s))
	return v
}

func constVal(c interface{}) complex128 {
	switch t := c.(type) {
	case complex128:
		return t
	case float64:
		return complex(t, 0)
	case int:
		return complex(float64(t), 0)
	case int64:
		return complex(float64(t), 0)
	case uint64:
		return complex(float64(t), 0)
	}
	panic("const type")
}

func (x *Ctx) MultByConstModel(a *V, c interface{}, level int, desc string) *V {
	cv := constVal(c)
	sc := 1.0
	if real(cv) != math.Trunc(real(cv)) || imag(cv) != math.Trunc(imag(cv)) {
		sc = float64(x.P.RingQ().Modulus[level])
	}
	v := &V{IDs: unionIDs(a.IDs, nil), Level: level, Scale: a.Scale * sc, Desc: desc}
	v.S = mapv(a.S, a.S, func(p, _ complex128) complex128 { return p * cv })
	abs := (math.Abs(real(cv)) + math.Abs(imag(cv))) * sc
	v.E = (abs+2)*a.E + (2+abs*1e-15)*(a.M()+1)
	if sc == 1 {
		v.E = abs*a.E + 1
	}
	return v
}

// MultByConst multiplies into a zero ciphertext of the given level.
func (x *Ctx) MultByConst(a *V, c interface{}) *V {
	v := x.MultByConstModel(a, c, a.Level, fmt.Sprintf("const[%T %v](%s)", c, c, a.Desc))
	out := mkckks.NewCiphertext(x.P, IDSet(ids(a.IDs)), a.Level, a.Scale)
	x.Ev.MultByConst(a.Ct, c, out)
	v.Ct = out
	return v
}

func (x *Ctx) RotModel(a *V, r int, hops int, desc string) *V {
	v := &V{IDs: unionIDs(a.IDs, nil), Level: a.Level, Scale: a.Scale, Desc: desc}
	n := len(a.S)
	v.S = make([]complex128, n)
	for i := range v.S {
		v.S[i] = a.S[(((i+r%n)%n)+n)%n]
	}
	v.E = a.E + float64(hops)*x.ksNoise(a.Level, a.K())
	return v
}

func (x *Ctx) Rotate(a *V, r int) *V {
	v := x.RotModel(a, r, x.Cfg.LogN, fmt.Sprintf("rot%d(%s)", r, a.Desc))
	v.Ct = x.Ev.RotateNew(a.Ct, r, x.RTS)
	return v
}

func (x *Ctx) RotateHoisted(a *V, r int) *V {
	v := x.RotModel(a, r, 1, fmt.Sprintf("rotH%d(%s)", r, a.Desc))
	v.Ct = x.Ev.RotateHoistedNew(a.Ct, r, x.Ev.HoistedForm(a.Ct), x.RTS)
	return v
}

func (x *Ctx) Conj(a *V) *V {
	v := &V{IDs: unionIDs(a.IDs, nil), Level: a.Level, Scale: a.Scale, Desc: "conj(" + a.Desc + ")"}
	v.S = mapv(a.S, a.S, func(p, _ complex128) complex128 { return cmplx.Conj(p) })
	v.E = a.E + x.ksNoise(a.Level, a.K())
	v.Ct = x.Ev.ConjugateNew(a.Ct, x.CJS)
	return v
}

func (x *Ctx) Drop(a *V, n int) *V {
	v := *a
	v.IDs = unionIDs(a.IDs, nil)
	v.Level -= n
	v.Desc = fmt.Sprintf("drop%d(%s)", n, a.Desc)
	v.Ct = x.Ev.DropLevelNew(a.Ct, n)
	return &v
}

// RescaleNew applies the rescaling rule into a new ciphertext.
func (x *Ctx) RescaleNew(a *V, minScale float64) (*V, error) {
	v := *a
	v.IDs = unionIDs(a.IDs, nil)
	v.Desc = "rescale(" + a.Desc + ")"
	x.RescaleModel(&v, minScale)
	ct, err := x.Ev.RescaleNew(a.Ct, minScale)
	v.Ct = ct
	return &v, err
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- oracle -------------------------------------------------------------

// Decrypt with all keys (the set may contain keys of uninvolved parties).
func (x *Ctx) Decrypt(v *V) []complex128 { return x.Dec.Decrypt(v.Ct, x.SKS).Value }

// MaxErr is the largest slot distance.
func MaxErr(a, b []complex128) (float64, int) {
	m, at := 0.0, -1
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if math.IsNaN(d) || d > m {
			m, at = d, i
			if math.IsNaN(d) {
				return math.Inf(1), i
			}
		}
	}
	return m, at
}

// Meta checks participants, level, scale and component shapes against the model.
func (x *Ctx) Meta(c *Case, v *V) {
	ct := v.Ct
	if !SameIDs(ct.IDSet(), v.IDs) {
		c.Failf("%s: participants %v, model %s", v.Desc, ct.IDSet().Value, fmtIDs(v.IDs))
	}
	if ct.Level() != v.Level {
		c.Failf("%s: level %d, model %d", v.Desc, ct.Level(), v.Level)
	}
	if !(math.Abs(ct.Scale-v.Scale) <= 1e-9*v.Scale) {
		c.Failf("%s: scale %g, model %g", v.Desc, ct.Scale, v.Scale)
	}
	if ct.ScalingFactor() != ct.Scale {
		c.Failf("%s: ScalingFactor() %g but scale %g", v.Desc, ct.ScalingFactor(), ct.Scale)
	}
	for id, p := range ct.Value {
		if len(p.Coeffs) != v.Level+1 {
			c.Failf("%s: component %q has %d moduli, level is %d", v.Desc, id, len(p.Coeffs), v.Level)
		}
		if p.IsNTT {
			c.Failf("%s: component %q left in the NTT domain", v.Desc, id)
		}
	}
}

// Check decrypts and compares with the model. It returns false when the model
// says the plaintext does not fit (nothing is promised then).
func (x *Ctx) Check(c *Case, v *V) bool {
	x.Meta(c, v)
	if !x.Fits(v) {
		c.Note("skipped_overflow", 1)
		return false
	}
	got := x.Decrypt(v)
	x.Compare(c, v, got, "")
	return true
}

func (x *Ctx) Compare(c *Case, v *V, got []complex128, what string) {
	c.Tr(1)
	if len(got) != len(v.S) {
		c.Failf("%s%s: %d slots, want %d", what, v.Desc, len(got), len(v.S))
	}
	tol := x.Tol(v)
	e, at := MaxErr(got, v.S)
	if !(e <= tol) {
		c.Failf("%s%s: slot %d decrypts to %v, reference %v (error %.3g > bound %.3g)", what, v.Desc, at, got[at], v.S[at], e, tol)
	}
	if tol > 0 {
		c.NoteMax("err_permille_of_bound", int64(1000*e/tol))
	}
	if tol > 0.05*cmax(v.S)+1e-3 {
		c.Note("loose_tolerance", 1)
	}
	c.State(fmt.Sprintf("%s|%s|%d|%.3f|%d", x.Cfg.Name, fmtIDs(v.IDs), v.Level, math.Log2(v.Scale), vhash(v.S)))
	c.Outcome(fmt.Sprintf("%d", vhash(v.S)))
}

func vhash(s []complex128) uint64 {
	t := ""
	for _, z := range s {
		t += fmt.Sprintf("%.6f,%.6f;", real(z), imag(z))
	}
	return h64(t)
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool, val interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(violation); ok {
				panic(e)
			}
			p, val = true, e
		}
	}()
	f()
	return
}
