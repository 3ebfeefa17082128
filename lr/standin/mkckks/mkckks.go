// Package mkckks is a cleartext stand-in of the library: ciphertexts carry
// their slots in clear, levels, scales, participants and key requirements
// follow the library's rules.
package mkckks

import (
	"errors"
	"math"
	"math/cmplx"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkrlwe"
	"mk-lr/vlog"
)

type Parameters struct {
	mkrlwe.Parameters
	logSlots int
	scale    float64
}

func NewParameters(p ckks.Parameters) Parameters {
	return Parameters{mkrlwe.NewParameters(p.Parameters, 2), p.LogSlots(), p.Scale()}
}
func (p Parameters) Scale() float64 { return p.scale }
func (p Parameters) Slots() int     { return 1 << p.logSlots }
func (p Parameters) LogSlots() int  { return p.logSlots }

func NewKeyGenerator(p Parameters) *mkrlwe.KeyGenerator { return mkrlwe.NewKeyGenerator(p.Parameters) }

type Message struct{ Value []complex128 }

func NewMessage(p Parameters) *Message { return &Message{make([]complex128, p.Slots())} }
func (m *Message) Slots() int          { return len(m.Value) }

type Ciphertext struct {
	*mkrlwe.Ciphertext
	Scale float64
}

func NewCiphertext(p Parameters, idset *mkrlwe.IDSet, level int, scale float64) *Ciphertext {
	c := &Ciphertext{mkrlwe.NewCiphertext(p.Parameters, idset, level), scale}
	c.V = c.V[:p.Slots()]
	return c
}
func (c *Ciphertext) ScalingFactor() float64     { return c.Scale }
func (c *Ciphertext) SetScalingFactor(s float64) { c.Scale = s }
func (c *Ciphertext) CopyNew() *Ciphertext {
	return &Ciphertext{c.Ciphertext.CopyNew(), c.Scale}
}

// ---- encryption ----

type Encryptor struct{ params Parameters }

func NewEncryptor(p Parameters) *Encryptor { return &Encryptor{p} }

var clear = map[*ckks.Plaintext][]complex128{}

func (e *Encryptor) pad(v []complex128) []complex128 {
	if len(v) > e.params.Slots() {
		panic("cannot Encode: too many values for the given number of slots")
	}
	return append(append(make([]complex128, 0, e.params.Slots()), v...), make([]complex128, e.params.Slots()-len(v))...)
}

func (e *Encryptor) EncodeMsgNew(m *Message) *ckks.Plaintext {
	v := e.pad(m.Value)
	pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: &ring.Poly{Coeffs: make([][]uint64, e.params.MaxLevel()+1)}}, Scale: e.params.Scale()}
	clear[pt] = v
	return pt
}
func (e *Encryptor) EncryptPtxt(pt *ckks.Plaintext, pk *mkrlwe.PublicKey, out *Ciphertext) {
	out.V = append([]complex128(nil), clear[pt]...)
	out.Scale = pt.Scale
	out.Value[pk.ID] = nil
	vlog.Rec('E', pk.ID+"|"+ids(out), vlog.NonZero(out.V), out.V)
}
func (e *Encryptor) EncryptMsg(m *Message, pk *mkrlwe.PublicKey, out *Ciphertext) {
	out.V = e.pad(m.Value)
	out.Scale = e.params.Scale()
	if _, ok := out.Value[pk.ID]; !ok {
		panic("cannot Encrypt: the owner is not a participant of the output")
	}
	vlog.Rec('E', pk.ID+"|"+ids(out), vlog.NonZero(out.V), out.V)
}
func (e *Encryptor) EncryptMsgNew(m *Message, pk *mkrlwe.PublicKey) *Ciphertext {
	s := mkrlwe.NewIDSet()
	s.Add(pk.ID)
	return e.EncryptMsgNewExpand(m, pk, s)
}
func (e *Encryptor) EncryptMsgNewExpand(m *Message, pk *mkrlwe.PublicKey, idset *mkrlwe.IDSet) *Ciphertext {
	out := NewCiphertext(e.params, idset, e.params.MaxLevel(), e.params.Scale())
	e.EncryptMsg(m, pk, out)
	return out
}

func ids(c *Ciphertext) string {
	var l []string
	for id := range c.IDSet().Value {
		l = append(l, id)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// ---- decryption ----

type Decryptor struct{ params Parameters }

func NewDecryptor(p Parameters) *Decryptor { return &Decryptor{p} }
func (d *Decryptor) PartialDecrypt(c *Ciphertext, sk *mkrlwe.SecretKey) {
	if _, ok := c.Value[sk.ID]; !ok {
		panic("cannot PartialDecrypt: not a participant")
	}
	delete(c.Value, sk.ID)
}
func (d *Decryptor) Decrypt(c *Ciphertext, set *mkrlwe.SecretKeySet) *Message {
	for id := range c.IDSet().Value {
		set.GetSecretKey(id)
	}
	m := &Message{append([]complex128(nil), c.V...)}
	vlog.Rec('D', ids(c), vlog.Ends(len(m.Value)), m.Value)
	return m
}

// ---- evaluation ----

type Evaluator struct{ params Parameters }

func NewEvaluator(p Parameters) *Evaluator { return &Evaluator{p} }

func (e *Evaluator) binary(a, b *Ciphertext) *Ciphertext {
	lvl := a.Lvl
	if b.Lvl < lvl {
		lvl = b.Lvl
	}
	return NewCiphertext(e.params, a.IDSet().Union(b.IDSet()), lvl, math.Max(a.Scale, b.Scale))
}

func (e *Evaluator) linear(a, b *Ciphertext, sign float64) *Ciphertext {
	out := e.binary(a, b)
	wa, wb := weight(a.Scale, out.Scale), sign*weight(b.Scale, out.Scale)
	for i := range out.V {
		x, y := a.V[i], b.V[i]
		out.V[i] = complex(wa*real(x)+wb*real(y), wa*imag(x)+wb*imag(y))
	}
	return e.fit(out)
}

// weights: scales equal up to a relative 1e-3 count as equal (the library adds
// the integers, which shifts the value by that much; see property C03).
func weight(s, S float64) float64 {
	r := math.Floor(S / s)
	if r < 1 {
		r = 1
	}
	w := r * s / S
	if math.Abs(w-1) < 1e-3 {
		return 1
	}
	return w
}
func (e *Evaluator) AddNew(a, b *Ciphertext) *Ciphertext { return e.linear(a, b, 1) }
func (e *Evaluator) SubNew(a, b *Ciphertext) *Ciphertext { return e.linear(a, b, -1) }

// fit: values beyond the modulus wrap around; nothing is promised then.
func (e *Evaluator) fit(c *Ciphertext) *Ciphertext {
	lim := 0.0
	for i := 0; i <= c.Lvl; i++ {
		lim += math.Log2(float64(e.params.RingQ().Modulus[i]))
	}
	m := 0.0
	for _, x := range c.V {
		if r := math.Abs(real(x)); r > m {
			m = r
		}
		if r := math.Abs(imag(x)); r > m {
			m = r
		}
	}
	if math.Log2(m+1)+math.Log2(c.Scale) > lim-1 {
		for i := range c.V {
			c.V[i] = cmplx.NaN()
		}
	}
	return c
}

func (e *Evaluator) MulRelinNew(a, b *Ciphertext, set *mkrlwe.RelinearizationKeySet) *Ciphertext {
	out := e.binary(a, b)
	for i := range out.V {
		x, y := a.V[i], b.V[i]
		out.V[i] = complex(real(x)*real(y)-imag(x)*imag(y), real(x)*imag(y)+imag(x)*real(y))
	}
	for id := range out.IDSet().Value {
		set.GetRelinearizationKey(id)
	}
	out.Scale = a.Scale * b.Scale
	e.Rescale(out, e.params.Scale(), out)
	return e.fit(out)
}
func (e *Evaluator) MulRelinHoistedNew(a, b *Ciphertext, ha, hb *mkrlwe.HoistedCiphertext, set *mkrlwe.RelinearizationKeySet) *Ciphertext {
	return e.MulRelinNew(a, b, set)
}
func (e *Evaluator) HoistedForm(c *Ciphertext) *mkrlwe.HoistedCiphertext {
	h := mkrlwe.NewHoistedCiphertext()
	h.Of = c.Ciphertext
	return h
}
func (e *Evaluator) MulPtxtNew(c *Ciphertext, pt *ckks.Plaintext) *Ciphertext {
	v := clear[pt]
	out := c.CopyNew()
	for i := range out.V {
		x, y := out.V[i], v[i]
		out.V[i] = complex(real(x)*real(y)-imag(x)*imag(y), real(x)*imag(y)+imag(x)*real(y))
	}
	out.Scale = c.Scale * pt.Scale
	e.Rescale(out, e.params.Scale(), out)
	return e.fit(out)
}
func (e *Evaluator) MultByConst(c *Ciphertext, k interface{}, out *Ciphertext) {
	var z complex128
	switch t := k.(type) {
	case complex128:
		z = t
	case float64:
		z = complex(t, 0)
	case int:
		z = complex(float64(t), 0)
	case int64:
		z = complex(float64(t), 0)
	case uint64:
		z = complex(float64(t), 0)
	default:
		panic("unsupported constant")
	}
	sc := 1.0
	if real(z) != math.Trunc(real(z)) || imag(z) != math.Trunc(imag(z)) {
		sc = float64(e.params.RingQ().Modulus[out.Lvl])
	}
	v := make([]complex128, len(c.V))
	for i := range v {
		v[i] = c.V[i] * z
	}
	out.V = v
	out.Scale = c.Scale * sc
	for id := range c.Value {
		out.Value[id] = nil
	}
	e.fit(out)
}
func (e *Evaluator) Rescale(in *Ciphertext, minScale float64, out *Ciphertext) error {
	if minScale <= 0 {
		return errors.New("cannot Rescale: minScale is 0")
	}
	if in.Scale == 0 {
		return errors.New("cannot Rescale: ciphertext scale is 0")
	}
	if in.Lvl == 0 {
		return errors.New("cannot Rescale: input Ciphertext already at level 0")
	}
	if in != out {
		out.Ciphertext.Copy(in.Ciphertext)
	}
	out.Scale = in.Scale
	q := e.params.RingQ().Modulus
	for out.Lvl > 0 && out.Scale/float64(q[out.Lvl]) >= minScale/2 {
		out.Scale /= float64(q[out.Lvl])
		out.Lvl--
	}
	return nil
}
func (e *Evaluator) RescaleNew(c *Ciphertext, minScale float64) (*Ciphertext, error) {
	out := c.CopyNew()
	return out, e.Rescale(out, minScale, out)
}
func (e *Evaluator) DropLevel(c *Ciphertext, levels int) { c.Lvl -= levels; e.fit(c) }
func (e *Evaluator) DropLevelNew(c *Ciphertext, levels int) *Ciphertext {
	out := c.CopyNew()
	e.DropLevel(out, levels)
	return out
}

func (e *Evaluator) RotateNew(c *Ciphertext, k int, set *mkrlwe.RotationKeySet) *Ciphertext {
	h := e.params.N() / 2
	k = ((k % h) + h) % h
	need := []int{}
	if _, ok := e.params.CRS[k]; ok {
		need = append(need, k)
	} else {
		for b := 1; b <= k; b *= 2 {
			if k&b != 0 {
				need = append(need, b)
			}
		}
	}
	if k != 0 {
		for id := range c.IDSet().Value {
			for _, b := range need {
				set.GetRotationKey(id, uint(b))
			}
		}
	}
	out := c.CopyNew()
	n := len(out.V)
	copy(out.V, c.V[k%n:])
	copy(out.V[n-k%n:], c.V[:k%n])
	return out
}
func (e *Evaluator) RotateHoistedNew(c *Ciphertext, k int, h *mkrlwe.HoistedCiphertext, set *mkrlwe.RotationKeySet) *Ciphertext {
	n := e.params.N() / 2
	if _, ok := e.params.CRS[((k%n)+n)%n]; !ok {
		panic("Hoisted rotation only works for precomputed rotation keys")
	}
	return e.RotateNew(c, k, set)
}
func (e *Evaluator) ConjugateNew(c *Ciphertext, set *mkrlwe.ConjugationKeySet) *Ciphertext {
	for id := range c.IDSet().Value {
		set.GetConjugationKey(id)
	}
	out := c.CopyNew()
	for i := range out.V {
		out.V[i] = cmplx.Conj(out.V[i])
	}
	return out
}
