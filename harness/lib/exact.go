package lib

import (
	"crypto/sha256"
	"encoding/binary"
	"hash"
	"math/big"
	"reflect"
	"sort"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// ---- exact phase, computed with the trusted ring library only ----------------

// MulSK returns c*s for one component (coefficient domain in and out, or NTT
// domain when the component is flagged so).
func (s *Sys) MulSK(c *ring.Poly, sk *mkrlwe.SecretKey) *ring.Poly {
	r := s.P.RingQ()
	l := len(c.Coeffs) - 1
	t := r.NewPolyLvl(l)
	if c.IsNTT {
		ring.CopyValuesLvl(l, c, t)
	} else {
		r.NTTLvl(l, c, t)
	}
	r.MulCoeffsMontgomeryLvl(l, t, sk.Value.Q, t)
	if !c.IsNTT {
		r.InvNTTLvl(l, t, t)
	}
	return t
}

// Phase returns c0 + sum c_i s_i as centred integers.
func (s *Sys) Phase(ct *mkckks.Ciphertext, sks map[string]*mkrlwe.SecretKey) []*big.Int {
	r := s.P.RingQ()
	l := ct.Level()
	acc := r.NewPolyLvl(l)
	ring.CopyValuesLvl(l, ct.Value["0"], acc)
	r.ReduceLvl(l, acc, acc)
	for id, c := range ct.Value {
		if id == "0" {
			continue
		}
		sk, ok := sks[id]
		if !ok {
			continue
		}
		cc := &ring.Poly{Coeffs: c.Coeffs[:l+1], IsNTT: c.IsNTT}
		t := s.MulSK(cc, sk)
		r.AddLvl(l, acc, t, acc)
	}
	return s.Centered(acc)
}

// Centered lifts a coefficient-domain polynomial to centred integers.
func (s *Sys) Centered(p *ring.Poly) []*big.Int {
	return CRT(s.P.RingQ().Modulus[:len(p.Coeffs)], p.Coeffs)
}

// CRT lifts residue rows to centred integers in (-Q/2, Q/2].
func CRT(mod []uint64, rows [][]uint64) []*big.Int {
	Q := big.NewInt(1)
	for _, q := range mod {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	half := new(big.Int).Rsh(Q, 1)
	g := make([]*big.Int, len(mod))
	for i, q := range mod {
		bq := new(big.Int).SetUint64(q)
		st := new(big.Int).Div(Q, bq)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(st, bq), bq)
		g[i] = st.Mul(st, inv)
	}
	n := len(rows[0])
	out := make([]*big.Int, n)
	t := new(big.Int)
	for j := 0; j < n; j++ {
		v := new(big.Int)
		for i := range mod {
			t.SetUint64(rows[i][j])
			t.Mul(t, g[i])
			v.Add(v, t)
		}
		v.Mod(v, Q)
		if v.Cmp(half) > 0 {
			v.Sub(v, Q)
		}
		out[j] = v
	}
	return out
}

// Inf is the largest absolute value.
func Inf(v []*big.Int) *big.Int {
	m := new(big.Int)
	t := new(big.Int)
	for _, x := range v {
		if t.Abs(x).Cmp(m) > 0 {
			m.Set(t)
		}
	}
	return m
}

// BigEqMod compares integer vectors modulo q.
func BigEqMod(a, b []*big.Int, q *big.Int) bool {
	t := new(big.Int)
	for i := range a {
		if t.Mod(t.Sub(a[i], b[i]), q).Sign() != 0 {
			return false
		}
	}
	return true
}

// ---- fingerprints ------------------------------------------------------------

// Fp is a content hash of an object graph (maps are hashed in key order),
// ignoring unexported fields.
func Fp(objs ...interface{}) [32]byte {
	h := sha256.New()
	for _, o := range objs {
		fpv(h, reflect.ValueOf(o))
	}
	var r [32]byte
	copy(r[:], h.Sum(nil))
	return r
}

func fpu(h hash.Hash, x uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	h.Write(b[:])
}

func fpv(h hash.Hash, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			h.Write([]byte{0})
			return
		}
		h.Write([]byte{1})
		fpv(h, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			fpv(h, v.Field(i))
		}
	case reflect.Slice:
		fpu(h, uint64(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint64 && v.CanInterface() {
			b := make([]byte, 0, 8*v.Len())
			for _, x := range v.Interface().([]uint64) {
				b = binary.LittleEndian.AppendUint64(b, x)
			}
			h.Write(b)
			return
		}
		for i := 0; i < v.Len(); i++ {
			fpv(h, v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fpv(h, v.Index(i))
		}
	case reflect.Map:
		fpu(h, uint64(v.Len()))
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
		for _, k := range ks {
			fpv(h, k)
			fpv(h, v.MapIndex(k))
		}
	case reflect.String:
		fpu(h, uint64(len(v.String())))
		h.Write([]byte(v.String()))
	case reflect.Bool:
		if v.Bool() {
			h.Write([]byte{1})
		} else {
			h.Write([]byte{0})
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		fpu(h, uint64(v.Int()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8:
		fpu(h, v.Uint())
	case reflect.Float64:
		fpu(h, uint64(f64bits(v.Float())))
	case reflect.Complex128:
		c := v.Complex()
		fpu(h, f64bits(real(c)))
		fpu(h, f64bits(imag(c)))
	default:
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Uint:
		return a.Uint() < b.Uint()
	default:
		return a.Int() < b.Int()
	}
}

// ScribblePoly overwrites every coefficient.
func ScribblePoly(p *ring.Poly) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = 1
		}
	}
}

func ScribbleCt(ct *mkckks.Ciphertext) {
	for _, p := range ct.Value {
		ScribblePoly(p)
	}
	ct.Scale = 3
}

// SetOf converts a list to a set.
func SetOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

// Subsets enumerates the subsets of l with at least min elements.
func Subsets(l []string, min int) [][]string {
	var r [][]string
	for m := 0; m < 1<<len(l); m++ {
		var s []string
		for i := range l {
			if m>>i&1 == 1 {
				s = append(s, l[i])
			}
		}
		if len(s) >= min {
			r = append(r, s)
		}
	}
	return r
}

// Perms enumerates the permutations of l.
func Perms(l []string) [][]string {
	if len(l) <= 1 {
		return [][]string{append([]string(nil), l...)}
	}
	var r [][]string
	for i := range l {
		rest := append(append([]string(nil), l[:i]...), l[i+1:]...)
		for _, p := range Perms(rest) {
			r = append(r, append([]string{l[i]}, p...))
		}
	}
	return r
}

// Shared builds a ciphertext in which every party of l has a non-trivial
// component: the sum of one encryption per party. The cleartext is the sum.
func (x *Ctx) Shared(l []string, tag int) *V {
	n := x.Cfg.Slots()
	var v *V
	for i, id := range l {
		e := x.Encrypt(id, Vec(n, tag+i))
		if v == nil {
			v = e
		} else {
			v = x.Add(v, e)
		}
	}
	return v
}

// SortedIDs lists the members of m.
func SortedIDs(m map[string]bool) []string { return ids(m) }
