package lib

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// Cfg is a parameter set small enough for exhaustive enumeration; the code
// under test is generic in it.
type Cfg struct {
	Name     string
	LogN     int
	LogSlots int
	LogQ     []int
	LogP     []int
	Scale    float64
	Sigma    float64 // 0: the default 3.2
}

func (c Cfg) N() int     { return 1 << c.LogN }
func (c Cfg) Slots() int { return 1 << c.LogSlots }

// Dev is the deviation of the errors, B their bound (six deviations).
func (c Cfg) Dev() float64 {
	if c.Sigma == 0 {
		return 3.2
	}
	return c.Sigma
}

func (c Cfg) B() int64 { return int64(6 * c.Dev()) }

var cfgs = map[string]Cfg{
	// 4 levels, digit size alpha=1
	"n4a1": {"n4a1", 4, 3, []int{55, 40, 40, 40}, []int{55, 55}, 1 << 40, 0},
	// alpha=2, 5 moduli: the last digit is shorter than alpha
	"n5a2": {"n5a2", 5, 4, []int{55, 40, 40, 40, 40}, []int{55, 55, 55, 55}, 1 << 40, 0},
	// sparse packing, 3 special primes (digit size 1, not a multiple of gamma)
	"n5sp": {"n5sp", 5, 2, []int{55, 45, 45, 45}, []int{55, 55, 55}, 1 << 45, 0},
	// alpha=3, 7 moduli
	"n4a3": {"n4a3", 4, 3, []int{55, 40, 40, 40, 40, 40, 40}, []int{55, 55, 55, 55, 55, 55}, 1 << 40, 0},
	// odd number of special primes above 3
	"n4p5": {"n4p5", 4, 3, []int{55, 40, 40, 40, 40}, []int{55, 55, 55, 55, 55}, 1 << 40, 0},
	// modulus widths used by the LR programs
	"n4lr": {"n4lr", 4, 3, []int{55, 38, 38, 38, 38, 38}, []int{50, 50}, 1 << 38, 0},
	// deep chain, alpha 2, even split
	"n4a2": {"n4a2", 4, 3, []int{55, 40, 40, 40, 40, 40}, []int{55, 55, 55, 55}, 1 << 40, 0},
	// two slots
	"n4s0": {"n4s0", 4, 1, []int{55, 40, 40}, []int{55, 55}, 1 << 40, 0},
	// a single slot
	"n4s1": {"n4s1", 4, 0, []int{55, 40, 40, 40}, []int{55, 55}, 1 << 40, 0},
	"n6a1": {"n6a1", 6, 5, []int{55, 40, 40, 40}, []int{55, 55}, 1 << 40, 0},
	"n7a2": {"n7a2", 7, 6, []int{55, 40, 40, 40, 40}, []int{55, 55, 55, 55}, 1 << 40, 0},
	"n5lr": {"n5lr", 5, 4, []int{55, 38, 38, 38, 38, 38, 38, 38, 38}, []int{50, 50}, 1 << 38, 0},
	// the longest chain of the widest moduli: 34 digits of 60 bits
	"n4w": {"n4w", 4, 3, w60(34), []int{60, 60}, 1 << 50, 0},
	// wide moduli, digits of 3, shorter last digit, odd number of special primes
	"n4w3": {"n4w3", 4, 3, w60(8), []int{60, 60, 60, 60, 60, 60, 60}, 1 << 50, 0},
	// a short chain of the widest moduli, for very many parties
	"n4wt": {"n4wt", 4, 3, w60(3), []int{60, 60}, 1 << 50, 0},
	// strongly mixed widths
	"n4mix": {"n4mix", 4, 3, []int{60, 30, 45, 30, 55, 40}, []int{60, 35, 60, 59}, 1 << 30, 0},
	// digits of 5 and of 8 moduli, shorter last digits
	"n4a5": {"n4a5", 4, 3, wN(55, 40, 12), wN(55, 55, 10), 1 << 40, 0},
	"n4a8": {"n4a8", 4, 3, wN(55, 40, 18), wN(55, 55, 16), 1 << 40, 0},
	// as many special primes as the key switcher of the dependency handles
	"n4p32": {"n4p32", 4, 3, []int{60, 50, 50}, w60(32), 1 << 50, 0},
	// sizes of production use
	"n12": {"n12", 12, 11, []int{55, 40, 40, 40}, []int{55, 55}, 1 << 40, 0},
	"n15": {"n15", 15, 14, []int{55, 38, 38}, []int{50, 50}, 1 << 38, 0},
	// deviations other than the default
	"n5sg": {"n5sg", 5, 4, []int{55, 40, 40}, []int{55, 55}, 1 << 40, 6.4},
	"n5ss": {"n5ss", 5, 4, []int{55, 40, 40, 40}, []int{55, 55, 55, 55}, 1 << 40, 2.1},
	"n13s": {"n13s", 13, 9, []int{55, 40, 40, 40, 40}, []int{55, 55, 55, 55}, 1 << 40, 0},
}

func wN(first, rest, n int) []int {
	l := []int{first}
	for len(l) < n {
		l = append(l, rest)
	}
	return l
}

func w60(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = 60
	}
	return l
}

func GetCfg(n string) Cfg {
	c, ok := cfgs[n]
	if !ok {
		panic("unknown config " + n)
	}
	return c
}

// CkksParams builds the lattigo parameters of a configuration.
func (c Cfg) CkksParams() ckks.Parameters {
	p, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{
		LogN: c.LogN, LogSlots: c.LogSlots, LogQ: c.LogQ, LogP: c.LogP, Scale: c.Scale, Sigma: c.Dev()})
	if err != nil {
		panic(fmt.Sprintf("parameters %s: %v", c.Name, err))
	}
	return p
}

// Party names: short, long, numeric, near the reserved name, and empty.
var AllIDs = []string{"a", "user1", "00", "", "Ω"}

// Sys holds parameters and key material of a set of parties. It is never
// changed by a well-behaved operation; per-execution objects are in Ctx.
type Sys struct {
	Cfg    Cfg
	P      mkckks.Parameters
	CK     ckks.Parameters
	IDs    []string
	SK     map[string]*mkrlwe.SecretKey
	PK     map[string]*mkrlwe.PublicKey
	RLK    map[string]*mkrlwe.RelinearizationKey
	RTK    map[string][]*mkrlwe.RotationKey
	CJK    map[string]*mkrlwe.ConjugationKey
	KG     *mkrlwe.KeyGenerator
	RotIdx []int
}

// NewSys generates everything from the entropy stream in force. extraRot adds
// CRS and rotation keys for indices beyond the default powers of two.
func NewSys(cfg Cfg, ids []string, extraRot []int) *Sys {
	s := &Sys{Cfg: cfg, IDs: ids}
	s.CK = cfg.CkksParams()
	s.P = mkckks.NewParameters(s.CK)
	for _, r := range extraRot {
		s.P.AddCRS(r)
	}
	s.KG = mkckks.NewKeyGenerator(s.P)
	s.SK = map[string]*mkrlwe.SecretKey{}
	s.PK = map[string]*mkrlwe.PublicKey{}
	s.RLK = map[string]*mkrlwe.RelinearizationKey{}
	s.RTK = map[string][]*mkrlwe.RotationKey{}
	s.CJK = map[string]*mkrlwe.ConjugationKey{}
	for r := 1; r < cfg.N()/2; r *= 2 {
		s.RotIdx = append(s.RotIdx, r)
	}
	for _, r := range extraRot {
		s.RotIdx = append(s.RotIdx, r)
	}
	for _, id := range ids {
		s.SK[id], s.PK[id] = s.KG.GenKeyPair(id)
		r := s.KG.GenSecretKey(id)
		s.RLK[id] = s.KG.GenRelinearizationKey(s.SK[id], r)
		for _, ri := range s.RotIdx {
			s.RTK[id] = append(s.RTK[id], s.KG.GenRotationKey(ri, s.SK[id]))
		}
		s.CJK[id] = s.KG.GenConjugationKey(s.SK[id])
	}
	return s
}

var sysCache = map[string]*Sys{}

// CachedSys returns one system per (config, parties, rotations) and process,
// with entropy that depends only on that triple.
func CachedSys(cfg string, ids []string, extraRot ...int) *Sys {
	k := fmt.Sprintf("sys|%s|%q|%v", cfg, ids, extraRot)
	if s, ok := sysCache[k]; ok {
		return s
	}
	Reseed(k)
	s := NewSys(GetCfg(cfg), ids, extraRot)
	sysCache[k] = s
	return s
}

// Ctx is the set of stateful objects of one execution.
type Ctx struct {
	*Sys
	Enc *mkckks.Encryptor
	Dec *mkckks.Decryptor
	Ev  *mkckks.Evaluator
	SKS *mkrlwe.SecretKeySet
	RLS *mkrlwe.RelinearizationKeySet
	RTS *mkrlwe.RotationKeySet
	CJS *mkrlwe.ConjugationKeySet
	BE  *mkrlwe.FastBasisExtender // only where a check sets it
}

func (s *Sys) Ctx() *Ctx {
	c := &Ctx{Sys: s}
	c.Enc = mkckks.NewEncryptor(s.P)
	c.Dec = mkckks.NewDecryptor(s.P)
	c.Ev = mkckks.NewEvaluator(s.P)
	c.NewSets(s.IDs)
	return c
}

func (c *Ctx) NewSets(ids []string) {
	s := c.Sys
	c.SKS = mkrlwe.NewSecretKeySet()
	c.RLS = mkrlwe.NewRelinearizationKeyKeySet(s.P.Parameters)
	c.RTS = mkrlwe.NewRotationKeySet()
	c.CJS = mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		c.SKS.AddSecretKey(s.SK[id])
		c.RLS.AddRelinearizationKey(s.RLK[id])
		for _, rk := range s.RTK[id] {
			c.RTS.AddRotationKey(rk)
		}
		c.CJS.AddConjugationKey(s.CJK[id])
	}
}

// ---- model -------------------------------------------------------------

// V is a ciphertext of the real library together with the reference model:
// the cleartext slots, participants, level, scale and a worst-case bound E on
// the integer coefficient error of the phase.
type V struct {
	Ct    *mkckks.Ciphertext
	S     []complex128
	IDs   map[string]bool
	Level int
	Scale float64
	E     float64
	Desc  string
}

func (v *V) K() int { return len(v.IDs) }

func (v *V) Clone() *V {
	w := *v
	w.S = append([]complex128(nil), v.S...)
	w.IDs = map[string]bool{}
	for k := range v.IDs {
		w.IDs[k] = true
	}
	w.Ct = v.Ct.CopyNew()
	return &w
}

func cmax(s []complex128) float64 {
	m := 0.0
	for _, x := range s {
		if a := math.Hypot(real(x), imag(x)); a > m {
			m = a
		}
	}
	return m
}

// M bounds the plaintext coefficients.
func (v *V) M() float64 { return v.Scale * cmax(v.S) }

func (s *Sys) nf() float64 { return float64(s.Cfg.N()) }

// digit bound and P, as floats
func (s *Sys) ksRatio(level int) (dOverP, d2OverP float64) {
	alpha := s.P.Alpha()
	q := s.P.RingQ().Modulus
	d := 0.0
	for i := 0; i <= level; i += alpha {
		l := 0.0
		for j := i; j < i+alpha && j <= level; j++ {
			l += math.Log2(float64(q[j]))
		}
		if l > d {
			d = l
		}
	}
	lp := 0.0
	for _, p := range s.P.RingP().Modulus {
		lp += math.Log2(float64(p))
	}
	return math.Exp2(d - lp), math.Exp2(2*d - lp)
}

func (s *Sys) ksNoise(level, k int) float64 {
	dp, _ := s.ksRatio(level)
	b := float64(s.P.Beta(level))
	n := s.nf()
	// digits may be left unreduced in [0,2q): factor 4
	return float64(k) * (4*b*n*float64(s.Cfg.B())*dp*2 + 8*(n+2))
}

func (s *Sys) mulNoise(level, k int) float64 {
	_, d2 := s.ksRatio(level)
	b := float64(s.P.Beta(level))
	n := s.nf()
	kf := float64(k)
	return 16*kf*kf*b*n*n*float64(s.Cfg.B())*d2*(1+n) + 32*kf*(n+2)*(n+2)
}

func (s *Sys) roundNoise(k int) float64 { return 0.5*(1+float64(k)*s.nf()) + 1 }

func (s *Sys) encNoise() float64 { return float64(s.Cfg.B())*(2*s.nf()+1) + 1 }

// fl bounds the floating point error of encoding values of magnitude m.
func (s *Sys) fl(m float64) float64 { return m * math.Exp2(-45) * float64(s.Cfg.LogN) }

// Tol is the bound on the slot error of v.
func (s *Sys) Tol(v *V) float64 {
	return 2*s.nf()*(v.E+2)/v.Scale + cmax(v.S)*1e-12 + 1e-13
}

// Fits reports whether the plaintext fits the modulus at its level with margin.
func (s *Sys) Fits(v *V) bool {
	lq := 0.0
	for i := 0; i <= v.Level; i++ {
		lq += math.Log2(float64(s.P.RingQ().Modulus[i]))
	}
	return math.Log2(s.nf()*(v.M()+v.E)+1) < lq-3
}

func ids(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func IDSet(l []string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, x := range l {
		s.Add(x)
	}
	return s
}

func SameIDs(a *mkrlwe.IDSet, m map[string]bool) bool {
	if a.Size() != len(m) {
		return false
	}
	for k := range m {
		if !a.Has(k) {
			return false
		}
	}
	return true
}

// Q at a level as big integer
func (s *Sys) BigQ(level int) *big.Int {
	r := big.NewInt(1)
	for i := 0; i <= level; i++ {
		r.Mul(r, new(big.Int).SetUint64(s.P.RingQ().Modulus[i]))
	}
	return r
}

// ---- inspection helpers ------------------------------------------------------

// PolyEq compares two polynomials by residue (non canonical representatives of
// the same residue are equal).
func PolyEq(r *ring.Ring, a, b *ring.Poly) bool {
	if len(a.Coeffs) != len(b.Coeffs) || a.IsNTT != b.IsNTT {
		return false
	}
	for i := range a.Coeffs {
		q := r.Modulus[i]
		if len(a.Coeffs[i]) != len(b.Coeffs[i]) {
			return false
		}
		for j := range a.Coeffs[i] {
			x, y := a.Coeffs[i][j], b.Coeffs[i][j]
			if x != y && x%q != y%q {
				return false
			}
		}
	}
	return true
}

// CtEq compares two ciphertexts as mathematical objects.
func (s *Sys) CtEq(a, b *mkckks.Ciphertext) string {
	if a.Scale != b.Scale {
		return fmt.Sprintf("scale %g vs %g", a.Scale, b.Scale)
	}
	if len(a.Value) != len(b.Value) {
		return fmt.Sprintf("%d vs %d components", len(a.Value), len(b.Value))
	}
	for id := range a.Value {
		pb, ok := b.Value[id]
		if !ok {
			return fmt.Sprintf("component %q missing", id)
		}
		if !PolyEq(s.P.RingQ(), a.Value[id], pb) {
			return fmt.Sprintf("component %q differs", id)
		}
	}
	return ""
}

func fmtIDs(m map[string]bool) string { return "{" + strings.Join(ids(m), ",") + "}" }
