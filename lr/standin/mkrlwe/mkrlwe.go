// Package mkrlwe is a cleartext stand-in: same exported names as the library,
// key material reduced to its owner and index.
package mkrlwe

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

type Parameters struct {
	rlwe.Parameters
	CRS   map[int]*SwitchingKey
	gamma int
}

type SwitchingKey struct{ Value []rlwe.PolyQP }

func NewParameters(params rlwe.Parameters, gamma int) Parameters {
	p := Parameters{Parameters: params, gamma: gamma, CRS: map[int]*SwitchingKey{}}
	for _, i := range []int{0, -1, -2, -3, -4} {
		p.CRS[i] = &SwitchingKey{}
	}
	for i := 0; i < params.LogN()-1; i++ {
		p.CRS[1<<i] = &SwitchingKey{}
	}
	return p
}

func (p *Parameters) AddCRS(idx int)    { p.CRS[idx] = &SwitchingKey{} }
func (p Parameters) Alpha() int         { return p.PCount() / p.gamma }
func (p Parameters) Gamma() int         { return p.gamma }
func (p Parameters) Beta(level int) int { return (level + p.Alpha()) / p.Alpha() }

// ---- participant sets ----

type IDSet struct{ Value map[string]struct{} }

func NewIDSet() *IDSet             { return &IDSet{Value: map[string]struct{}{}} }
func (s *IDSet) Has(v string) bool { _, ok := s.Value[v]; return ok }
func (s *IDSet) Add(v string)      { s.Value[v] = struct{}{} }
func (s *IDSet) Remove(v string)   { delete(s.Value, v) }
func (s *IDSet) Size() int         { return len(s.Value) }
func (s *IDSet) CopyNew() *IDSet   { return s.Union(NewIDSet()) }
func (s *IDSet) Union(t *IDSet) *IDSet {
	r := NewIDSet()
	for v := range s.Value {
		r.Add(v)
	}
	for v := range t.Value {
		r.Add(v)
	}
	return r
}
func (s *IDSet) Intersection(t *IDSet) *IDSet {
	r := NewIDSet()
	for v := range s.Value {
		if t.Has(v) {
			r.Add(v)
		}
	}
	return r
}

// ---- ciphertexts ----

// Ciphertext keeps the slots in clear; Value only names the participants.
type Ciphertext struct {
	Value map[string]*ring.Poly
	V     []complex128
	Lvl   int
}

func NewCiphertext(params Parameters, idset *IDSet, level int) *Ciphertext {
	c := &Ciphertext{Value: map[string]*ring.Poly{"0": nil}, Lvl: level, V: make([]complex128, params.N()/2)}
	for id := range idset.Value {
		c.Value[id] = nil
	}
	return c
}
func NewCiphertextNTT(params Parameters, idset *IDSet, level int) *Ciphertext {
	return NewCiphertext(params, idset, level)
}
func (c *Ciphertext) IDSet() *IDSet {
	r := NewIDSet()
	for id := range c.Value {
		if id != "0" {
			r.Add(id)
		}
	}
	return r
}
func (c *Ciphertext) Level() int      { return c.Lvl }
func (c *Ciphertext) El() *Ciphertext { return c }
func (c *Ciphertext) CopyNew() *Ciphertext {
	r := &Ciphertext{}
	r.Copy(c)
	return r
}
func (c *Ciphertext) Copy(o *Ciphertext) {
	m := map[string]*ring.Poly{}
	for id := range o.Value {
		m[id] = nil
	}
	c.Value, c.Lvl = m, o.Lvl
	c.V = append([]complex128(nil), o.V...)
}
func (c *Ciphertext) PadCiphertext(idset *IDSet) {
	for id := range idset.Value {
		c.Value[id] = nil
	}
}

type HoistedCiphertext struct {
	Value map[string]*SwitchingKey
	Of    *Ciphertext
}

func NewHoistedCiphertext() *HoistedCiphertext {
	return &HoistedCiphertext{Value: map[string]*SwitchingKey{}}
}

// ---- keys ----

type SecretKey struct {
	ID  string
	Tag int
}
type PublicKey struct {
	ID  string
	Tag int
}
type RelinearizationKey struct {
	ID  string
	Tag int
}
type RotationKey struct {
	ID     string
	RotIdx uint
	Tag    int
}
type ConjugationKey struct {
	ID  string
	Tag int
}

func (k *SecretKey) CopyNew() *SecretKey { c := *k; return &c }
func (k *PublicKey) CopyNew() *PublicKey { c := *k; return &c }

type KeyGenerator struct{ params Parameters }

var tag int

func NewKeyGenerator(params Parameters) *KeyGenerator { return &KeyGenerator{params} }
func (g *KeyGenerator) GenSecretKey(id string) *SecretKey {
	tag++
	return &SecretKey{id, tag}
}
func (g *KeyGenerator) GenSecretKeyGaussian(id string) *SecretKey       { return g.GenSecretKey(id) }
func (g *KeyGenerator) GenSecretKeySparse(hw int, id string) *SecretKey { return g.GenSecretKey(id) }
func (g *KeyGenerator) GenSecretKeyWithDistrib(p float64, id string) *SecretKey {
	return g.GenSecretKey(id)
}
func (g *KeyGenerator) GenPublicKey(sk *SecretKey) *PublicKey { return &PublicKey{sk.ID, sk.Tag} }
func (g *KeyGenerator) GenKeyPair(id string) (*SecretKey, *PublicKey) {
	sk := g.GenSecretKey(id)
	return sk, g.GenPublicKey(sk)
}
func (g *KeyGenerator) GenKeyPairSparse(hw int, id string) (*SecretKey, *PublicKey) {
	return g.GenKeyPair(id)
}
func (g *KeyGenerator) GenRelinearizationKey(sk, r *SecretKey) *RelinearizationKey {
	if sk.ID != r.ID {
		panic("cannot GenRelinearizationKey: IDs differ")
	}
	return &RelinearizationKey{sk.ID, sk.Tag}
}
func (g *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) *RotationKey {
	for rotidx < 0 {
		rotidx += g.params.N() / 2
	}
	if _, ok := g.params.CRS[rotidx]; !ok {
		panic(fmt.Sprintf("cannot GenRotationKey: no CRS for %d", rotidx))
	}
	return &RotationKey{sk.ID, uint(rotidx), sk.Tag}
}
func (g *KeyGenerator) GenDefaultRotationKeys(sk *SecretKey, set *RotationKeySet) {
	for i := 1; i < g.params.N()/2; i *= 2 {
		set.AddRotationKey(g.GenRotationKey(i, sk))
	}
}
func (g *KeyGenerator) GenConjugationKey(sk *SecretKey) *ConjugationKey {
	return &ConjugationKey{sk.ID, sk.Tag}
}

type SecretKeySet struct{ Value map[string]*SecretKey }
type PublicKeySet struct{ Value map[string]*PublicKey }
type RelinearizationKeySet struct {
	Value     map[string]*RelinearizationKey
	HoistPool [2]*HoistedCiphertext
}
type ConjugationKeySet struct{ Value map[string]*ConjugationKey }
type RotationKeySet struct {
	Value map[string]map[uint]*RotationKey
}

func NewSecretKeySet() *SecretKeySet              { return &SecretKeySet{map[string]*SecretKey{}} }
func (s *SecretKeySet) AddSecretKey(k *SecretKey) { s.Value[k.ID] = k }
func (s *SecretKeySet) DelSecretKey(id string)    { delete(s.Value, id) }
func (s *SecretKeySet) GetSecretKey(id string) *SecretKey {
	if k, ok := s.Value[id]; ok {
		return k
	}
	panic("cannot GetSecretKey: there is no secret key with given id")
}
func NewPublicKeyKeySet() *PublicKeySet           { return &PublicKeySet{map[string]*PublicKey{}} }
func (s *PublicKeySet) AddPublicKey(k *PublicKey) { s.Value[k.ID] = k }
func (s *PublicKeySet) DelPublicKey(id string)    { delete(s.Value, id) }
func (s *PublicKeySet) GetPublicKey(id string) *PublicKey {
	if k, ok := s.Value[id]; ok {
		return k
	}
	panic("cannot GetPublicKey: there is no public key with given id")
}
func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
	return &RelinearizationKeySet{Value: map[string]*RelinearizationKey{}, HoistPool: [2]*HoistedCiphertext{NewHoistedCiphertext(), NewHoistedCiphertext()}}
}
func (s *RelinearizationKeySet) AddRelinearizationKey(k *RelinearizationKey) { s.Value[k.ID] = k }
func (s *RelinearizationKeySet) DelRelinearizationKey(id string)             { delete(s.Value, id) }
func (s *RelinearizationKeySet) GetRelinearizationKey(id string) *RelinearizationKey {
	if k, ok := s.Value[id]; ok {
		return k
	}
	panic("cannot GetRelinearizationKey: there is no relinearization key with given id")
}
func NewConjugationKeySet() *ConjugationKeySet {
	return &ConjugationKeySet{map[string]*ConjugationKey{}}
}
func (s *ConjugationKeySet) AddConjugationKey(k *ConjugationKey) { s.Value[k.ID] = k }
func (s *ConjugationKeySet) DelConjugationKey(id string)         { delete(s.Value, id) }
func (s *ConjugationKeySet) GetConjugationKey(id string) *ConjugationKey {
	if k, ok := s.Value[id]; ok {
		return k
	}
	panic("cannot GetConjugationKey: there is no conjugation key with given id")
}
func NewRotationKeySet() *RotationKeySet {
	return &RotationKeySet{map[string]map[uint]*RotationKey{}}
}
func (s *RotationKeySet) AddRotationKey(k *RotationKey) {
	if s.Value[k.ID] == nil {
		s.Value[k.ID] = map[uint]*RotationKey{}
	}
	s.Value[k.ID][k.RotIdx] = k
}
func (s *RotationKeySet) DelRotationKey(id string, rotidx uint) { delete(s.Value[id], rotidx) }
func (s *RotationKeySet) GetRotationKey(id string, rotidx uint) *RotationKey {
	if k, ok := s.Value[id][rotidx]; ok {
		return k
	}
	panic("cannot GetRotationKey: there is no rotation key with given id")
}
