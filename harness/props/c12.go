package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C12",
		Rule:  "explicit-state: every sequence of add/delete/replace/lookup operations up to the depth on each of the five key sets and of add/remove/copy/union/intersection on two ID sets, compared after every step with a map model; every sequence of membership events (join, leave, re-key, also through the default key generator) on live key sets shared with one evaluator, after each event every probe (encrypt, multiply, rotate, conjugate, decrypt for every participant pair) must give the reference value if all needed keys are present and refuse otherwise",
		Bound: "key sets: 2 ids x 2 key versions depth 4 (rotation: x 2 indices, depth 3); ID sets depth 4 over 3 ids and 2 registers; membership depth 4 (second shape 3) over 3 parties, with and without use of all objects between the events (thorough: one more everywhere, 3 shapes); sets of 25 confusable names, 110 (name, index) pairs",
		Fn: func(r *Run) {
			d := 0
			if r.Thorough {
				d = 1
			}
			for k := 0; k < 6; k++ {
				for _, kind := range []string{"sk", "pk", "rlk", "cjk"} {
					k, kind := k, kind
					r.Case(fmt.Sprintf("set/%s/%d", kind, k), func(c *Case) { c12set(c, kind, k, 4+d) })
				}
			}
			for k := 0; k < 12; k++ {
				k := k
				r.Case(fmt.Sprintf("set/rtk/%d", k), func(c *Case) { c12rot(c, k, 3+d) })
			}
			for k := 0; k < 17; k++ {
				k := k
				r.Case(fmt.Sprintf("idset/%d", k), func(c *Case) { c12id(c, k, 4+d) })
			}
			cl := []string{"n4a1", "n5a2"}
			if r.Thorough {
				cl = []string{"n4a1", "n5a2", "n5sp"}
			}
			for _, cn := range cl {
				for i := range events {
					for j := range events {
						cn, i, j := cn, i, j
						dm := 3 + d
						if cn == "n4a1" {
							dm++
						}
						r.Case(fmt.Sprintf("member/%s/%d/%d", cn, i, j), func(c *Case) { c12member(c, cn, i, j, dm) })
					}
				}
			}
			r.Case("reserved", c12reserved)
			for _, kind := range []string{"sk", "pk", "rlk", "cjk"} {
				kind := kind
				r.Case("crowd/"+kind, func(c *Case) { c12crowd(c, kind) })
			}
			r.Case("crowd/rtk", c12rotCrowd)
			r.Case("crowd/id", c12idCrowd)
		}})
}

// ---- key sets --------------------------------------------------------------

type kset struct {
	add func(id string, ver int)
	del func(id string)
	get func(id string) (ver int, ok bool)
}

// keys are told apart by content: version v of a party's key is marked in one
// coefficient, so a set may keep the object it was given or a copy of it.
func markPoly(p rlwe.PolyQP, id string, v int) rlwe.PolyQP {
	h := uint64(v + 1)
	for _, b := range []byte(id) {
		h = (h*131 + uint64(b) + 7) % (1 << 28)
	}
	p.Q.Coeffs[0][0] = h
	return p
}

func newKset(kind string, P mkrlwe.Parameters, ids []string) kset {
	get := func(f func() [32]byte, want func(v int) [32]byte) (v int, ok bool) {
		var got [32]byte
		if p, _ := Panics(func() { got = f() }); p {
			return -1, false
		}
		for v := 0; v < 2; v++ {
			if got == want(v) {
				return v, true
			}
		}
		return -1, true
	}
	switch kind {
	case "sk":
		s := mkrlwe.NewSecretKeySet()
		mk := func(id string, v int) *mkrlwe.SecretKey {
			k := mkrlwe.NewSecretKey(P, id)
			markPoly(k.Value, id, v)
			return k
		}
		return kset{func(id string, v int) { s.AddSecretKey(mk(id, v)) }, s.DelSecretKey, func(id string) (int, bool) {
			return get(func() [32]byte { return Fp(s.GetSecretKey(id)) }, func(v int) [32]byte { return Fp(mk(id, v)) })
		}}
	case "pk":
		s := mkrlwe.NewPublicKeyKeySet()
		mk := func(id string, v int) *mkrlwe.PublicKey {
			k := mkrlwe.NewPublicKey(P, id)
			markPoly(k.Value[0], id, v)
			return k
		}
		return kset{func(id string, v int) { s.AddPublicKey(mk(id, v)) }, s.DelPublicKey, func(id string) (int, bool) {
			return get(func() [32]byte { return Fp(s.GetPublicKey(id)) }, func(v int) [32]byte { return Fp(mk(id, v)) })
		}}
	case "rlk":
		s := mkrlwe.NewRelinearizationKeyKeySet(P)
		mk := func(id string, v int) *mkrlwe.RelinearizationKey {
			k := mkrlwe.NewRelinearizationKey(P, id)
			for _, d := range k.Value {
				markPoly(d.Value[0], id, v)
			}
			return k
		}
		return kset{func(id string, v int) { s.AddRelinearizationKey(mk(id, v)) }, s.DelRelinearizationKey, func(id string) (int, bool) {
			return get(func() [32]byte { return Fp(s.GetRelinearizationKey(id)) }, func(v int) [32]byte { return Fp(mk(id, v)) })
		}}
	default:
		s := mkrlwe.NewConjugationKeySet()
		mk := func(id string, v int) *mkrlwe.ConjugationKey {
			k := mkrlwe.NewConjugationKey(P, id)
			markPoly(k.Value.Value[0], id, v)
			return k
		}
		return kset{func(id string, v int) { s.AddConjugationKey(mk(id, v)) }, s.DelConjugationKey, func(id string) (int, bool) {
			return get(func() [32]byte { return Fp(s.GetConjugationKey(id)) }, func(v int) [32]byte { return Fp(mk(id, v)) })
		}}
	}
}

// c12crowd: a set that holds a key of every name of a large group: removing,
// renewing and looking up any one touches no other.
func c12crowd(c *Case, kind string) {
	P := CachedSys("n4a1", []string{"a", "user1", "00"}).P.Parameters
	names := append(append([]string{}, crowd...), "", "a", "ab", "0x0", "+0")
	m := map[string]int{}
	s := newKset(kind, P, names)
	look := func(what string) {
		c.Tr(1)
		for _, q := range append(names, "zz", "user2", "company") {
			v, ok := s.get(q)
			w, in := m[q]
			if ok != in || (in && v != w) {
				c.Failf("%s set after %s: lookup of %q gives (version %d, present %v), model (%d, %v)", kind, what, q, v, ok, w, in)
			}
		}
		c.State(fmt.Sprint(kind, m))
	}
	for _, n := range names {
		s.add(n, 0)
		m[n] = 0
		look("add " + n)
	}
	for _, n := range names {
		s.del(n)
		delete(m, n)
		look("del " + n)
		s.del(n)
		look("del twice " + n)
		s.add(n, 1)
		m[n] = 1
		look("renew " + n)
		s.add(n, 0)
		m[n] = 0
		look("replace " + n)
	}
	for _, n := range names {
		s.del(n)
		delete(m, n)
		look("empty " + n)
	}
	c.Trace()
	c.Outcome("crowd" + kind)
}

// c12rotCrowd: the same for rotation keys, with indices and names that are
// confused when joined.
func c12rotCrowd(c *Case) {
	P := CachedSys("n4a1", []string{"a", "user1", "00"}).P.Parameters
	names := []string{"", "1", "11", "a", "a1", "a:1", "a/1", "user1", "user11", " user1"}
	rots := []uint{0, 1, 2, 3, 7, 11, 12, 111, 1 << 13, 1 << 31, 1<<32 + 1}
	type ir struct {
		id string
		r  uint
	}
	mk := func(k ir, v int) *mkrlwe.RotationKey {
		o := mkrlwe.NewRotationKey(P, k.r, k.id)
		markPoly(o.Value.Value[0], fmt.Sprint(len(k.id), k), v)
		return o
	}
	fp := map[ir][2][32]byte{}
	s := mkrlwe.NewRotationKeySet()
	m := map[ir]int{}
	var all []ir
	for _, id := range names {
		for _, r := range rots {
			k := ir{id, r}
			all = append(all, k)
			fp[k] = [2][32]byte{Fp(mk(k, 0)), Fp(mk(k, 1))}
		}
	}
	look := func(what string) {
		c.Tr(1)
		for _, q := range all {
			var got *mkrlwe.RotationKey
			p, _ := Panics(func() { got = s.GetRotationKey(q.id, q.r) })
			v, in := m[q]
			if p == in || in && Fp(got) != fp[q][v] {
				c.Failf("rotation key set after %s: lookup of %v refused=%v, model present=%v", what, q, p, in)
			}
		}
		c.State(fmt.Sprint("rot", m))
	}
	for _, k := range all {
		s.AddRotationKey(mk(k, 0))
		m[k] = 0
		look(fmt.Sprint("add ", k))
	}
	for _, k := range all {
		s.DelRotationKey(k.id, k.r)
		delete(m, k)
		look(fmt.Sprint("del ", k))
		s.AddRotationKey(mk(k, 1))
		m[k] = 1
		look(fmt.Sprint("renew ", k))
	}
	for _, k := range all {
		s.DelRotationKey(k.id, k.r)
		delete(m, k)
		look(fmt.Sprint("empty ", k))
	}
	c.Trace()
}

// c12idCrowd: participant sets over the whole group: every pair of prefixes and
// suffixes, all set operations.
func c12idCrowd(c *Case) {
	names := append(append([]string{}, crowd...), "", "ab", "0x0")
	build := func(l []string) (*mkrlwe.IDSet, map[string]bool) {
		s, m := mkrlwe.NewIDSet(), map[string]bool{}
		for _, n := range l {
			s.Add(n)
			m[n] = true
		}
		return s, m
	}
	for i := 0; i <= len(names); i++ {
		for j := 0; j <= len(names); j++ {
			c.Tr(1)
			A, a := build(names[:i])
			B, b := build(names[j:])
			un, in := map[string]bool{}, map[string]bool{}
			for k := range a {
				un[k] = true
				if b[k] {
					in[k] = true
				}
			}
			for k := range b {
				un[k] = true
			}
			if !SameIDs(A.Union(B), un) || !SameIDs(B.Union(A), un) {
				c.Failf("union of the first %d and the names from %d on", i, j)
			}
			if !SameIDs(A.Intersection(B), in) || !SameIDs(B.Intersection(A), in) {
				c.Failf("intersection of the first %d and the names from %d on", i, j)
			}
			if C := A.CopyNew(); i > 0 {
				C.Remove(names[i-1])
				if C.Has(names[i-1]) || !A.Has(names[i-1]) || C.Size() != i-1 {
					c.Failf("removing from a copy of %d names", i)
				}
			}
			if !SameIDs(A, a) || !SameIDs(B, b) || A.Size() != i {
				c.Failf("operands changed")
			}
			c.State(fmt.Sprint("idc", i, j))
		}
	}
	c.Trace()
}

func seqs(first, n, depth int, f func(seq []int)) {
	seq := []int{first}
	var rec func()
	rec = func() {
		if len(seq) == depth {
			f(seq)
			return
		}
		for i := 0; i < n; i++ {
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

func c12set(c *Case, kind string, first, depth int) {
	P := CachedSys("n4a1", []string{"a", "user1", "00"}).P.Parameters
	ids := []string{"a", "b"}
	seqs(first, 6, depth, func(seq []int) {
		s := newKset(kind, P, ids)
		m := map[string]int{}
		base := c.TrailLen()
		for _, o := range seq {
			id := ids[o%2]
			if o < 4 {
				c.Step(fmt.Sprintf("add(%s,v%d)", id, o/2))
				s.add(id, o/2)
				m[id] = o / 2
			} else {
				c.Step("del(" + id + ")")
				s.del(id)
				delete(m, id)
			}
			c.Tr(1)
			for _, q := range append(ids, "zz") {
				v, ok := s.get(q)
				w, in := m[q]
				if ok != in || (in && v != w) {
					c.Failf("%s set: lookup of %q gives (version %d, present %v), model (%d, %v)", kind, q, v, ok, w, in)
				}
			}
			c.State(fmt.Sprint(kind, m))
		}
		c.TrailTo(base)
		c.Trace()
	})
	c.Outcome(kind)
}

func c12rot(c *Case, first, depth int) {
	P := CachedSys("n4a1", []string{"a", "user1", "00"}).P.Parameters
	ids := []string{"a", "b"}
	rots := []uint{1, 4}
	seqs(first, 12, depth, func(seq []int) {
		s := mkrlwe.NewRotationKeySet()
		ks := map[string]*mkrlwe.RotationKey{}
		for _, id := range ids {
			for _, r := range rots {
				for v := 0; v < 2; v++ {
					k := mkrlwe.NewRotationKey(P, r, id)
					markPoly(k.Value.Value[0], fmt.Sprint(id, r), v)
					ks[fmt.Sprint(id, r, v)] = k
				}
			}
		}
		m := map[string]*mkrlwe.RotationKey{}
		base := c.TrailLen()
		for _, o := range seq {
			id, r := ids[o%2], rots[o/2%2]
			key := fmt.Sprint(id, r)
			if o < 8 {
				k := ks[fmt.Sprint(id, r, o/4)]
				c.Step(fmt.Sprintf("add(%s,%d,v%d)", id, r, o/4))
				s.AddRotationKey(k)
				m[key] = k
			} else {
				c.Step(fmt.Sprintf("del(%s,%d)", id, r))
				s.DelRotationKey(id, r)
				delete(m, key)
			}
			c.Tr(1)
			st := ""
			for _, q := range []string{"a", "b", "zz"} {
				for _, rr := range []uint{0, 1, 2, 4} {
					var got *mkrlwe.RotationKey
					p, _ := Panics(func() { got = s.GetRotationKey(q, rr) })
					w, in := m[fmt.Sprint(q, rr)]
					if p == in || (in && Fp(got) != Fp(w)) {
						c.Failf("rotation key set: lookup of (%q,%d) refused=%v, model present=%v", q, rr, p, in)
					}
					st += fmt.Sprint(in, ks[fmt.Sprint(q, rr, 1)] == w)
				}
			}
			c.State("rtk" + st)
		}
		c.TrailTo(base)
		c.Trace()
	})
}

// ---- ID sets ---------------------------------------------------------------

func keysOf(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func c12id(c *Case, first, depth int) {
	ids := []string{"a", "", "00"}
	seqs(first, 17, depth, func(seq []int) {
		A, B := mkrlwe.NewIDSet(), mkrlwe.NewIDSet()
		a, b := map[string]bool{}, map[string]bool{}
		base := c.TrailLen()
		cp := func(m map[string]bool) map[string]bool {
			o := map[string]bool{}
			for k := range m {
				o[k] = true
			}
			return o
		}
		for _, o := range seq {
			switch {
			case o < 3:
				c.Step("A.add")
				A.Add(ids[o])
				a[ids[o]] = true
			case o < 6:
				c.Step("B.add")
				B.Add(ids[o-3])
				b[ids[o-3]] = true
			case o < 9:
				c.Step("A.remove")
				A.Remove(ids[o-6])
				delete(a, ids[o-6])
			case o < 12:
				c.Step("B.remove")
				B.Remove(ids[o-9])
				delete(b, ids[o-9])
			case o == 12:
				c.Step("A=A.union(B)")
				A = A.Union(B)
				for k := range b {
					a[k] = true
				}
			case o == 13:
				c.Step("B=A.intersection(B)")
				B = A.Intersection(B)
				for k := range cp(b) {
					if !a[k] {
						delete(b, k)
					}
				}
			case o == 14:
				c.Step("A=B.copy")
				A = B.CopyNew()
				a = cp(b)
			case o == 15:
				c.Step("B=B.union(A)")
				B = B.Union(A)
				for k := range a {
					b[k] = true
				}
			case o == 16:
				c.Step("A=B.intersection(A)")
				A = B.Intersection(A)
				for k := range cp(a) {
					if !b[k] {
						delete(a, k)
					}
				}
			}
			c.Tr(1)
			if !SameIDs(A, a) || !SameIDs(B, b) || A.Has("zz") || B.Has("zz") {
				c.Failf("A=%v B=%v, model A={%s} B={%s}", A.Value, B.Value, keysOf(a), keysOf(b))
			}
			// derived sets are independent of the sets they came from
			for i, d := range []*mkrlwe.IDSet{A.Union(B), B.Union(A), A.Intersection(B), B.Intersection(A), A.CopyNew(), A.Union(A), A.Intersection(A)} {
				d.Add("zz")
				for _, id := range ids {
					d.Remove(id)
				}
				if d.Size() != 1 || !SameIDs(A, a) || !SameIDs(B, b) {
					c.Failf("changing derived set %d changes the sets it came from: A=%v B=%v, model A={%s} B={%s}", i, A.Value, B.Value, keysOf(a), keysOf(b))
				}
			}
			for _, id := range ids {
				if A.Has(id) != a[id] || B.Has(id) != b[id] {
					c.Failf("membership of %q differs from the model", id)
				}
			}
			c.State("ids" + keysOf(a) + "|" + keysOf(b))
		}
		c.TrailTo(base)
		c.Trace()
	})
}

func c12reserved(c *Case) {
	s := mkrlwe.NewIDSet()
	p, _ := Panics(func() { s.Add("0") })
	c.Tr(1)
	if !p && s.Has("0") {
		c.Failf("the reserved name 0 is accepted as a party")
	}
	for _, id := range []string{"00", " 0", "0 ", "", "-0", "O"} {
		if p, _ := Panics(func() { s.Add(id) }); p || !s.Has(id) {
			c.Failf("party name %q refused", id)
		}
		c.Tr(1)
	}
	c.State("reserved")
	c.Trace()
}

// ---- live membership -------------------------------------------------------

type event struct {
	name string
	f    func(m *members)
}

type members struct {
	x   *Ctx
	ver map[string]int // current key version, absent when not a member
	cts []*memCt
	c   *Case
}

// memCt is a ciphertext made under certain key versions.
type memCt struct {
	v   *V
	ver map[string]int
}

var events = []event{
	{"join a", func(m *members) { m.join("a", 0) }},
	{"join b", func(m *members) { m.join("b", 0) }},
	{"join c", func(m *members) { m.join("c", 0) }},
	{"leave a", func(m *members) { m.leave("a") }},
	{"leave b", func(m *members) { m.leave("b") }},
	{"rekey a", func(m *members) { m.join("a", 1) }},
	{"rekey b", func(m *members) { m.join("b", 1) }},
}

// second generation keys live in a second system over the same parameters
type gens struct{ s [2]*Sys }

var genCache = map[string]*gens{}

func generation(cn string) *gens {
	if g, ok := genCache[cn]; ok {
		return g
	}
	idl := []string{"a", "b", "c"}
	s := CachedSys(cn, idl)
	Reseed("second generation" + cn)
	t := *s
	t.SK = map[string]*mkrlwe.SecretKey{}
	t.PK = map[string]*mkrlwe.PublicKey{}
	t.RLK = map[string]*mkrlwe.RelinearizationKey{}
	t.RTK = map[string][]*mkrlwe.RotationKey{}
	t.CJK = map[string]*mkrlwe.ConjugationKey{}
	for _, id := range idl {
		t.SK[id], t.PK[id] = s.KG.GenKeyPair(id)
		t.RLK[id] = s.KG.GenRelinearizationKey(t.SK[id], s.KG.GenSecretKey(id))
		for _, r := range s.RotIdx {
			t.RTK[id] = append(t.RTK[id], s.KG.GenRotationKey(r, t.SK[id]))
		}
		t.CJK[id] = s.KG.GenConjugationKey(t.SK[id])
	}
	g := &gens{[2]*Sys{s, &t}}
	genCache[cn] = g
	return g
}

func (m *members) join(id string, ver int) {
	s := generation(m.x.Cfg.Name).s[ver]
	m.ver[id] = ver
	m.x.SKS.AddSecretKey(s.SK[id])
	m.x.RLS.AddRelinearizationKey(s.RLK[id])
	for _, k := range s.RTK[id] {
		r := k.RotIdx
		if r&(r-1) != 0 || id != "a" { // party a leaves the default ones to the generator
			m.x.RTS.AddRotationKey(k)
		}
	}
	if id == "a" {
		m.x.KG.GenDefaultRotationKeys(s.SK[id], m.x.RTS)
	}
	m.x.CJS.AddConjugationKey(s.CJK[id])
	// a newcomer contributes a ciphertext
	n := m.x.Cfg.Slots()
	v := m.x.Encrypt(id, Vec(n, 3*ver+len(id)+int(id[0])))
	v.Ct = m.x.Enc.EncryptMsgNew(Msg(v.S), s.PK[id])
	m.cts = append(m.cts, &memCt{v, map[string]int{id: ver}})
}

func (m *members) leave(id string) {
	delete(m.ver, id)
	m.x.SKS.DelSecretKey(id)
	m.x.RLS.DelRelinearizationKey(id)
	for _, r := range m.x.RotIdx {
		m.x.RTS.DelRotationKey(id, uint(r))
	}
	m.x.CJS.DelConjugationKey(id)
}

// fits: all participants present (any version) / with the version used.
func (m *members) present(vs ...map[string]int) (any, same bool) {
	any, same = true, true
	for _, v := range vs {
		for id, k := range v {
			cur, ok := m.ver[id]
			if !ok {
				any, same = false, false
			} else if cur != k {
				same = false
			}
		}
	}
	return
}

func merge(a, b map[string]int) (map[string]int, bool) {
	r := map[string]int{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if o, ok := r[k]; ok && o != v {
			return nil, false
		}
		r[k] = v
	}
	return r, true
}

func (m *members) probe() {
	c, x := m.c, m.x
	try := func(name string, any, same bool, f func() *V) {
		c.Step(name)
		var w *V
		p, e := Panics(func() { w = f() })
		c.Tr(1)
		if any && p {
			c.Failf("%s fails although all participants' keys are present: %v", name, e)
		}
		if !any && !p {
			c.Failf("%s returns although a participant's key is missing", name)
		}
		if same && !p {
			x.Check(c, w)
		}
		c.Back()
	}
	for i, a := range m.cts {
		any, same := m.present(a.ver)
		try(fmt.Sprintf("decrypt #%d", i), any, same, func() *V { x.Decrypt(a.v); return a.v })
		try(fmt.Sprintf("rotate #%d", i), any, same, func() *V { return x.Rotate(a.v, 3) })
		try(fmt.Sprintf("rotateH #%d", i), any, same, func() *V { return x.RotateHoisted(a.v, 2) })
		try(fmt.Sprintf("conjugate #%d", i), any, same, func() *V { return x.Conj(a.v) })
		for j, b := range m.cts {
			vv, ok := merge(a.ver, b.ver)
			if !ok {
				continue // one name, two keys: no meaning is promised
			}
			any, same := m.present(vv)
			try(fmt.Sprintf("multiply #%d #%d", i, j), any, same, func() *V { return x.Mul(a.v, b.v) })
			try(fmt.Sprintf("hoisted multiply #%d #%d", i, j), any, same, func() *V { return x.MulHoisted(a.v, b.v, 3) })
			// addition needs no keys
			var w *V
			if p, e := Panics(func() { w = x.Add(a.v, b.v) }); p {
				c.Failf("add #%d #%d fails: %v", i, j, e)
			}
			try(fmt.Sprintf("decrypt sum #%d #%d", i, j), any, same, func() *V { x.Decrypt(w); return w })
		}
	}
	st := ""
	for _, id := range []string{"a", "b", "c"} {
		v, ok := m.ver[id]
		st += fmt.Sprint(ok, v)
	}
	for _, q := range m.cts {
		st += fmt.Sprint(q.ver)
	}
	c.State(st)
}

func c12member(c *Case, cn string, i, j, depth int) {
	g := generation(cn)
	run1 := func(seq []int, every bool) {
		Reseed(fmt.Sprint(c.ID, seq))
		x := g.s[0].Ctx()
		x.NewSets(nil)
		m := &members{x: x, ver: map[string]int{}, c: c}
		base := c.TrailLen()
		for k, e := range seq {
			c.Step(events[e].name)
			events[e].f(m)
			if every || k == len(seq)-1 {
				m.probe()
			}
		}
		c.TrailTo(base)
		c.Trace()
	}
	// once with the objects in use between the events, once without
	run := func(seq []int) {
		run1(seq, false)
		if len(seq) > 1 {
			run1(seq, true)
		}
	}
	run([]int{i, j})
	for d := 3; d <= depth; d++ {
		seqs(i, len(events), d, func(seq []int) {
			if seq[1] == j && !c.OutOfTime() {
				run(seq)
			}
		})
	}
	if j == 0 {
		run([]int{i})
	}
	c.Outcome(events[i].name + events[j].name)
	c.Sample("%s; %s; ...: all continuations up to depth %d", events[i].name, events[j].name, depth)
}
