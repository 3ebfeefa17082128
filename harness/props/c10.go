package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

func init() {
	reg(&Prop{ID: "C10",
		Rule:  "every history of public operations of the bounded length on one encryptor/evaluator/decryptor/key-set context (including refused calls that panicked, and keys removed and re-added), followed by every probe operation: a deterministic probe must return exactly the result it returns on freshly created objects, an encryption must decrypt to its message within the fresh-noise bound",
		Bound: "quick: all histories of length 2 over about 170 operation instances on 3 parameter shapes (then all probes in sequence; the history runs, in rotation over the last operation, on other objects than the probes, on the very objects of the probes holding other contents, or other contents and levels), every operation 4200 times in a row, three orders of 12 rounds over all operations; thorough: length 2 on 8 shapes and length 3 over a 50-operation subset",
		Fn: func(r *Run) {
			cl := []string{"n4a1", "n5a2", "n5sp"}
			if r.Thorough {
				cl = smallCfgs
			}
			for _, cn := range cl {
				ops := worldOps(GetCfg(cn))
				for i := range ops {
					cn, i := cn, i
					r.Case(cn+"/"+ops[i].name, func(c *Case) { c10case(c, cn, ops, []int{i}, len(ops), 1) })
				}
			}
			// long lives: one operation 4200 times, and rounds over all operations
			ll := cl[:1]
			if r.Thorough {
				ll = cl
			}
			for _, cn := range ll {
				ops := worldOps(GetCfg(cn))
				for i := range ops {
					cn, i := cn, i
					pre := make([]int, 4199)
					for k := range pre {
						pre[k] = i
					}
					r.Case(cn+"/4200x/"+ops[i].name, func(c *Case) { c10only(c, cn, ops, pre, i) })
				}
				for _, stride := range []int{1, 7, len(ops) - 1} {
					cn, stride := cn, stride
					var pre []int
					for k := 0; k < 12*len(ops); k++ {
						pre = append(pre, k*stride%len(ops))
					}
					r.Case(fmt.Sprintf("%s/rounds/%d", cn, stride), func(c *Case) { c10only(c, cn, ops, pre, 0) })
				}
			}
			if r.Thorough {
				ops := subOps(worldOps(GetCfg("n4a1")))
				for i := range ops {
					for j := range ops {
						i, j := i, j
						r.Case(fmt.Sprintf("n4a1/3/%d/%d", i, j), func(c *Case) { c10case(c, "n4a1", ops, []int{i, j}, len(ops), 1) })
					}
				}
			}
		}})
}

func subOps(l []op) []op {
	var r []op
	for i, o := range l {
		if i%3 == 0 || o.random || o.refuses {
			r = append(r, o)
		}
	}
	return r
}

// norm turns a result into a comparable canonical value: residues reduced.
func norm(x *Ctx, res []interface{}) string {
	out := ""
	for _, o := range res {
		switch t := o.(type) {
		case *mkckks.Ciphertext:
			out += fmt.Sprintf("%x|%v;", normCt(x, t.Value), t.Scale)
		case *mkrlwe.Ciphertext:
			out += fmt.Sprintf("%x;", normCt(x, t.Value))
		case *mkrlwe.HoistedCiphertext:
			m := map[string][][]uint64{}
			for id, k := range t.Value {
				for i := range k.Value {
					m[fmt.Sprintf("%s|%d", id, i)] = nil
				}
			}
			out += fmt.Sprintf("hoisted%x;", Fp(m))
		case *rlwe.Plaintext:
			out += fmt.Sprintf("%x;", normCt(x, map[string]*polyT{"": t.Value}))
		case *ckks.Plaintext:
			out += fmt.Sprintf("%x|%v;", normCt(x, map[string]*polyT{"": t.Value}), t.Scale)
		default:
			out += fmt.Sprintf("%x;", Fp(o))
		}
	}
	return out
}

func normCt(x *Ctx, v map[string]*polyT) [32]byte {
	q := x.P.RingQ().Modulus
	m := map[string][][]uint64{}
	ntt := map[string]bool{}
	for id, p := range v {
		for i, row := range p.Coeffs {
			r := make([]uint64, len(row))
			for j, y := range row {
				r[j] = y % q[i]
			}
			m[id] = append(m[id], r)
		}
		ntt[id] = p.IsNTT
	}
	return Fp(m, ntt)
}

func c10only(c *Case, cn string, ops []op, prefix []int, last int) {
	c10run(c, cn, ops, prefix, last, last+1)
}

// c10case runs prefix, then every last history element in turn (each on a
// fresh context), then all probes on that context.
func c10case(c *Case, cn string, ops []op, prefix []int, n, _ int) {
	c10run(c, cn, ops, prefix, 0, n)
}

func c10run(c *Case, cn string, ops []op, prefix []int, from, n int) {
	idl := []string{"a", "user1", "00"}
	s := CachedSys(cn, idl)
	Reseed("c10world" + cn)
	x0 := s.Ctx()
	w0 := newWorld(x0)
	alt := []*world{w0, newWorldV(x0, 1), newWorldV(x0, 2)}
	// references on fresh objects
	ref := make([]string, len(ops))
	meta := make([]string, len(ops))
	for i, o := range ops {
		if o.refuses {
			continue
		}
		f := s.Ctx()
		if o.random {
			meta[i] = ctShape(o.run(f, w0.clone())[0].(*mkckks.Ciphertext))
			continue
		}
		ref[i] = norm(f, o.run(f, w0.clone()))
	}
	run := func(x *Ctx, w *world, k int) (res []interface{}) {
		o := ops[k]
		p, v := Panics(func() { res = o.run(x, w) })
		if p != o.refuses {
			if p {
				c.Failf("%s panics after this history: %v", o.name, v)
			}
			c.Failf("%s returned although a key it needs is missing", o.name)
		}
		c.Tr(1)
		return
	}
	for last := from; last < n; last++ {
		if c.OutOfTime() {
			return
		}
		Reseed(fmt.Sprint(c.ID, last))
		x := s.Ctx()
		// where the history runs: on other objects than the probes, on the
		// probes' own objects holding other contents, or other shapes too
		variant := (last + prefix[0] + len(prefix)) % 3
		w := alt[variant].clone()
		base := c.TrailLen()
		for _, k := range append(append([]int{}, prefix...), last) {
			c.Step(ops[k].name)
			run(x, w, k)
		}
		// membership churn on the same sets
		x.RLS.DelRelinearizationKey(idl[0])
		x.RLS.AddRelinearizationKey(s.RLK[idl[0]])
		if variant == 0 {
			w = w0.clone()
		} else {
			w.become(w0)
		}
		for k, o := range ops {
			c.Step("probe " + o.name)
			res := run(x, w, k)
			if o.refuses {
			} else if o.random {
				if g := ctShape(res[0].(*mkckks.Ciphertext)); g != meta[k] {
					c.Failf("%s: participants, level or scale depend on the operations executed before it: %s, on fresh objects %s", o.name, g, meta[k])
				}
				c10rand(c, x, w, res[0].(*mkckks.Ciphertext), o)
			} else if g := norm(x, res); g != ref[k] {
				c.Failf("%s depends on the operations executed before it", o.name)
			}
			c.Back()
		}
		c.State(fmt.Sprintf("%s|%d|%v|%d", cn, len(prefix), prefix[:minInt(len(prefix), 3)], last))
		c.TrailTo(base)
		c.Trace()
	}
	c.Outcome(fmt.Sprint(len(prefix), prefix[:minInt(len(prefix), 3)]))
	c.Sample("history %q then all %d probes", ops[prefix[0]].name, len(ops))
}

func c10rand(c *Case, x *Ctx, w *world, ct *mkckks.Ciphertext, o op) {
	v := x.Encrypt(x.IDs[0], w.msg.Value) // model only
	v.Ct = ct
	v.Level = ct.Level()
	v.IDs = map[string]bool{}
	for id := range ct.IDSet().Value {
		v.IDs[id] = true
	}
	v.Desc = o.name
	if o.val != 0 {
		v.S = Vec(x.Cfg.Slots(), o.val)
	}
	if math.Abs(ct.Scale-x.P.Scale()) > 0 {
		c.Failf("%s: scale %g", o.name, ct.Scale)
	}
	x.Check(c, v)
}

// ctShape describes everything of a ciphertext but its residues.
func ctShape(ct *mkckks.Ciphertext) string {
	m := map[string]string{}
	for id, p := range ct.Value {
		m[id] = fmt.Sprintf("%d,%d,%v", len(p.Coeffs), p.Degree(), p.IsNTT)
	}
	return fmt.Sprintf("level %d scale %g components %v", ct.Level(), ct.Scale, m)
}
