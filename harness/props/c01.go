package props

import (
	"fmt"
	"strings"

	. "verifharness/lib"
)

// instr is one instruction of the two-register machine.
type instr struct {
	name string
	need int // minimum level of the operands
	f    func(x *Ctx, r []*V) *V
	dst  int
}

func machine(cfg Cfg) []instr {
	var p []instr
	n := cfg.Slots()
	pt := Vec(n, 9)
	for d := 0; d < 2; d++ {
		d := d
		o := 1 - d
		p = append(p,
			instr{fmt.Sprintf("r%d+=r%d", d, o), 0, func(x *Ctx, r []*V) *V { return x.Add(r[d], r[o]) }, d},
			instr{fmt.Sprintf("r%d-=r%d", d, o), 0, func(x *Ctx, r []*V) *V { return x.Sub(r[d], r[o]) }, d},
			instr{fmt.Sprintf("r%d*=r%d", d, o), 1, func(x *Ctx, r []*V) *V { return x.Mul(r[d], r[o]) }, d},
			instr{fmt.Sprintf("r%d*h=r%d", d, o), 1, func(x *Ctx, r []*V) *V { return x.MulHoisted(r[d], r[o], 2) }, d},
			instr{fmt.Sprintf("r%d=r%d^2", d, d), 1, func(x *Ctx, r []*V) *V { return x.Mul(r[d], r[d]) }, d},
			instr{fmt.Sprintf("r%d+=r%d", d, d), 0, func(x *Ctx, r []*V) *V { return x.Add(r[d], r[d]) }, d},
			instr{fmt.Sprintf("rot(r%d,1)", d), 0, func(x *Ctx, r []*V) *V { return x.Rotate(r[d], 1) }, d},
			instr{fmt.Sprintf("rot(r%d,-3)", d), 0, func(x *Ctx, r []*V) *V { return x.Rotate(r[d], -3) }, d},
			instr{fmt.Sprintf("rotH(r%d,2)", d), 0, func(x *Ctx, r []*V) *V { return x.RotateHoisted(r[d], 2) }, d},
			instr{fmt.Sprintf("conj(r%d)", d), 0, func(x *Ctx, r []*V) *V { return x.Conj(r[d]) }, d},
			instr{fmt.Sprintf("r%d*=pt", d), 1, func(x *Ctx, r []*V) *V { return x.MulPtxt(r[d], pt) }, d},
			instr{fmt.Sprintf("r%d*=-3", d), 0, func(x *Ctx, r []*V) *V { return x.MultByConst(r[d], -3) }, d},
			// leaves the product at a scale larger by one modulus: the following
			// instructions meet operands of different scales
			instr{fmt.Sprintf("r%d*=0.375", d), 1, func(x *Ctx, r []*V) *V { return x.MultByConst(r[d], 0.375) }, d},
			instr{fmt.Sprintf("r%d*=(0.5-2i)", d), 1, func(x *Ctx, r []*V) *V { return x.MultByConst(r[d], complex(0.5, -2)) }, d},
			instr{fmt.Sprintf("rescale(r%d)", d), 1, func(x *Ctx, r []*V) *V {
				w, err := x.RescaleNew(r[d], x.P.Scale())
				if err != nil {
					panic(err)
				}
				return w
			}, d},
			instr{fmt.Sprintf("r%d=enc", d), 0, func(x *Ctx, r []*V) *V { return x.Encrypt(x.IDs[2-d], Vec(n, 21+d)) }, d},
			instr{fmt.Sprintf("drop(r%d)", d), 1, func(x *Ctx, r []*V) *V { return x.Drop(r[d], 1) }, d},
		)
	}
	return p
}

// starts are the initial register contents.
var starts = []string{"disjoint", "same", "overlap"}

func startRegs(x *Ctx, kind string) []*V {
	n := x.Cfg.Slots()
	a, b := x.IDs[0], x.IDs[1]
	switch kind {
	case "disjoint":
		return []*V{x.Encrypt(a, Vec(n, 1)), x.Encrypt(b, Vec(n, 2))}
	case "same":
		return []*V{x.Encrypt(a, Vec(n, 1)), x.Encrypt(a, Vec(n, 2))}
	default:
		c := x.IDs[2]
		v := x.Add(x.Encrypt(b, Vec(n, 2)), x.Encrypt(c, Vec(n, 3)))
		return []*V{x.EncryptExpand(a, []string{a, b}, Vec(n, 1)), v}
	}
}

func enabled(in instr, r []*V) bool {
	if strings.HasSuffix(in.name, fmt.Sprintf("=r%d", 1-in.dst)) && r[1-in.dst].Level < in.need {
		return false
	}
	return r[in.dst].Level >= in.need
}

func init() {
	reg(&Prop{ID: "C01",
		Rule:  "depth-first enumeration of every instruction sequence of a two-register machine over the public evaluator operations (34 instructions), from three initial participant configurations; every intermediate register is decrypted and compared with the cleartext machine; a case is one first instruction pair, and distinct states are (participants, level, scale, cleartext)",
		Bound: "quick: depth 4 at N=16 (4 moduli, digit 1), depth 2 or 3 on nine further parameter shapes, 1200-instruction programs in all strides on 4 shapes; thorough: depth 4 and depth 3",
		Fn: func(r *Run) {
			type job struct {
				cfg   string
				depth int
			}
			jobs := []job{{"n4a1", 4}, {"n5a2", 3}, {"n5sp", 2}, {"n4a3", 2}, {"n4lr", 2}, {"n4s0", 3}, {"n4s1", 2}, {"n4w3", 2}, {"n4mix", 2}, {"n4p5", 2}, {"n6a1", 2}}
			if r.Thorough {
				jobs = []job{{"n4a1", 4}, {"n5a2", 3}, {"n5sp", 3}, {"n4a3", 3}, {"n4lr", 3}, {"n4s0", 3}, {"n4s1", 2}, {"n4p5", 3}, {"n6a1", 3}, {"n4w3", 3}, {"n4mix", 3}}
			}
			// long programs: one context, thousands of instructions in all strides
			for _, cn := range []string{"n4a1", "n5a2", "n4w3", "n4mix"} {
				prog := machine(GetCfg(cn))
				for stride := 1; stride < len(prog); stride += 2 {
					if stride == 17 || cn != "n4a1" && stride%6 != 1 {
						continue
					}
					cn, stride := cn, stride
					r.Case(fmt.Sprintf("long/%s/%d", cn, stride), func(c *Case) { c01long(c, cn, prog, stride) })
				}
			}
			for _, j := range jobs {
				prog := machine(GetCfg(j.cfg))
				for _, st := range starts {
					for i1 := range prog {
						for i2 := -1; i2 < len(prog); i2++ {
							// i2 == -1 runs only the first instruction (checked once)
							i1, i2, j, st := i1, i2, j, st
							r.Case(fmt.Sprintf("%s/%s/%d/%d", j.cfg, st, i1, i2), func(c *Case) {
								s := CachedSys(j.cfg, []string{"a", "user1", "00"})
								Reseed(c.ID)
								x := s.Ctx()
								regs := startRegs(x, st)
								if i2 < 0 {
									for _, v := range regs {
										x.Check(c, v)
									}
									walk(c, x, prog, regs, []int{i1}, 1)
									return
								}
								walk(c, x, prog, regs, []int{i1, i2}, j.depth)
							})
						}
					}
				}
			}
		}})
}

// c01long runs one long program on one set of objects: the instructions in the
// order k*stride, registers renewed when their level or magnitude is used up.
func c01long(c *Case, cn string, prog []instr, stride int) {
	s := CachedSys(cn, []string{"a", "user1", "00"})
	Reseed(c.ID)
	x := s.Ctx()
	regs := startRegs(x, starts[stride%len(starts)])
	n := s.Cfg.Slots()
	for k := 0; k < 1200; k++ {
		in := prog[k*stride%len(prog)]
		for d := range regs {
			if regs[d].Level < 2 || k%5 == d && !x.Fits(x.MulModel(regs[d], regs[d], "")) {
				regs[d] = x.Shared([]string{x.IDs[(k+d)%3], x.IDs[(k+2*d+1)%3]}[:1+k%2], 1+k%13)
			}
		}
		if !enabled(in, regs) {
			continue
		}
		c.Step(fmt.Sprintf("#%d %s", k, in.name))
		w := in.f(x, regs)
		w.Desc = fmt.Sprintf("%s (#%d)", in.name, k)
		if x.Check(c, w) {
			regs[in.dst] = w
		} else {
			regs[in.dst] = x.Encrypt(x.IDs[k%3], Vec(n, k%17))
		}
		c.Back()
	}
	c.Trace()
	c.Sample("%s: 1200 instructions, stride %d", cn, stride)
}

// walk executes the fixed prefix and then every continuation up to depth.
func walk(c *Case, x *Ctx, prog []instr, regs []*V, prefix []int, depth int) {
	var rec func(regs []*V, d int)
	rec = func(regs []*V, d int) {
		if d == depth {
			c.Trace()
			return
		}
		lo, hi := 0, len(prog)
		if d < len(prefix) {
			lo, hi = prefix[d], prefix[d]+1
		}
		for k := lo; k < hi; k++ {
			in := prog[k]
			if !enabled(in, regs) {
				continue
			}
			if d+1 > len(prefix) && c.OutOfTime() {
				return
			}
			c.Step(in.name)
			w := in.f(x, regs)
			c.Tr(1)
			ok := true
			if d+1 >= len(prefix) {
				ok = x.Check(c, w)
			} else {
				ok = x.Fits(w)
			}
			if ok {
				nr := []*V{regs[0], regs[1]}
				nr[in.dst] = w
				rec(nr, d+1)
			}
			c.Back()
		}
	}
	rec(regs, 0)
}
