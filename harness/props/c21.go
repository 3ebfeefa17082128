//go:build sched

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"github.com/ldsec/lattigo/v2/utils"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// C21: a controlled scheduler on the real code. The sources of mkrlwe and mkckks
// are compiled with a scheduling point before every statement (cmd/instr); an
// operation of one party is stopped at a point, an operation of another party
// runs, and the first goes on. Bound 1: the other operation runs to its end.
// Bound 2: it is itself stopped at a point, the first runs to its end, then the
// second.

var (
	schedLocs []string
	schedOwn  int // the points below are in the repository, the others in lattigo
)

type point struct{ loc, occ int }

func (p point) String() string {
	l := fmt.Sprint(p.loc)
	if p.loc < len(schedLocs) {
		l = schedLocs[p.loc]
	}
	return fmt.Sprintf("%s#%d", l, p.occ)
}

func setHook(f func(int)) {
	mkrlwe.VerifSchedHook = f
	mkckks.VerifSchedHook = f
	ckks.VerifSchedHook = f
	rlwe.VerifSchedHook = f
	ring.VerifSchedHook = f
	utils.VerifSchedHook = f
}

type party struct {
	x   *Ctx
	w   *world
	ops []op
	ref []string
}

// result runs one operation and judges it; a violation is returned as text.
func (p *party) result(c *Case, k int, judge *Ctx) (bad string) {
	o := p.ops[k]
	var res []interface{}
	pan, v := catch(func() { res = o.run(p.x, p.w) })
	save := mkrlwe.VerifSchedHook
	setHook(nil)
	defer setHook(save)
	if t, isV := ViolationText(v); pan && isV {
		return o.name + ": " + t
	}
	if pan != o.refuses {
		if pan {
			return fmt.Sprintf("%s panics: %v", o.name, v)
		}
		return o.name + " returned although a key it needs is missing"
	}
	c.Tr(1)
	if o.refuses {
		return ""
	}
	if o.random {
		pan, v := catch(func() { c10rand(c, judge, p.w, res[0].(*mkckks.Ciphertext), o) })
		if pan {
			if t, isV := ViolationText(v); isV {
				return o.name + ": " + t
			}
			panic(v)
		}
		return ""
	}
	if g := norm(judge, res); g != p.ref[k] {
		return o.name + " gives another result than alone"
	}
	return ""
}

func init() {
	reg(&Prop{ID: "C21",
		Rule:  "two parties with encryptors, decryptors, evaluators, key generators and relinearisation key sets of their own, and common parameters, keys, other key sets and input ciphertexts: every operation of the first is stopped before every statement of mkrlwe and mkckks it executes (first and second execution of the statement), every operation of the second runs, the first goes on; both must give the results they give alone. Bound 2: the second is itself stopped before every statement, while the first runs to its end. Conflicts: all operations, twice each, are executed without any order between them and vector clocks look for accesses to common memory of which one is a write",
		Bound: "conflicts: all pairs of about 370 executions in three orders on 7 shapes; one preemption: all ordered pairs of about 190 operations (thorough: three executions of each statement, 4 shapes); two preemptions: all pairs of points of 12 x 12 operations (thorough 24 x 24)",
		Fn: func(r *Run) {
			b, _ := os.ReadFile(filepath.Join(os.Getenv("SCHEDDIR"), "locs.json"))
			var d struct {
				Own  int
				Locs []string
			}
			json.Unmarshal(b, &d)
			schedLocs, schedOwn = d.Locs, d.Own
			cl, occ := []string{"n4a1"}, 2
			if r.Thorough {
				cl, occ = []string{"n4a1", "n5a2", "n5sp", "n4a3"}, 3
			}
			for _, cn := range cl {
				n := len(concOps(nil, GetCfg(cn)))
				for i := 0; i < n; i++ {
					cn, i := cn, i
					r.Case(fmt.Sprintf("%s/1/%d", cn, i), func(c *Case) { c21one(c, cn, i, occ) })
				}
			}
			for _, cn := range smallCfgs {
				for o := 0; o < 3; o++ {
					cn, o := cn, o
					r.Case(fmt.Sprintf("%s/conflicts/%d", cn, o), func(c *Case) { c21race(c, cn, o) })
				}
			}
			m := 12
			if r.Thorough {
				m = 24
			}
			for i := 0; i < m; i++ {
				for j := 0; j < m; j++ {
					i, j := i, j
					r.Case(fmt.Sprintf("n4a1/2/%d/%d", i, j), func(c *Case) { c21two(c, "n4a1", m, i, j) })
				}
			}
		}})
}

func c21setup(c *Case, cn string) (a, b *party, judge *Ctx) {
	idl := []string{"a", "user1", "00"}
	s := CachedSys(cn, idl)
	Reseed("c21" + cn)
	judge = s.Ctx()
	w := newWorld(judge)
	ops := concOps(c, s.Cfg)
	ref := make([]string, len(ops))
	for i, o := range ops {
		if !o.refuses && !o.random {
			f := s.Ctx()
			f.BE = mkrlwe.NewFastBasisExtender(s.P.RingQ(), s.P.RingP())
			ref[i] = norm(f, o.run(f, w))
		}
	}
	be := mkrlwe.NewFastBasisExtender(s.P.RingQ(), s.P.RingP())
	mkp := func() *party {
		p := &party{x: s.Ctx(), w: w, ops: ops, ref: ref}
		p.x.SKS, p.x.RTS, p.x.CJS = judge.SKS, judge.RTS, judge.CJS
		// one basis extender and shallow copies of it
		p.x.BE = be
		be = be.ShallowCopy()
		return p
	}
	return mkp(), mkp(), judge
}

// points lists the scheduling points of one operation.
func points(p *party, k, occ int) []point {
	cnt := map[int]int{}
	var l []point
	var mu sync.Mutex // the code may use goroutines
	setHook(func(loc int) {
		mu.Lock()
		defer mu.Unlock()
		if cnt[loc] < occ && (loc < schedOwn || cnt[loc] == 0) {
			l = append(l, point{loc, cnt[loc]})
		}
		cnt[loc]++
	})
	catch(func() { p.ops[k].run(p.x, p.w) })
	setHook(nil)
	return l
}

// at calls f when the execution reaches the point.
func at(p point, f func()) func(int) {
	n := 0
	var mu sync.Mutex
	return func(loc int) {
		if loc == p.loc {
			mu.Lock()
			defer mu.Unlock()
			if n == p.occ {
				n++
				f()
				return
			}
			n++
		}
	}
}

func c21one(c *Case, cn string, i, occ int) {
	a, b, judge := c21setup(c, cn)
	pts := points(a, i, occ)
	for _, p := range pts {
		for j := range b.ops {
			bad, ran := "", false
			setHook(at(p, func() {
				h := mkrlwe.VerifSchedHook
				setHook(nil)
				ran = true
				bad = b.result(c, j, judge)
				setHook(h)
			}))
			badA := a.result(c, i, judge)
			setHook(nil)
			if bad != "" || badA != "" {
				c.Step(fmt.Sprintf("%s stopped before %v", a.ops[i].name, p))
				c.Step(b.ops[j].name + " runs")
				c.Step("the first goes on")
				c.Failf("two parties disturb each other: %s %s", badA, bad)
			}
			if !ran {
				c.Note("point_not_reached", 1)
			}
			c.Trace()
		}
		c.State(fmt.Sprintf("%s|%d|%v", cn, i, p))
	}
	c.Note("points", int64(len(pts)))
	c.Outcome(fmt.Sprint(i))
	c.Sample("%s: %d points x %d operations of the other party", a.ops[i].name, len(pts), len(b.ops))
}

// c21two: the first stops at p, the second starts and stops at q, the first
// runs to its end, the second runs to its end.
func c21two(c *Case, cn string, m, i, j int) {
	a, b, judge := c21setup(c, cn)
	sel := selectOps(a.ops, m)
	i, j = sel[i], sel[j]
	pa, pb := points(a, i, 1), points(b, j, 1)
	for _, p := range pa {
		for _, q := range pb {
			if c.OutOfTime() {
				return
			}
			badB := ""
			cont := make(chan struct{})
			paused := make(chan struct{})
			done := make(chan struct{})
			started := false
			setHook(at(p, func() {
				started = true
				h := mkrlwe.VerifSchedHook
				go func() {
					defer close(done)
					stopped := false
					setHook(at(q, func() {
						stopped = true
						paused <- struct{}{}
						<-cont
						setHook(nil)
					}))
					badB = b.result(c, j, judge)
					if !stopped {
						paused <- struct{}{}
						<-cont
					}
				}()
				<-paused
				setHook(h)
			}))
			badA := a.result(c, i, judge)
			setHook(nil)
			if started {
				close(cont)
				<-done
			}
			setHook(nil)
			if badA != "" || badB != "" {
				c.Step(fmt.Sprintf("%s stopped before %v", a.ops[i].name, p))
				c.Step(fmt.Sprintf("%s stopped before %v", b.ops[j].name, q))
				c.Step("the first runs to its end, then the second")
				c.Failf("two parties disturb each other: %s %s", badA, badB)
			}
			c.Trace()
		}
		c.State(fmt.Sprintf("2|%d|%d|%v", i, j, p))
	}
}

// c21race runs the detector of conflicting unordered accesses (c21race.go) in a
// process of its own, so that nothing is computed before.
func c21race(c *Case, cn string, order int) {
	bin := os.Getenv("RACEBIN")
	if bin == "" {
		c.Note("no_race_build", 1)
		return
	}
	var so, se bytes.Buffer
	cmd := exec.Command(bin, cn, fmt.Sprint(order))
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	cmd.Run()
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	last := lines[len(lines)-1]
	var n int
	if k, _ := fmt.Sscanf(last, "OK %d", &n); k == 1 {
		c.Tr(n)
		for i := 0; i < n; i++ {
			c.State(fmt.Sprintf("conflicts|%s|%d|%d", cn, order, i))
		}
		c.Note("concurrent_pairs", int64(n)*int64(n-1)/2)
		c.Trace()
		c.Outcome("no conflict")
		return
	}
	at, detail := "", []string{}
	for _, l := range strings.Split(se.String(), "\n") {
		if strings.HasPrefix(l, "AT ") {
			at = l[3:]
			continue
		}
		l = strings.TrimSpace(l)
		if l != "" && len(detail) < 40 && !strings.HasPrefix(l, "===") {
			detail = append(detail, l)
		}
	}
	c.Step("operations of several parties on shared parameters, keys and inputs, unordered, up to " + at)
	for _, d := range detail {
		c.Step(d)
	}
	if strings.HasPrefix(last, "RACE") {
		c.Failf("operations of two parties access the same memory without synchronisation and one writes it: %s", at)
	}
	c.Failf("the operations of several parties ended abnormally at %s", at)
}

// selectOps picks m operations of different kinds.
func selectOps(ops []op, m int) []int {
	want := []string{"add(A~,ABC)", "sub(C2,ABC)", "mul(A,ABC)", "rot3(ABC)", "conj(ABC)", "mulPt(AB)", "const[(0.5+0.25i)](ABC)", "rescale>(AB)", "dec(ABC)", "enc", "encode", "hoist and use",
		"mul(AB,AB)", "mulH(A,B,A,)", "rot0(ABC)", "rotH2(ABC)", "hoist(ABC)", "pdec(copy ABC)", "decG(AB)", "encExpand", "encMsg@0", "new key sets", "key generation 2", "key generation 8", "mul without a's key"}
	var l []int
	for _, n := range want {
		for k, o := range ops {
			if o.name == n && len(l) < m {
				l = append(l, k)
			}
		}
	}
	for k := range ops {
		if len(l) < m {
			l = append(l, k)
		}
	}
	return l
}
