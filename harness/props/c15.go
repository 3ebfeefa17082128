package props

import (
	"bytes"
	"fmt"
	"os/exec"
	"strings"

	. "verifharness/lib"
	"verifharness/lrspec"
)

func init() {
	reg(&Prop{ID: "C15",
		Rule:  "the programs' own row-sum, column-sum and key set-up functions, run on the real library: every matrix shape (rows x columns, powers of two) of the small rings, every basis vector plus dense and constant vectors, single-owner and shared ciphertexts, two levels; and the programs' full key set-up at the production ring degree for several company counts, where every sum the programs use must succeed",
		Bound: "rings n4a1, n4a2, n5lr, n5sp; all shapes; production ring: 1 to 5 companies (thorough 8), keys pairwise different",
		Fn:    c15, MaxShards: 8,
	})
}

func c15(r *Run) {
	run := func(p lrspec.Prog, args ...string) {
		r.Case(p.Name+"/"+strings.Join(args, " "), func(c *Case) {
			var e *lrEntry
			for _, x := range lrIndex() {
				if x.Prog == p.Name && x.Variant == "driver" {
					x := x
					e = &x
				}
			}
			if e == nil || e.Err != "" {
				c.Note("skipped, driver could not be built for "+p.Name, 1)
				return
			}
			for k, v := range e.Has {
				if !v {
					c.Note("function absent or of another signature: "+p.Name+"."+k, 1)
				}
			}
			c.Step(strings.Join(args, " "))
			cmd := exec.Command(e.Bin, args...)
			var b bytes.Buffer
			cmd.Stdout, cmd.Stderr = &b, &b
			err := cmd.Run()
			out := strings.TrimSpace(b.String())
			if i := strings.LastIndex(out, "FAIL "); i >= 0 {
				c.Failf("%s: %s", c.ID, strings.SplitN(out[i+5:], "\n", 2)[0])
			}
			var calls, states int
			i := strings.LastIndex(out, "OK calls=")
			if err != nil || i < 0 {
				if strings.Contains(out, "panic") || strings.Contains(out, "fatal") {
					c.Failf("%s: stopped: %s", c.ID, lrTail(out))
				}
				c.Note("driver ended without a verdict", 1)
				return
			}
			fmt.Sscanf(out[i:], "OK calls=%d states=%d", &calls, &states)
			c.Tr(calls)
			for k := 0; k < states; k++ {
				c.State(fmt.Sprintf("%s/%d", c.ID, k))
			}
			c.Trace()
			c.Outcome(c.ID)
			c.Sample("%s: %d sums agree", c.ID, calls)
		})
	}
	for _, p := range lrspec.Progs {
		n := []int{1, 3}
		if r.Thorough {
			n = []int{1, 2, 3, 4, 5, 8}
		} else if p.Companies == 4 {
			n = []int{2, 5}
		}
		for _, k := range n {
			run(p, "full", fmt.Sprint(k), fmt.Sprint(p.Cols))
		}
	}
	for _, p := range lrspec.Progs {
		for _, cfg := range []string{"n4a1", "n4a2", "n5lr", "n5sp"} {
			run(p, "small", cfg)
		}
	}
}
