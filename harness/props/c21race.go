//go:build race

package props

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"

	"mk-lr/mkrlwe"
	. "verifharness/lib"
)

// Races runs every operation of C21, twice, each on objects of its own and on
// the shared parameters, keys, key sets and inputs. The executions follow one
// another, but no synchronisation orders them (the synchronisation of the driver
// is hidden from the detector), so that the vector clocks of the race detector
// regard every two of them as concurrent: two accesses to the same memory, one of
// them a write, by two different operations are reported. order: 0 as listed, 1 reversed,
// 2 every operation followed by itself.
func Races(cn string, order int) {
	idl := []string{"a", "user1", "00"}
	s := NewSys(GetCfg(cn), idl, nil)
	judge := s.Ctx()
	w := newWorld(judge)
	n := len(concOps(nil, s.Cfg))
	var seq []int
	for k := 0; k < 2*n; k++ {
		switch order {
		case 0:
			seq = append(seq, k%n)
		case 1:
			seq = append(seq, n-1-k%n)
		default:
			seq = append(seq, k/2)
		}
	}
	be := mkrlwe.NewFastBasisExtender(s.P.RingQ(), s.P.RingP())
	type inst struct {
		x *Ctx
		o op
	}
	var l []inst
	for _, k := range seq {
		x := s.Ctx()
		x.SKS, x.RTS, x.CJS = judge.SKS, judge.RTS, judge.CJS
		x.BE = be.ShallowCopy()
		l = append(l, inst{x, concOps(Dummy(), s.Cfg)[k]})
	}
	var wg sync.WaitGroup
	wg.Add(len(l))
	for t, in := range l {
		in := in
		var done atomic.Bool
		fmt.Fprintf(os.Stderr, "AT %d %s\n", t, in.o.name)
		go func() {
			defer wg.Done()
			defer func() {
				runtime.RaceDisable()
				done.Store(true)
				runtime.RaceEnable()
			}()
			defer func() { recover() }()
			in.o.run(in.x, w)
		}()
		runtime.RaceDisable()
		for !done.Load() {
			runtime.Gosched()
		}
		runtime.RaceEnable()
		if runtime.RaceErrors() > 0 {
			fmt.Printf("RACE %d %s\n", t, in.o.name)
			os.Exit(1)
		}
	}
	wg.Wait()
	fmt.Printf("OK %d\n", len(l))
}
