// Package lib is the exploration engine: it enumerates cases (each case is one
// fully determined execution or subtree of executions of the real code), runs
// them in isolated shard processes, and collects coverage and violations.
package lib

import (
	"bufio"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- owned randomness -------------------------------------------------------

type ctrStream struct{ s cipher.Stream }

func (c *ctrStream) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	c.s.XORKeyStream(p, p)
	return len(p), nil
}

// Reseed makes every later draw from crypto/rand (the only entropy source of
// the code under test) a deterministic function of (VERIF_SEED, label).
func Reseed(label string) {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", Seed(), label)))
	b, err := aes.NewCipher(h[:16])
	if err != nil {
		panic(err)
	}
	rand.Reader = &ctrStream{cipher.NewCTR(b, h[16:])}
}

func Seed() int64 {
	v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return v
}

// ---- cases ---------------------------------------------------------------

type violation struct{ msg string }

// Run enumerates the cases of one property.
type Run struct {
	Prop     string
	Thorough bool
	shard    int
	nshard   int
	idx      int
	only     string
	deadline time.Time
	out      *bufio.Writer
	outMu    sync.Mutex

	Cases, Transitions, Traces int64
	states                     map[uint64]struct{}
	outcomes                   map[uint64]struct{}
	Samples                    []string
	truncated                  bool
	Notes                      map[string]int64
	curTrail                   []string
}

type Case struct {
	R     *Run
	ID    string
	trail []string
}

type Prop struct {
	ID    string
	Rule  string
	Bound string
	Fn    func(*Run)
	// MaxShards limits parallelism (memory heavy cases)
	MaxShards int
}

// Dummy is a case that counts nothing.
func Dummy() *Case {
	return &Case{R: &Run{states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, Notes: map[string]int64{}}}
}

func h64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func (r *Run) emit(v map[string]interface{}) {
	b, _ := json.Marshal(v)
	r.outMu.Lock()
	r.out.Write(b)
	r.out.WriteByte('\n')
	r.out.Flush()
	r.outMu.Unlock()
}

// Case runs f when the case belongs to this shard.
func (r *Run) Case(id string, f func(c *Case)) {
	i := r.idx
	r.idx++
	if r.only != "" {
		if r.only != id {
			return
		}
	} else if i%r.nshard != r.shard {
		return
	}
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		r.truncated = true
		return
	}
	r.emit(map[string]interface{}{"t": "case", "id": id})
	c := &Case{R: r, ID: id}
	Reseed(r.Prop + "/" + id)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if v, ok := e.(violation); ok {
					r.emit(map[string]interface{}{"t": "viol", "id": id, "msg": v.msg, "trail": c.trail})
				} else {
					r.emit(map[string]interface{}{"t": "viol", "id": id, "msg": fmt.Sprintf("unexpected panic: %v", e), "trail": c.trail, "stack": trimStack(string(debug.Stack()))})
				}
				r.flushStats()
				os.Exit(3)
			}
		}()
		f(c)
	}()
	r.Cases++
}

func trimStack(s string) string {
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}

// Mine reports whether the next case (in enumeration order) is in this shard,
// without running anything; used to avoid building expensive contexts.
func (r *Run) Fail(format string, a ...interface{}) { panic(violation{fmt.Sprintf(format, a...)}) }

func (c *Case) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Step records one operation in the replay trail (LIFO discipline via Back).
func (c *Case) Step(s string) { c.trail = append(c.trail, s) }
func (c *Case) Back()         { c.trail = c.trail[:len(c.trail)-1] }
func (c *Case) TrailLen() int { return len(c.trail) }
func (c *Case) TrailTo(n int) { c.trail = c.trail[:n] }

// Tr counts transitions: calls of the real code compared with the model.
func (c *Case) Tr(n int)         { c.R.Transitions += int64(n) }
func (c *Case) Trace()           { c.R.Traces++ }
func (c *Case) State(s string)   { c.R.states[h64(s)] = struct{}{} }
func (c *Case) Outcome(s string) { c.R.outcomes[h64(s)] = struct{}{} }
func (c *Case) Note(k string, n int64) {
	c.R.Notes[k] += n
}
func (c *Case) NoteMax(k string, n int64) {
	if n > c.R.Notes["max:"+k] {
		c.R.Notes["max:"+k] = n
	}
}
func (c *Case) Sample(format string, a ...interface{}) {
	if len(c.R.Samples) < 3 {
		c.R.Samples = append(c.R.Samples, fmt.Sprintf(format, a...))
	}
}
func (c *Case) OutOfTime() bool {
	if !c.R.deadline.IsZero() && time.Now().After(c.R.deadline) {
		c.R.truncated = true
		return true
	}
	return false
}

func (r *Run) flushStats() {
	r.emit(map[string]interface{}{"t": "stats", "cases": r.Cases, "transitions": r.Transitions, "traces": r.Traces,
		"states": keys(r.states), "outcomes": keys(r.outcomes), "samples": r.Samples, "truncated": r.truncated, "notes": r.Notes, "total": r.idx})
}

func keys(m map[uint64]struct{}) string {
	b := make([]byte, 0, 8*len(m))
	for k := range m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	return string(encode(b))
}

// ---- parent / child -------------------------------------------------------

type msg struct {
	T           string           `json:"t"`
	ID          string           `json:"id"`
	Msg         string           `json:"msg"`
	Trail       []string         `json:"trail"`
	Stack       string           `json:"stack"`
	Cases       int64            `json:"cases"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	States      string           `json:"states"`
	Outcomes    string           `json:"outcomes"`
	Samples     []string         `json:"samples"`
	Truncated   bool             `json:"truncated"`
	Notes       map[string]int64 `json:"notes"`
	Total       int64            `json:"total"`
}

// Child runs one shard and writes a JSON line protocol on fd 3.
func Child(p *Prop, thorough bool, shard, nshard int, only string, deadline time.Time) {
	f := os.NewFile(3, "proto")
	r := &Run{Prop: p.ID, Thorough: thorough, shard: shard, nshard: nshard, only: only, deadline: deadline,
		out: bufio.NewWriter(f), states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, Notes: map[string]int64{}}
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	defer func() {
		if e := recover(); e != nil {
			m := fmt.Sprintf("unexpected panic outside a case: %v", e)
			if v, ok := e.(violation); ok {
				m = v.msg
			}
			r.emit(map[string]interface{}{"t": "viol", "id": "(setup)", "msg": m, "stack": trimStack(string(debug.Stack()))})
			r.flushStats()
			os.Exit(3)
		}
	}()
	p.Fn(r)
	r.flushStats()
	r.emit(map[string]interface{}{"t": "done"})
	os.Exit(0)
}

type Result struct {
	Violations []msg
	Known      []string
}

// stallLimit: a single case normally takes milliseconds to a few seconds.
const stallLimit = 240 * time.Second

// Parent spawns the shards and returns the process exit code.
func Parent(p *Prop, thorough bool, verifDir string, only string) int {
	start := time.Now()
	tier := "quick"
	budget := 600 * time.Second
	if thorough {
		tier = "thorough"
		budget = 3 * time.Hour
	}
	n := 8
	if p.MaxShards > 0 && p.MaxShards < n {
		n = p.MaxShards
	}
	if only != "" {
		n = 1
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	deadline := start.Add(budget)
	type shardState struct {
		done    bool
		last    time.Time
		cur     string
		crashed string
	}
	var mu sync.Mutex
	var viols []msg
	agg := msg{Notes: map[string]int64{}}
	states := map[uint64]struct{}{}
	outcomes := map[uint64]struct{}{}
	stop := make(chan struct{})
	var once sync.Once
	abort := func() { once.Do(func() { close(stop) }) }
	var wg sync.WaitGroup
	incomplete := false
	var infraErr string
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rd, wr, err := os.Pipe()
			if err != nil {
				mu.Lock()
				infraErr = err.Error()
				mu.Unlock()
				return
			}
			args := []string{"-prop", p.ID, "-child", fmt.Sprintf("%d/%d", i, n), "-deadline", fmt.Sprint(deadline.Unix()), "-verif", verifDir}
			if thorough {
				args = append(args, "-thorough")
			}
			if only != "" {
				args = append(args, "-case", only)
			}
			cmd := exec.Command(self, args...)
			cmd.ExtraFiles = []*os.File{wr}
			var errBuf tailBuf
			cmd.Stdout = &errBuf
			cmd.Stderr = &errBuf
			cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=1")
			if err := cmd.Start(); err != nil {
				mu.Lock()
				infraErr = err.Error()
				mu.Unlock()
				wr.Close()
				rd.Close()
				return
			}
			wr.Close()
			st := &shardState{last: time.Now()}
			killed := make(chan struct{})
			go func() { // watchdog
				t := time.NewTicker(500 * time.Millisecond)
				defer t.Stop()
				for {
					select {
					case <-killed:
						return
					case <-stop:
						cmd.Process.Kill()
						return
					case <-t.C:
						mu.Lock()
						stalled := time.Since(st.last) > stallLimit && st.cur != "" && !st.done && !thorough
						if thorough {
							stalled = time.Since(st.last) > 3600*time.Second && st.cur != "" && !st.done
						}
						over := time.Now().After(deadline.Add(60 * time.Second))
						if stalled {
							viols = append(viols, msg{T: "viol", ID: st.cur, Msg: "no progress: the operation under test does not terminate"})
							mu.Unlock()
							cmd.Process.Kill()
							abort()
							return
						}
						if over {
							incomplete = true
							mu.Unlock()
							cmd.Process.Kill()
							return
						}
						mu.Unlock()
					}
				}
			}()
			sc := bufio.NewReaderSize(rd, 1<<20)
			gotViol := false
			for {
				line, err := sc.ReadBytes('\n')
				if len(line) > 0 {
					var m msg
					if json.Unmarshal(line, &m) == nil {
						mu.Lock()
						st.last = time.Now()
						switch m.T {
						case "case":
							st.cur = m.ID
						case "viol":
							gotViol = true
							viols = append(viols, m)
						case "stats":
							agg.Cases += m.Cases
							agg.Transitions += m.Transitions
							agg.Traces += m.Traces
							if m.Total > agg.Total {
								agg.Total = m.Total
							}
							agg.Samples = append(agg.Samples, m.Samples...)
							for k, v := range m.Notes {
								if strings.HasPrefix(k, "max:") {
									if v > agg.Notes[k] {
										agg.Notes[k] = v
									}
								} else {
									agg.Notes[k] += v
								}
							}
							if m.Truncated {
								incomplete = true
							}
							decodeInto(m.States, states)
							decodeInto(m.Outcomes, outcomes)
						case "done":
							st.done = true
						}
						mu.Unlock()
						if m.T == "viol" {
							// leave the child time to flush its stats
							time.AfterFunc(2*time.Second, abort)
						}
					}
				}
				if err != nil {
					break
				}
			}
			werr := cmd.Wait()
			close(killed)
			mu.Lock()
			select {
			case <-stop:
			default:
				if !st.done && !gotViol && !incomplete {
					// the process died: a fatal fault (or memory exhaustion) in the case st.cur
					txt := errBuf.String()
					if strings.Contains(txt, "fatal error") || strings.Contains(txt, "SIG") || strings.Contains(txt, "panic") {
						viols = append(viols, msg{T: "viol", ID: st.cur, Msg: "process crashed: " + firstLine(txt), Stack: txt})
						abort()
					} else {
						infraErr = fmt.Sprintf("shard %d ended: %v %s", i, werr, txt)
					}
				}
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	wall := time.Since(start).Seconds()

	if infraErr != "" && len(viols) == 0 {
		// not a verdict on the code: report what was covered, not exhaustive
		fmt.Fprintln(os.Stderr, "note:", infraErr)
		incomplete = true
	}
	if len(agg.Samples) > 6 {
		sort.Strings(agg.Samples)
		agg.Samples = agg.Samples[:6]
	}
	cov := map[string]interface{}{
		"states": len(states), "transitions": agg.Transitions, "traces_validated_against_impl": agg.Traces,
		"cases": agg.Cases, "cases_in_space": agg.Total, "distinct_outcomes": len(outcomes),
		"samples": agg.Samples, "exhaustive": !incomplete && len(viols) == 0, "rule": p.Rule, "bound": p.Bound, "notes": agg.Notes,
	}
	if agg.Samples == nil {
		cov["samples"] = []string{}
	}
	code := 0
	if len(viols) > 0 {
		code = 1
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": Seed(), "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"data values outside the enumerated alphabet are not covered",
			"lattigo v2.3.0 (module cache) and the Go toolchain are trusted",
			"all entropy is drawn through crypto/rand.Reader, which the harness owns; Go map iteration order is not owned, results are exact modular sums and hence order-independent",
		},
		"wall_s": wall, "violations": len(viols),
	}
	if only == "" {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	}
	for _, v := range viols {
		rp := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(rp, 0o755)
		path := filepath.Join(rp, p.ID+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": p.ID, "case": v.ID, "message": v.Msg, "trail": v.Trail, "stack": v.Stack, "tier": tier, "seed": Seed(),
			"replay_cmd": fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s '%s'", Seed(), p.ID, tier, v.ID),
		}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("violating case: %s\n  %s\n", v.ID, v.Msg)
		if len(v.Trail) > 0 {
			fmt.Printf("  trail: %s\n", strings.Join(v.Trail, " ; "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		break
	}
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs notes=%v\n",
		p.ID, tier, agg.Cases, agg.Total, len(states), agg.Transitions, agg.Traces, len(outcomes), !incomplete && len(viols) == 0, len(viols), wall, agg.Notes)
	return code
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic") || strings.Contains(l, "fatal") || strings.Contains(l, "SIG") {
			return l
		}
	}
	return ""
}

// ViolationText returns the text of a violation that was recovered as a panic.
func ViolationText(v interface{}) (string, bool) {
	x, ok := v.(violation)
	return x.msg, ok
}
