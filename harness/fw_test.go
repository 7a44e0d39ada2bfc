// Package zzverif is the model-checking harness of /verif. It is compiled into
// the module under test through a build overlay (it never exists in /repo) and
// uses its public API.
package zzverif

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- explorer --

// C is one execution: a sequence of answered choices.
type C struct {
	name      string
	x         *X
	prefix    []int // choices to replay
	choices   []int
	arity     []int
	devMask   []bool // choice was a deviation point
	sched     []bool // choice was made by the scheduler
	labels    []string
	devs      int
	maxDev    int
	committed bool
	shared    bool
	shifted   bool
	diverged  bool
	failed    bool
	trace     []string
	seen      map[string]bool
}

type abortExec struct{ why string }

// Viol is one violation.
type Viol struct {
	Explore string   `json:"explore"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	Trace   []string `json:"trace,omitempty"`
	Crash   bool     `json:"crash,omitempty"`
}

// X is a check run (one shard of it).
type X struct {
	T          *testing.T
	Prop       string
	Tier       string
	Shard      int
	NShards    int
	Deadline   time.Time
	States     map[uint64]struct{}
	StatesOver bool
	Trans      int64
	Traces     int64
	Outcomes   map[string]int
	Samples    []string
	Viols      []Viol
	Exhaustive bool
	Notes      []string
	Spaces     map[string]int64
	Diverged   int64
	replay     *Viol
	known      map[string]bool
	KnownHit   map[string]string
	traceFile  *os.File
	virt       bool
}

// Thorough reports whether the thorough tier runs.
func (x *X) Thorough() bool { return x.Tier == "thorough" }

// Pick returns q in the quick tier, th in the thorough one.
func Pick[T any](x *X, q, th T) T {
	if x.Thorough() {
		return th
	}
	return q
}

func (x *X) stop() bool {
	if len(x.Viols) >= 12 {
		return true
	}
	if !x.Deadline.IsZero() && realNow().After(x.Deadline) {
		if x.Exhaustive {
			x.Exhaustive = false
			x.Notes = append(x.Notes, "stopped at the time budget")
		}
		return true
	}
	return false
}

var startReal = time.Now()

// realNow is only used outside bubbles.
func realNow() time.Time { return time.Now() }

// Choose is a free choice among n alternatives.
func (c *C) Choose(n int, label string) int { return c.choose(n, label, false) }

// Dev is a choice whose non-zero answers are deviations, limited by the bound.
func (c *C) Dev(n int, label string) int { return c.choose(n, label, true) }

// Of picks one of the alternatives (free choice).
func Of[T any](c *C, label string, alts ...T) T {
	i := c.Choose(len(alts), label)
	c.labels[len(c.labels)-1] = label + "=" + short(alts[i])
	return alts[i]
}

// DevOf picks one of the alternatives; the first is the default.
func DevOf[T any](c *C, label string, alts ...T) T {
	i := c.Dev(len(alts), label)
	c.labels[len(c.labels)-1] = label + "=" + short(alts[i])
	return alts[i]
}

func short(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func (c *C) choose(n int, label string, dev bool) int {
	if n <= 0 {
		panic(abortExec{"no alternatives at " + label})
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			c.diverged = true
			panic(abortExec{"divergence at " + label})
		}
	}
	eff := n
	if dev {
		if c.devs >= c.maxDev {
			eff = 1
		}
		if v > 0 {
			c.devs++
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, eff)
	c.devMask = append(c.devMask, dev)
	c.sched = append(c.sched, false)
	c.labels = append(c.labels, label+"="+strconv.Itoa(v))
	return v
}

// Sched is a choice of the scheduler: like Dev, but tolerant of schedules that
// do not replay exactly. The schedules of a configuration are divided among the
// shards by their first deviation, so the configuration must not be committed.
func (c *C) Sched(n int) int {
	i := len(c.choices)
	if i < len(c.prefix) && c.prefix[i] >= n {
		p := append([]int{}, c.prefix...)
		p[i] = n - 1
		c.prefix = p
		c.shifted = true
	}
	v := c.choose(n, "·", true)
	c.sched[i] = true
	return v
}

// Shared ends the configuration part of an execution whose schedules are
// divided among the shards.
func (c *C) Shared() {
	c.committed = true
	c.shared = true
}

// firstSched is the position of the first deviating choice of the scheduler.
func (c *C) firstSched() int {
	for j, v := range c.choices {
		if c.sched[j] && v > 0 {
			return j
		}
	}
	return len(c.choices)
}

// owns says whether the shard explores the schedules whose first deviation is
// choice v at position i.
func (x *X) owns(choices []int, v int) bool {
	if x.NShards <= 1 {
		return true
	}
	return int((mix(choices)+uint64(v)*0x9e3779b97f4a7c15)>>20%uint64(x.NShards)) == x.Shard
}

func mix(choices []int) uint64 {
	h := fnv.New64a()
	for _, v := range choices {
		h.Write([]byte{byte(v), byte(v >> 8)})
	}
	m := h.Sum64()
	m = (m ^ m>>33) * 0xff51afd7ed558ccd // the low bits of FNV do not mix
	return m ^ m>>33
}

// Commit ends the configuration part of an execution; the shard that owns the
// configuration goes on, the others stop here.
func (c *C) Commit() {
	if c.committed {
		return
	}
	c.committed = true
	if c.x.replay != nil || c.x.NShards <= 1 {
		return
	}
	m := mix(c.choices)
	if int(m%uint64(c.x.NShards)) != c.x.Shard {
		panic(abortExec{"shard"})
	}
}

// Discard drops this execution (a redundant or meaningless configuration).
func (c *C) Discard() { panic(abortExec{"discard"}) }

// Step records one transition of the execution and the state reached by it.
func (c *C) Step(desc string, state ...any) {
	c.x.Trans++
	if len(c.trace) < 400 {
		c.trace = append(c.trace, desc)
	}
	if len(state) > 0 {
		c.State(state...)
	}
}

// State records a (canonical) state.
func (c *C) State(state ...any) {
	h := fnv.New64a()
	for _, s := range state {
		fmt.Fprintf(h, "%v|", s)
	}
	if len(c.x.States) < 3000000 {
		c.x.States[h.Sum64()] = struct{}{}
	} else {
		c.x.StatesOver = true
	}
}

// Outcome counts an observed outcome class.
func (c *C) Outcome(o string) {
	if len(c.x.Outcomes) < 400 || c.x.Outcomes[o] > 0 {
		c.x.Outcomes[o]++
	}
}

// Fail records a violation of this execution.
func (c *C) Fail(format string, args ...any) { c.FailKey("", format, args...) }

// FailKey records a violation with a stable key (for the known-findings file).
func (c *C) FailKey(key string, format string, args ...any) {
	c.failed = true
	x := c.x
	msg := fmt.Sprintf(format, args...)
	if key != "" && x.known[key] {
		x.KnownHit[key] = msg
		return
	}
	if key != "" {
		if c.seen == nil {
			c.seen = map[string]bool{}
		}
		if c.seen[key] {
			return
		}
		c.seen[key] = true
		for _, v := range x.Viols {
			if v.Key == key {
				return
			}
		}
	}
	x.Viols = append(
		x.Viols, Viol{
			Explore: c.name, Choices: append([]int{}, c.choices...), Labels: append([]string{}, c.labels...),
			Key: key, Msg: msg, Trace: append([]string{}, c.trace...),
		},
	)
	x.flush(false)
}

var curBeat atomic.Int64
var curC atomic.Pointer[C]
var maxGap atomic.Int64 // the longest execution, by the real clock

// runOne executes body once.
func (x *X) runOne(name string, prefix []int, maxDev int, bubble bool, body func(c *C)) *C {
	c := &C{x: x, prefix: prefix, maxDev: maxDev}
	c.name = name
	curC.Store(c)
	curBeat.Add(1)
	if x.traceFile != nil {
		b, _ := json.Marshal(Viol{Explore: name, Choices: prefix})
		x.traceFile.Truncate(0)
		x.traceFile.WriteAt(b, 0)
	}
	inner := func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortExec); ok {
					if r.(abortExec).why == "shard" || r.(abortExec).why == "discard" {
						c.committed = false
					}
					return
				}
				c.committed = true
				c.FailKey("panic: "+firstRepoFrame(), "panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		body(c)
		c.committed = true
	}
	if !bubble {
		inner()
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					s := fmt.Sprint(r)
					if !c.failed {
						c.FailKey("deadlock", "the execution ended with blocked goroutines: %s", s)
					}
				}
			}()
			synctest.Test(
				x.T, func(*testing.T) {
					time.Sleep(epochShift)
					inner()
				},
			)
		}()
	}
	if c.diverged {
		x.Diverged++
	}
	if c.committed {
		x.Traces++
		x.Spaces[name]++
		if len(x.Samples) < 2 || (len(x.Samples) < 6 && x.Traces%997 == 0) {
			x.Samples = append(x.Samples, name+": "+strings.Join(c.labels, " ")+traceTail(c.trace))
		}
	}
	return c
}

func traceTail(t []string) string {
	if len(t) == 0 {
		return ""
	}
	if len(t) > 8 {
		t = t[:8]
	}
	return " :: " + strings.Join(t, "; ")
}

func firstRepoFrame() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/go-oidfed/lib") && !strings.Contains(l, "zzverif") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

// repoStacks keeps the goroutines that are in the code under test.
func repoStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/go-oidfed/lib") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "zzsched") {
				out = append(out, g)
				break
			}
		}
	}
	return strings.Join(out, "\n\n")
}

// epochShift moves the virtual clock from 2000 to about 2200 so that nothing
// that runs on the real clock outside the bubble sees entries as expired.
const epochShift = 200 * 365 * 24 * time.Hour

// Explore enumerates all executions of body (depth first over its choices).
func (x *X) Explore(name string, maxDev int, body func(c *C)) { x.explore(name, maxDev, false, body) }

// ExploreB is Explore with every execution in its own virtual-time bubble.
func (x *X) ExploreB(name string, maxDev int, body func(c *C)) { x.explore(name, maxDev, true, body) }

func (x *X) explore(name string, maxDev int, bubble bool, body func(c *C)) {
	if x.replay != nil {
		if x.replay.Explore != name {
			return
		}
		c := x.runOne(name, x.replay.Choices, 1<<30, bubble, body)
		if c.diverged {
			fmt.Println("REPLAY-DIVERGED")
		}
		fmt.Println("replay labels:", strings.Join(c.labels, " "))
		for _, s := range c.trace {
			fmt.Println("  step:", s)
		}
		return
	}
	if o := os.Getenv("ZZ_ONLY"); o != "" && o != name {
		return
	}
	var prefix []int
	for {
		if x.stop() {
			return
		}
		c := x.runOne(name, prefix, maxDev, bubble, body)
		if c.diverged {
			// the prefix could not be replayed: skip to the next sibling
			c.choices = append([]int{}, prefix...)
			x.Exhaustive = false
			return
		}
		// next prefix in DFS order
		i := len(c.choices) - 1
		v, first := 0, c.firstSched()
		for ; i >= 0; i-- {
			v = c.choices[i] + 1
			if c.sched[i] && i <= first {
				for v < c.arity[i] && !x.owns(c.choices[:i], v) {
					v++
				}
			}
			if v < c.arity[i] {
				break
			}
		}
		if i < 0 {
			return
		}
		prefix = append(append([]int{}, c.choices[:i]...), v)
	}
}

// ----------------------------------------------------------------- result --

type result struct {
	Prop       string            `json:"prop"`
	Done       bool              `json:"done"`
	States     []uint64          `json:"states"`
	Trans      int64             `json:"transitions"`
	Traces     int64             `json:"traces"`
	Outcomes   map[string]int    `json:"outcomes"`
	Samples    []string          `json:"samples"`
	Viols      []Viol            `json:"violations"`
	Exhaustive bool              `json:"exhaustive"`
	Notes      []string          `json:"notes"`
	Spaces     map[string]int64  `json:"spaces"`
	Diverged   int64             `json:"diverged"`
	Known      map[string]string `json:"known"`
}

func (x *X) flush(done bool) {
	out := os.Getenv("ZZ_OUT")
	if out == "" {
		return
	}
	r := result{
		Prop: x.Prop, Done: done, Trans: x.Trans, Traces: x.Traces, Outcomes: x.Outcomes, Samples: x.Samples,
		Viols: x.Viols, Exhaustive: x.Exhaustive && x.Diverged == 0, Notes: x.Notes, Spaces: x.Spaces,
		Diverged: x.Diverged, Known: x.KnownHit,
	}
	if done {
		r.States = make([]uint64, 0, len(x.States))
		for s := range x.States {
			r.States = append(r.States, s)
		}
		sort.Slice(r.States, func(i, j int) bool { return r.States[i] < r.States[j] })
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err = os.Rename(out+".tmp", out); err != nil {
		panic(err)
	}
}

var registry = map[string]func(x *X){}

// TestZZ runs the property named by ZZ_PROP.
func TestZZ(t *testing.T) {
	prop := os.Getenv("ZZ_PROP")
	run := registry[prop]
	if run == nil {
		t.Fatalf("unknown property %q", prop)
	}
	x := &X{
		T: t, Prop: prop, Tier: os.Getenv("ZZ_TIER"), NShards: 1, States: map[uint64]struct{}{},
		Outcomes: map[string]int{}, Exhaustive: true, Spaces: map[string]int64{}, known: map[string]bool{},
		KnownHit: map[string]string{},
	}
	if s := os.Getenv("ZZ_SHARD"); s != "" {
		if _, err := fmt.Sscanf(s, "%d/%d", &x.Shard, &x.NShards); err != nil {
			t.Fatal(err)
		}
	}
	if s := os.Getenv("ZZ_BUDGET"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		x.Deadline = startReal.Add(time.Duration(f * float64(time.Second)))
	}
	for _, k := range strings.Split(os.Getenv("ZZ_KNOWN"), "\n") {
		if k != "" {
			x.known[k] = true
		}
	}
	if f := os.Getenv("ZZ_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var v struct {
			Violation Viol `json:"violation"`
		}
		if err = json.Unmarshal(b, &v); err != nil {
			t.Fatal(err)
		}
		x.replay = &v.Violation
	}
	debug.SetMaxStack(128 << 20) // an endless recursion ends early
	if f := os.Getenv("ZZ_TRACE"); f != "" {
		x.traceFile, _ = os.Create(f)
	}
	// A watchdog on the real clock, for executions that never come back.
	limit := 90 * time.Second
	if x.replay != nil {
		limit = 60 * time.Second
	}
	go func() {
		last, since := curBeat.Load(), time.Now()
		for {
			time.Sleep(time.Second)
			if b := curBeat.Load(); b != last {
				last, since = b, time.Now()
				continue
			}
			gap := time.Since(since)
			maxGap.Store(max(maxGap.Load(), int64(gap)))
			if os.Getenv("ZZ_NOHANG") != "" || gap < limit {
				continue
			}
			if c := curC.Load(); c == nil {
				fmt.Println("ZZ-HANG")
			} else {
				fmt.Println("ZZ-HANG explore=" + c.name)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				x.Viols = append(
					x.Viols, Viol{
						Explore: c.name, Choices: append([]int{}, c.choices...), Labels: append([]string{}, c.labels...), Key: "hang", Crash: true,
						Msg: fmt.Sprintf("the execution does not end (%v without progress)\n%s", gap.Round(time.Second), trimStack(repoStacks(string(buf)))),
					},
				)
				x.flush(false)
			}
			os.Exit(97)
		}
	}()
	run(x)
	x.flush(true)
	for _, v := range x.Viols {
		fmt.Printf("VIOL [%s] %s\n  %s\n  %s\n", v.Key, v.Explore, strings.Join(v.Labels, " "), v.Msg)
	}
	for k, m := range x.KnownHit {
		fmt.Printf("KNOWN [%s] %s\n", k, m)
	}
	fmt.Printf("longest execution: %v\n", time.Duration(maxGap.Load()).Round(time.Second))
	fmt.Printf("traces=%d states=%d transitions=%d exhaustive=%v\n", x.Traces, len(x.States), x.Trans, x.Exhaustive)
	ks := make([]string, 0)
	for k := range x.Outcomes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i > 40 {
			break
		}
		fmt.Printf("  outcome %-40s %d\n", k, x.Outcomes[k])
	}
	for k, n := range x.Spaces {
		fmt.Printf("  space %s: %d\n", k, n)
	}
}
