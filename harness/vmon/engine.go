// Command vmon is the runtime monitor: it drives the code of /repo with
// generated workloads and decides one property per run from what it observes.
//
// It runs as a supervisor and a worker. The worker executes cases on several
// lanes and journals what each lane is about to do; the supervisor turns a
// crash or a hang of the worker into a verdict with the journalled case, writes
// the evidence file, and prints the verdict.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one property and the workload that decides it.
type Prop struct {
	ID     string
	Level  string
	Rule   string // how cases are made and what makes one non-trivial
	Assume []string
	Race   bool // needs the race-detector build
	Boost  int  // factor on the quick tier's cases, 3 if 0
	Run    func(*R)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Failure is one observed deviation.
type Failure struct {
	Group string `json:"group"`
	Index int    `json:"index"`
	What  string `json:"what"`
	Case  string `json:"case,omitempty"`
	Known string `json:"known,omitempty"` // key of a known finding
}

// Report is what a worker hands to the supervisor.
type Report struct {
	Evaluations int64
	Counters    map[string]int64
	Distinct    int
	Samples     []string
	Failures    []Failure
	Notes       []string
	Complete    bool
	Exhaustive  bool
}

// R is one run of a property.
type R struct {
	P       *Prop
	Tier    string
	Seed    int64
	Scratch string
	Lanes   int

	onlyGroup string // replay
	onlyIndex int

	mu       sync.Mutex
	rep      Report
	keys     map[string]struct{}
	stopping atomic.Bool
}

// Quick reports the tier.
func (r *R) Quick() bool { return r.Tier != "thorough" }

// N picks a case count by tier.
func (r *R) N(quick, thorough int) int {
	if !r.Quick() {
		return thorough
	}
	if k := r.P.boost(); quick < thorough { // else it is a stride
		return imini(quick*k, thorough)
	}
	return quick
}

// boost multiplies the quick tier's number of cases.
func (p *Prop) boost() int {
	if p == nil || p.Boost == 0 {
		return 3
	}
	return p.Boost
}

// C is one case.
type C struct {
	R     *R
	Group string
	Index int
	Rng   *rand.Rand
	lane  int
	desc  string
	keyed bool
}

const maxFailures = 12

func caseSeed(seed int64, parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, seed)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Desc journals what the case is about to do, for replay and crash reports.
func (c *C) Desc(format string, a ...interface{}) {
	c.desc = fmt.Sprintf(format, a...)
	if len(c.desc) > 4000 {
		c.desc = c.desc[:4000] + "..."
	}
	journal(c.lane, c.Group, c.Index, c.desc)
}

// Failf records a violation of the property.
func (c *C) Failf(format string, a ...interface{}) { c.fail("", format, a...) }

// Knownf records a deviation that is a known finding with the given key, if the
// committed list has that key for this property (a violation otherwise).
func (c *C) Knownf(key, format string, a ...interface{}) { c.fail(key, format, a...) }

func (c *C) fail(key, format string, a ...interface{}) {
	f := Failure{Group: c.Group, Index: c.Index, What: fmt.Sprintf(format, a...), Case: c.desc, Known: key}
	if len(f.What) > 3000 {
		f.What = f.What[:3000] + "..."
	}
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if key != "" && isKnown(c.R.P.ID, key) {
		for _, g := range c.R.rep.Failures {
			if g.Known == key {
				return
			}
		}
		c.R.rep.Failures = append(c.R.rep.Failures, f)
		return
	}
	f.Known = ""
	n := 0
	for _, g := range c.R.rep.Failures {
		if g.Known == "" {
			n++
		}
	}
	if n >= maxFailures {
		c.R.stopping.Store(true)
		return
	}
	c.R.rep.Failures = append(c.R.rep.Failures, f)
}

// Key marks the case as non-trivial under a signature; distinct signatures are
// counted as distinct_nontrivial.
func (c *C) Key(format string, a ...interface{}) {
	k := fmt.Sprintf(format, a...)
	if len(k) > 64 {
		h := fnv.New64a()
		io.WriteString(h, k)
		k = fmt.Sprintf("%s#%x", k[:32], h.Sum64())
	}
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if _, ok := c.R.keys[k]; !ok {
		c.R.keys[k] = struct{}{}
		if len(c.R.rep.Samples) < 6 && (len(c.R.keys)%97 == 1 || len(c.R.keys) < 3) {
			s := c.desc
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			c.R.rep.Samples = append(c.R.rep.Samples, fmt.Sprintf("%s[%d]: %s", c.Group, c.Index, s))
		}
	}
}

// Count adds to a measured counter.
func (c *C) Count(name string, n int) { c.R.Count(name, n) }

// Count adds to a measured counter.
func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.rep.Counters[name] += int64(n)
	r.mu.Unlock()
}

// Max keeps the largest value of a counter.
func (r *R) Max(name string, n int) {
	r.mu.Lock()
	if r.rep.Counters[name] < int64(n) {
		r.rep.Counters[name] = int64(n)
	}
	r.mu.Unlock()
}

// Note adds a line to the evidence.
func (r *R) Note(format string, a ...interface{}) {
	r.mu.Lock()
	if len(r.rep.Notes) < 20 {
		r.rep.Notes = append(r.rep.Notes, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

// Each runs n cases of a group on all lanes.
func (r *R) Each(group string, n int, f func(*C)) { r.each(group, n, r.Lanes, f) }

// Serial runs n cases of a group one after another.
func (r *R) Serial(group string, n int, f func(*C)) { r.each(group, n, 1, f) }

func (r *R) each(group string, n, lanes int, f func(*C)) {
	if r.onlyGroup != "" && r.onlyGroup != group {
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for l := 0; l < lanes; l++ {
		wg.Add(1)
		go func(l int) {
			defer wg.Done()
			for !r.stopping.Load() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					break
				}
				if r.onlyGroup != "" && r.onlyIndex >= 0 && i != r.onlyIndex {
					continue
				}
				r.one(group, i, l, f)
			}
			journal(l, "", 0, "")
		}(l)
	}
	wg.Wait()
}

func (r *R) one(group string, i, lane int, f func(*C)) {
	c := &C{R: r, Group: group, Index: i, lane: lane, Rng: rand.New(rand.NewSource(caseSeed(r.Seed, r.P.ID, group, i)))}
	journal(lane, group, i, "(being generated)")
	atomic.AddInt64(&r.rep.Evaluations, 1)
	defer func() {
		if e := recover(); e != nil {
			c.Failf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f(c)
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2200 {
		s = s[:2200]
	}
	return s
}

// ---- journal ---------------------------------------------------------------

type laneState struct {
	Group string
	Index int
	Desc  string
	Since int64 // unix ns
}

var (
	journalDir   string
	journalFiles [64]*os.File
	laneBusy     [64]atomic.Int64
)

func journal(lane int, group string, index int, desc string) {
	if group == "" {
		laneBusy[lane].Store(0)
	} else {
		laneBusy[lane].Store(time.Now().UnixNano())
	}
	if journalDir == "" {
		return
	}
	f := journalFiles[lane]
	if f == nil {
		var err error
		f, err = os.OpenFile(filepath.Join(journalDir, fmt.Sprintf("lane%02d", lane)), os.O_CREATE|os.O_RDWR, 0644)
		if err != nil {
			return
		}
		journalFiles[lane] = f
	}
	b, _ := json.Marshal(laneState{group, index, desc, time.Now().UnixNano()})
	var buf [8192]byte
	n := copy(buf[:], b)
	if n < len(buf) {
		buf[n] = '\n'
		n++
	}
	f.WriteAt(buf[:n], 0)
}

func readJournal(dir string) []laneState {
	var out []laneState
	m, _ := filepath.Glob(filepath.Join(dir, "lane*"))
	sort.Strings(m)
	for _, p := range m {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		if i := strings.IndexByte(string(b), '\n'); i >= 0 {
			b = b[:i]
		}
		var s laneState
		if json.Unmarshal(b, &s) == nil && s.Group != "" {
			out = append(out, s)
		}
	}
	return out
}

// ---- worker ----------------------------------------------------------------

// hangAfter is how long one case may take before the worker gives up: cases
// take milliseconds to a few seconds, so this only fires on a real hang.
const hangAfter = 150 * time.Second

func workerMain(p *Prop, tier string, seed int64, scratch, reportPath, onlyGroup string, onlyIndex int) {
	log.SetOutput(io.Discard)
	journalDir = filepath.Join(scratch, "journal")
	os.MkdirAll(journalDir, 0755)
	lanes := runtime.NumCPU()
	if lanes > 16 {
		lanes = 16
	}
	if lanes < 4 {
		lanes = 4
	}
	r := &R{P: p, Tier: tier, Seed: seed, Scratch: scratch, Lanes: lanes,
		onlyGroup: onlyGroup, onlyIndex: onlyIndex, keys: map[string]struct{}{}}
	r.rep.Counters = map[string]int64{}
	go func() {
		for {
			time.Sleep(time.Second)
			for l := range laneBusy {
				if t := laneBusy[l].Load(); t != 0 && time.Since(time.Unix(0, t)) > hangAfter {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					fmt.Fprintf(os.Stderr, "VMON-HANG lane %d\n%s\n", l, buf)
					os.Exit(97)
				}
			}
		}
	}()
	p.Run(r)
	r.mu.Lock()
	r.rep.Complete = true
	r.rep.Distinct = len(r.keys)
	b, err := json.Marshal(&r.rep)
	r.mu.Unlock()
	if err == nil {
		err = os.WriteFile(reportPath, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vmon: cannot write report:", err)
		os.Exit(98)
	}
}
