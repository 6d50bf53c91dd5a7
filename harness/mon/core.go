// Command mon runs goji's real code under generated workloads and watches what
// it does: mon PROPERTY [PHASE]. Monitors never look at goji's source or
// internals, only at what its public interface does.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vh/vfsched"
)

// M collects what one run of one property's monitors observed.
type M struct {
	Prop, Phase, Tier string
	Seed              uint64
	Only              string // "label:index": replay just this case
	Rule              string

	evals    atomic.Int64
	nviol    atomic.Int64
	mu       sync.Mutex
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []any
	nsample  map[string]int
	viol     []violation
	known    map[string]string
	inconcl  []string
	cases    map[*T]struct{}
}

type violation struct {
	Label string `json:"label"`
	Index int    `json:"index"`
	What  string `json:"what"`
	Case  string `json:"case,omitempty"`
}

type result struct {
	Prop         string            `json:"prop"`
	Phase        string            `json:"phase"`
	Evaluations  int64             `json:"evaluations"`
	Distinct     int               `json:"distinct"`
	Rule         string            `json:"rule"`
	Counters     map[string]int64  `json:"counters"`
	Samples      []any             `json:"samples"`
	Violations   []violation       `json:"violations"`
	Known        map[string]string `json:"known"`
	Inconclusive []string          `json:"inconclusive"`
	Sites        int               `json:"sites"`
	SiteHits     uint64            `json:"site_hits"`
	SiteList     []int             `json:"site_list"`
}

const maxDistinct = 4 << 20

// T is one case: everything random in it comes from Rng, which depends on the
// seed, the property, the label and the index only.
type T struct {
	m     *M
	Label string
	Index int
	Rng   *rand.Rand
	desc  func() string
	gid   string
	start time.Time
	nfail atomic.Int32
}

// Quick returns q in the quick tier and th in the thorough one.
func (m *M) N(q, th int) int {
	if m.Tier == "thorough" {
		return th
	}
	return q
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// Desc sets how to write out this case if it turns out to violate the property.
func (t *T) Desc(f func() string) { t.desc = f }

// Saw counts one evaluation; key identifies it among the distinct ones, and an
// empty key means that it was trivial.
func (t *T) Saw(key string) { t.m.Saw(key) }

func (m *M) Saw(key string) {
	m.evals.Add(1)
	if key == "" {
		return
	}
	m.SawHash(hash64(key), false)
}

func (m *M) SawHash(h uint64, eval bool) {
	if eval {
		m.evals.Add(1)
	}
	m.mu.Lock()
	if len(m.distinct) < maxDistinct {
		m.distinct[h] = struct{}{}
	}
	m.mu.Unlock()
}

func (m *M) Count(name string, n int64) {
	m.mu.Lock()
	m.counters[name] += n
	m.mu.Unlock()
}
func (t *T) Count(name string, n int64) { t.m.Count(name, n) }

// Sample keeps a few cases per label for the evidence file.
func (t *T) Sample(v func() any) {
	m := t.m
	m.mu.Lock()
	n := m.nsample[t.Label]
	m.nsample[t.Label] = n + 1
	m.mu.Unlock()
	if n >= 2 {
		return
	}
	x := v()
	if s, ok := x.(string); ok && len(s) > 1500 {
		x = s[:1500] + "..."
	}
	m.mu.Lock()
	if len(m.samples) < 14 {
		m.samples = append(m.samples, map[string]any{"workload": t.Label, "case": t.Index, "observed": x})
	}
	m.mu.Unlock()
}

// Fail records a violation of the property.
func (t *T) Fail(format string, args ...any) {
	if t.nfail.Add(1) > 3 {
		return
	}
	var d string
	if t.desc != nil {
		d = t.desc()
	}
	if len(d) > 20000 {
		d = d[:20000] + "..."
	}
	t.m.fail(violation{t.Label, t.Index, clip(fmt.Sprintf(format, args...), 6000), d})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (m *M) fail(v violation) {
	m.nviol.Add(1)
	m.mu.Lock()
	if len(m.viol) < 20 {
		m.viol = append(m.viol, v)
	}
	m.mu.Unlock()
}

// Known records that a listed finding's exact scenario fails.
func (m *M) Known(id, what string) {
	m.mu.Lock()
	m.known[id] = what
	m.mu.Unlock()
}

// Inconclusive records that something could not be decided.
func (m *M) Inconclusive(format string, args ...any) {
	m.mu.Lock()
	if len(m.inconcl) < 20 {
		m.inconcl = append(m.inconcl, clip(fmt.Sprintf(format, args...), 4000))
	}
	m.mu.Unlock()
}

func (m *M) tooMany() bool { return m.nviol.Load() >= 20 }

// Run runs n cases on all processors.
func (m *M) Run(label string, n int, f func(*T)) { m.RunN(label, n, runtime.GOMAXPROCS(0), f) }

// RunSerial runs n cases one after another.
func (m *M) RunSerial(label string, n int, f func(*T)) { m.RunN(label, n, 1, f) }

func (m *M) RunN(label string, n, par int, f func(*T)) {
	lo := 0
	if m.Only != "" {
		i := strings.LastIndexByte(m.Only, ':')
		if m.Only[:i] != label {
			return
		}
		k, _ := strconv.Atoi(m.Only[i+1:])
		lo, n, par = k, k+1, 1
	}
	var next atomic.Int64
	next.Store(int64(lo))
	end := time.Now().Add(m.limit())
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !m.tooMany() && (m.Only != "" || time.Now().Before(end)) {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				m.one(label, i, f)
			}
		}()
	}
	wg.Wait()
	m.Count("cases:"+label, min(next.Load(), int64(n))-int64(lo))
}

// limit bounds one workload's running time, so that a slow machine costs
// coverage rather than the answer.
func (m *M) limit() time.Duration {
	if m.Tier == "thorough" {
		return time.Hour
	}
	return 40 * time.Second
}

func (m *M) one(label string, i int, f func(*T)) {
	t := &T{m: m, Label: label, Index: i, Rng: m.rng(label, i), gid: goid(), start: time.Now()}
	m.mu.Lock()
	m.cases[t] = struct{}{}
	m.mu.Unlock()
	defer func() {
		m.mu.Lock()
		delete(m.cases, t)
		m.mu.Unlock()
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if hasGoji(st) {
				t.Fail("panic: %v\n%s", p, st)
			} else {
				fmt.Fprintf(os.Stderr, "harness panic in %s:%d: %v\n%s\n", label, i, p, st)
				os.Exit(3)
			}
		}
	}()
	f(t)
}

func (m *M) rng(label string, i int) *rand.Rand {
	return rand.New(rand.NewPCG(m.Seed*0x9e3779b97f4a7c15+hash64(m.Prop, label), uint64(i)+1))
}

func hasGoji(stack string) bool { return strings.Contains(stack, "github.com/zenazn/goji") }

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

func allStacks() string {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			return string(b[:n])
		}
		b = make([]byte, 2*len(b))
	}
}

// quiescent tells whether every goroutine (other than ones whose stack contains
// one of ignore) is blocked, and returns a normalised picture of all of them.
func quiescent(stacks string, ignore ...string) (bool, string) {
	var pic []string
	quiet := true
next:
	for _, g := range strings.Split(stacks, "\n\n") {
		if strings.TrimSpace(g) == "" {
			continue
		}
		for _, s := range ignore {
			if strings.Contains(g, s) {
				continue next
			}
		}
		head, rest, _ := strings.Cut(g, "\n")
		a, b := strings.IndexByte(head, '['), strings.LastIndexByte(head, ']')
		if a < 0 || b < a {
			continue
		}
		st := head[a+1 : b]
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		switch st {
		case "semacquire":
			// Starting a garbage collection looks like this, too.
			quiet = quiet && (strings.HasPrefix(rest, "sync.") || strings.HasPrefix(rest, "internal/poll."))
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Cond.Wait", "sync.WaitGroup.Wait",
			"chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select", "select (no cases)", "IO wait", "finalizer wait", "cleanup wait":
		default:
			quiet = quiet && strings.Contains(g, "os/signal.loop")
		}
		var fr []string
		for _, ln := range strings.Split(rest, "\n") {
			if !strings.HasPrefix(ln, "\t") {
				if i := strings.LastIndexByte(ln, '('); i > 0 {
					ln = ln[:i]
				}
				fr = append(fr, ln)
			}
		}
		pic = append(pic, head[:a]+st+" "+strings.Join(fr, ";"))
	}
	sort.Strings(pic)
	return quiet, strings.Join(pic, "\n")
}

// rest recognises goroutines that wait, or sleep or poll, without getting on:
// 200 pictures taken over 20 s, nine in ten of them the same and without a
// goroutine that runs or could run.
type rest struct {
	n   int
	pic map[string]int
}

func (r *rest) add(pic string) bool {
	if r.n >= 200 || r.pic == nil {
		r.n, r.pic = 0, map[string]int{}
	}
	r.n++
	r.pic[pic]++
	if r.n < 200 || r.pic[pic] < 180 {
		return false
	}
	for _, ln := range strings.Split(pic, "\n") {
		f := strings.Fields(ln)
		if len(f) > 2 && !strings.Contains(ln, "os/signal.loop") {
			switch f[2] {
			case "running", "runnable", "syscall", "GC":
				return false
			}
		}
	}
	return true
}

// watchdog looks for cases that make no progress at all. A case normally takes
// milliseconds; one that has run for a minute is examined: it is a violation if
// it burns processor time inside goji or if it is blocked inside goji with
// nothing else moving, and otherwise inconclusive.
func (m *M) watchdog() {
	const limit = 60 * time.Second
	for {
		time.Sleep(5 * time.Second)
		var stuck *T
		m.mu.Lock()
		for t := range m.cases {
			if time.Since(t.start) > limit {
				stuck = t
			}
		}
		m.mu.Unlock()
		if stuck == nil {
			continue
		}
		var pics []string
		var last string
		busy := 0
		var cpu0 = cpuTime()
		for i := 0; i < 5; i++ {
			last = allStacks()
			_, pic := quiescent(last, "main.(*M).watchdog")
			pics = append(pics, pic)
			for _, g := range strings.Split(last, "\n\n") {
				if strings.HasPrefix(g, "goroutine "+stuck.gid+" ") && hasGoji(g) &&
					(strings.Contains(strings.SplitN(g, "\n", 2)[0], "[run") || strings.Contains(strings.SplitN(g, "\n", 2)[0], "[sleep")) {
					busy++
				}
			}
			time.Sleep(2 * time.Second)
		}
		m.mu.Lock()
		_, still := m.cases[stuck]
		m.mu.Unlock()
		if !still {
			continue
		}
		same := true
		for _, p := range pics {
			same = same && p == pics[0]
		}
		q, _ := quiescent(last, "main.(*M).watchdog")
		switch {
		case busy == 5 && cpuTime()-cpu0 > 5*time.Second:
			stuck.Fail("the call does not come back: it has been computing inside goji for over a minute of what normally takes milliseconds\n%s", clip(last, 5000))
		case same && q && hasGojiFrames(last):
			stuck.Fail("deadlock: nothing in the process can make progress\n%s", clip(last, 5000))
		case time.Since(stuck.start) > 5*time.Minute:
			m.Inconclusive("case %s:%d makes no progress\n%s", stuck.Label, stuck.Index, last)
		default:
			continue
		}
		m.finish()
		os.Exit(0)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (m *M) finish() {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := result{Prop: m.Prop, Phase: m.Phase, Evaluations: m.evals.Load(), Distinct: len(m.distinct), Rule: m.Rule,
		Counters: m.counters, Samples: m.samples, Violations: m.viol, Known: m.known, Inconclusive: m.inconcl}
	r.Sites, r.SiteHits = vfsched.Hits()
	r.SiteList = vfsched.HitSites()
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		out := os.Getenv("VH_OUT")
		if out == "" {
			os.Stdout.Write(append(b, '\n'))
			return
		}
		tmp := filepath.Join(filepath.Dir(out), ".tmp-"+filepath.Base(out))
		err = os.WriteFile(tmp, b, 0o644)
		if err == nil {
			err = os.Rename(tmp, out)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

type prop struct {
	rule string
	run  func(*M)
}

var props = map[string]prop{}

// children are modes in which mon re-executes itself as the process under test.
var children = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon PROPERTY [PHASE]")
		os.Exit(3)
	}
	if f, ok := children[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	phase := "main"
	if len(os.Args) > 2 {
		phase = os.Args[2]
	}
	p, ok := props[os.Args[1]+"/"+phase]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property or phase:", os.Args[1], phase)
		os.Exit(3)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	m := &M{Prop: os.Args[1], Phase: phase, Tier: os.Getenv("VERIF_TIER"), Seed: seed, Only: os.Getenv("VH_ONLY"),
		Rule: p.rule, distinct: map[uint64]struct{}{}, counters: map[string]int64{}, nsample: map[string]int{},
		known: map[string]string{}, cases: map[*T]struct{}{}}
	log.SetOutput(io.Discard)
	go m.watchdog()
	p.run(m)
	m.finish()
}

func envInt(k string) int {
	n, _ := strconv.Atoi(os.Getenv(k))
	return n
}
