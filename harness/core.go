//go:build go1.21

// Command zzverif is the monitoring harness of /verif: it links the real code of
// /repo (it is compiled inside the module through a build overlay), drives it
// through its public API under generated workloads and lets per-property oracles
// judge what was observed.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- PRNG

// Rng is a splitmix64 generator: every choice of a case comes from it.
type Rng struct{ s uint64 }

// NewRng derives a generator from a list of labels.
func NewRng(labels ...interface{}) *Rng {
	sum := sha256.Sum256([]byte(fmt.Sprint(labels...)))
	return &Rng{s: binary.LittleEndian.Uint64(sum[:8])}
}

// U64 returns the next 64 bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rng) Range(lo int, hi int) int { return lo + r.N(hi-lo+1) }

// P returns true with probability num/den.
func (r *Rng) P(num int, den int) bool { return r.N(den) < num }

// Bytes returns n random bytes.
func (r *Rng) Bytes(n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(r.U64())
	}
	return out
}

// Perm returns a permutation of n.
func (r *Rng) Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Str returns a string of n characters of an alphabet.
func (r *Rng) Str(alphabet string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(alphabet[r.N(len(alphabet))])
	}
	return b.String()
}

// Pick returns one of the elements.
func Pick[T any](r *Rng, list []T) T { return list[r.N(len(list))] }

// ---------------------------------------------------------------- checks

// Check is one registered property monitor.
type Check struct {
	ID          string
	Race        bool // needs the race-detector build
	Single      bool // one child process only
	Rule        string
	Assumptions []string
	Run         func(x *Ctx)
}

var registry = map[string]*Check{}

func register(c *Check) {
	if _, ok := registry[c.ID]; ok {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

// Violation is one oracle alarm.
type Violation struct {
	Sig    string            `json:"sig"`
	Case   string            `json:"case"`
	Msg    string            `json:"msg"`
	Detail map[string]string `json:"detail,omitempty"`
}

// Report is what a child hands to its parent.
type Report struct {
	Evaluations int64            `json:"evaluations"`
	Events      map[string]int64 `json:"events"`
	Distinct    []uint64         `json:"distinct"`
	Samples     []interface{}    `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Dropped     int64            `json:"dropped"`
	Done        bool             `json:"done"`
}

// Ctx is the state of one run of one check in one child.
type Ctx struct {
	Check  *Check
	Seed   uint64
	Tier   string
	Shard  int
	Shards int
	Only   string

	journal *os.File
	mu      sync.Mutex
	rep     Report
	seen    map[uint64]bool
	sigSeen map[string]int
	started int64 // unix nanos of the current case, 0 if none
	cpu0    int64 // cpu nanos at its start
	curCase atomic.Value
}

// Thorough tells if this is the deep tier.
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Scale returns q in the quick tier, t in the thorough one.
func (x *Ctx) Scale(q int, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

// Case is one execution judged by the oracle.
type Case struct {
	X      *Ctx
	ID     string
	Index  int
	R      *Rng
	detail map[string]string
	later  []func()
}

// Later has fn run when the case ends.
func (c *Case) Later(fn func()) { c.later = append(c.later, fn) }

// Put remembers an input or an observation for the replay file.
func (c *Case) Put(key string, value interface{}) {
	if c.detail == nil {
		c.detail = map[string]string{}
	}
	str := fmt.Sprint(value)
	if len(str) > 20000 {
		str = str[:20000] + "...(cut)"
	}
	c.detail[key] = str
}

// Fail records a violation. sig identifies the specific failure (input, call
// site or history), so that known findings match nothing else.
func (c *Case) Fail(sig string, format string, args ...interface{}) {
	c.X.mu.Lock()
	defer c.X.mu.Unlock()
	c.X.sigSeen[sig]++
	if c.X.sigSeen[sig] > 3 || len(c.X.rep.Violations) >= 40 {
		c.X.rep.Dropped++
		return
	}
	det := map[string]string{}
	for k, v := range c.detail {
		det[k] = v
	}
	c.X.rep.Violations = append(c.X.rep.Violations, Violation{Sig: sig, Case: c.ID, Msg: fmt.Sprintf(format, args...), Detail: det})
}

// Event counts something the monitor observed.
func (c *Case) Event(name string) { c.EventN(name, 1) }

// EventN counts n observations.
func (c *Case) EventN(name string, n int) {
	c.X.mu.Lock()
	c.X.rep.Events[name] += int64(n)
	c.X.mu.Unlock()
}

// Distinct declares the case non trivial, identified by key.
func (c *Case) Distinct(parts ...interface{}) {
	sum := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	k := binary.LittleEndian.Uint64(sum[:8])
	c.X.mu.Lock()
	if !c.X.seen[k] {
		c.X.seen[k] = true
		c.X.rep.Distinct = append(c.X.rep.Distinct, k)
	}
	c.X.mu.Unlock()
}

// Sample keeps a few actual cases in the evidence.
func (c *Case) Sample(v interface{}) {
	c.X.mu.Lock()
	if len(c.X.rep.Samples) < 3 {
		c.X.rep.Samples = append(c.X.rep.Samples, v)
	}
	c.X.mu.Unlock()
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return (ru.Utime.Sec+ru.Stime.Sec)*1e9 + (int64(ru.Utime.Usec)+int64(ru.Stime.Usec))*1e3
}

func (x *Ctx) writeJournal(id string) {
	if x.journal == nil {
		return
	}
	buf := make([]byte, 256)
	copy(buf, id)
	for i := len(id); i < len(buf); i++ {
		buf[i] = ' '
	}
	_, _ = x.journal.WriteAt(buf, 0)
}

// Each runs n independent cases of a stream; the shard of this child takes its share.
func (x *Ctx) Each(stream string, n int, fn func(c *Case)) {
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s/%d", stream, i)
		if x.Only != "" {
			if x.Only != id {
				continue
			}
		} else if i%x.Shards != x.Shard {
			continue
		}
		x.one(id, i, fn)
	}
}

// One runs a single directed case (in the shard chosen by its name).
func (x *Ctx) One(name string, fn func(c *Case)) {
	if x.Only != "" {
		if x.Only != name {
			return
		}
	} else {
		sum := sha256.Sum256([]byte(name))
		if int(sum[0])%x.Shards != x.Shard {
			return
		}
	}
	x.one(name, 0, fn)
}

func (x *Ctx) one(id string, index int, fn func(c *Case)) {
	c := &Case{X: x, ID: id, Index: index, R: NewRng(x.Check.ID, "|", x.Seed, "|", id)}
	x.writeJournal(id)
	x.curCase.Store(id)
	atomic.StoreInt64(&x.cpu0, cpuNanos())
	atomic.StoreInt64(&x.started, time.Now().UnixNano())
	defer atomic.StoreInt64(&x.started, 0)
	x.mu.Lock()
	x.rep.Evaluations++
	x.mu.Unlock()
	defer func() {
		if e := recover(); e != nil {
			stack := string(debug.Stack())
			c.Put("stack", stack)
			c.Fail("panic:"+id, "panic: %v", e)
		}
		for _, end := range c.later {
			end()
		}
	}()
	fn(c)
}

// Guard runs fn and reports a panic as an error string.
func Guard(fn func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	fn()
	return ""
}

// watchdog ends the child when one case consumes an absurd amount of CPU time,
// stays blocked, or fills the memory: the parent turns that into a verdict.
func (x *Ctx) watchdog(cpuLimit time.Duration, wallLimit time.Duration, heapLimit uint64) {
	for {
		time.Sleep(250 * time.Millisecond)
		st := atomic.LoadInt64(&x.started)
		if st == 0 {
			continue
		}
		id, _ := x.curCase.Load().(string)
		if cpuNanos()-atomic.LoadInt64(&x.cpu0) > int64(cpuLimit) || time.Now().UnixNano()-st > int64(wallLimit) {
			if atomic.LoadInt64(&x.started) == st {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG hang in case %s\n%s\n", id, buf[:n])
				os.Exit(97)
			}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			fmt.Fprintf(os.Stderr, "WATCHDOG memory %d in case %s\n", ms.HeapAlloc, id)
			os.Exit(98)
		}
	}
}

func hexs(b []byte) string { return hex.EncodeToString(b) }

func jsonStr(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
