// Package mon is the runtime-monitoring harness shared by all checks.
//
// A check is a Go main package that calls mon.Main(property, body).  The process
// that the user starts is the supervisor: it re-executes itself as N worker
// processes (shards).  A worker runs the cases whose index is congruent to its
// shard number, keeps a journal of the case it is executing, observes the real
// sadl code, and asks its oracle for a verdict.  The supervisor merges what the
// workers observed, maps worker death (Go fatal errors such as stack overflow,
// concurrent map access, os.Exit from library code, runaway CPU or memory) to a
// violation that names the journalled case, writes the evidence file and prints
// the verdict.
package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- PRNG

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { r := &Rand{s: seed}; r.U64(); return r }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(lo, hi int) int     { return lo + r.Intn(hi-lo+1) }

// Up is a number from lo to hi, or, seldom, one from hi to big.
func (r *Rand) Up(lo, hi, big int) int {
	if r.P(3) {
		return r.Range(hi, big)
	}
	return r.Range(lo, hi)
}
func (r *Rand) Bool() bool               { return r.U64()&1 == 1 }
func (r *Rand) P(pct int) bool           { return r.Intn(100) < pct }
func (r *Rand) Pick(ss ...string) string { return ss[r.Intn(len(ss))] }
func (r *Rand) PickS(ss []string) string { return ss[r.Intn(len(ss))] }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- worker side

type Violation struct {
	Sig    string `json:"sig"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type result struct {
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"`
	Events      map[string]int    `json:"events"`
	Samples     []json.RawMessage `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Known       map[string]string `json:"known"`
	Done        bool              `json:"done"`
}

type Run struct {
	Prop  string
	Tier  string
	Seed  uint64
	Shard int
	N     int

	mu      sync.Mutex
	res     result
	seen    map[uint64]bool
	known   map[string]string
	journal *os.File
	curCase atomic.Value
	scratch string
	perSig  map[string]int
	only    string
	quick   int
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Scale picks the case count for the tier.
func (r *Run) Scale(quick, thorough int) int {
	if r.Thorough() || quick*r.quick > thorough {
		return thorough
	}
	return quick * r.quick
}

// Cases runs body for index 0..n-1 (this shard's share), each with its own PRNG.
func (r *Run) Cases(name string, n int, body func(i int, g *Rand)) {
	for i := 0; i < n; i++ {
		if i%r.N != r.Shard {
			continue
		}
		id := fmt.Sprintf("%s#%d", name, i)
		if r.only != "" && r.only != id {
			continue
		}
		r.enter(id)
		h := fnv.New64a()
		io.WriteString(h, name)
		g := NewRand(h.Sum64() ^ (r.Seed * 0x9e3779b97f4a7c15) ^ (uint64(i) * 0xd1342543de82ef95))
		r.guard(id, func() { body(i, g) })
	}
}

// Once runs a single named case (always on shard chosen by name hash).
func (r *Run) Once(name string, body func()) {
	h := fnv.New64a()
	io.WriteString(h, name)
	if int(h.Sum64()%uint64(r.N)) != r.Shard {
		return
	}
	if r.only != "" && r.only != name {
		return
	}
	r.enter(name)
	r.guard(name, body)
}

func (r *Run) enter(id string) {
	r.curCase.Store(id)
	if r.journal != nil {
		b := make([]byte, 256)
		copy(b, id)
		r.journal.WriteAt(b, 0)
	}
}

// Note appends context about the case being run to the journal (used when the process dies).
func (r *Run) Note(s string) {
	if r.journal != nil {
		if len(s) > 60000 {
			s = s[:60000]
		}
		r.journal.Truncate(256)
		r.journal.WriteAt([]byte(s), 256)
	}
}

// guard turns a panic escaping the observed code (and not caught by the body) into a violation.
func (r *Run) guard(id string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			r.Fail("panic", fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack())))
		}
	}()
	f()
}

// Bug aborts the check: the harness itself is wrong, not the code under observation.
func Bug(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-BUG: "+format+"\n%s\n", append(args, trimStack(debug.Stack()))...)
	os.Exit(98)
}

func trimStack(b []byte) string {
	if len(b) > 4000 {
		b = b[:4000]
	}
	return string(b)
}

// Try runs f and reports a panic as text ("" when none).
func Try(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

// Observe counts one oracle evaluation. key identifies the case for distinctness; a trivial one has nontrivial=false.
func (r *Run) Observe(key string, nontrivial bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Evaluations++
	if nontrivial {
		h := fnv.New64a()
		io.WriteString(h, key)
		r.seen[h.Sum64()] = true
	}
}

func (r *Run) Event(kind string) { r.EventN(kind, 1) }
func (r *Run) EventN(kind string, n int) {
	r.mu.Lock()
	r.res.Events[kind] += n
	r.mu.Unlock()
}

func (r *Run) Sample(v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) >= 2 {
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprint(v))
	}
	if len(b) > 4000 {
		b, _ = json.Marshal(string(b[:4000]))
	}
	r.res.Samples = append(r.res.Samples, b)
}

// Fail records a violation. sig identifies the specific failing thing: a known finding is matched on it exactly.
func (r *Run) Fail(sig, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if text, ok := r.known[sig]; ok {
		r.res.Known[sig] = text
		return
	}
	r.perSig[sig]++
	if r.perSig[sig] > 3 || len(r.res.Violations) > 20 {
		return
	}
	if len(detail) > 30000 {
		detail = detail[:30000] + "...(truncated)"
	}
	r.res.Violations = append(r.res.Violations, Violation{Sig: sig, Case: fmt.Sprint(r.curCase.Load()), Detail: detail})
}

func (r *Run) Failf(sig, format string, args ...interface{}) {
	r.Fail(sig, fmt.Sprintf(format, args...))
}

func (r *Run) Failures() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.res.Violations) }

// Scratch returns a fresh directory inside this worker's scratch area.
func (r *Run) Scratch() string {
	d, err := os.MkdirTemp(r.scratch, "d")
	if err != nil {
		Bug("scratch: %v", err)
	}
	return d
}

var captureMu sync.Mutex

// Capture runs f with os.Stdout redirected and returns what it printed.
func Capture(f func()) string {
	captureMu.Lock()
	defer captureMu.Unlock()
	tmp, err := os.CreateTemp(os.Getenv("MON_SCRATCH"), "out")
	if err != nil {
		Bug("capture: %v", err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old }()
	f()
	os.Stdout = old
	tmp.Seek(0, 0)
	b, _ := io.ReadAll(tmp)
	return string(b)
}

func JSON(v interface{}) string {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

// ---------------------------------------------------------------- supervisor

type Spec struct {
	Prop        string
	Level       string
	Rule        string
	Assumptions []string
	MinEvents   map[string]int // observing fewer of these is inconclusive
	Shards      int            // default 8
	Env         []string
	Quick       int // multiplies the case counts of the quick tier (default 4)
	CPUSeconds  int // per-case CPU budget of a worker before it is declared runaway (default 120)
}

func Main(spec Spec, body func(r *Run)) {
	if os.Getenv("MON_WORKER") != "" {
		worker(spec, body)
		return
	}
	supervise(spec)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.SplitN(line[len("known: "):], " ", 3)
		if len(f) == 3 && f[0] == "property="+prop && strings.HasPrefix(f[1], "sig=") {
			m[f[1][4:]] = f[2]
		}
	}
	return m
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func worker(spec Spec, body func(r *Run)) {
	debug.SetMaxStack(256 << 20)
	r := &Run{Prop: spec.Prop, Tier: tier(), Seed: uint64(envInt("VERIF_SEED", 1)),
		Shard: envInt("MON_SHARD", 0), N: envInt("MON_SHARDS", 1),
		seen: map[uint64]bool{}, known: loadKnown(spec.Prop), perSig: map[string]int{},
		scratch: os.Getenv("MON_SCRATCH"), only: os.Getenv("MON_ONLY")}
	r.res.Events = map[string]int{}
	r.res.Known = map[string]string{}
	r.journal, _ = os.OpenFile(os.Getenv("MON_JOURNAL"), os.O_CREATE|os.O_RDWR, 0644)
	if r.quick = spec.Quick; r.quick == 0 {
		r.quick = 4
	}
	if os.Getenv("MON_LIGHT") != "" { // for mutation campaigns
		r.quick = 1
	}
	limit := spec.CPUSeconds
	if limit == 0 {
		limit = 120
	}
	go func() { // CPU-time (not wall-clock) runaway guard and memory guard
		last, base := "", cpu()
		for {
			time.Sleep(500 * time.Millisecond)
			c, _ := r.curCase.Load().(string)
			if c != last {
				last, base = c, cpu()
			}
			if cpu()-base > time.Duration(limit)*time.Second {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "runaway: case consumed more than %ds of CPU\n%s\n", limit, buf[:n])
				os.Exit(97)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				fmt.Fprintf(os.Stderr, "runaway: heap exceeds 6 GB\n")
				os.Exit(97)
			}
		}
	}()
	body(r)
	r.enter("")
	r.res.Done = true
	for h := range r.seen {
		r.res.Hashes = append(r.res.Hashes, h)
	}
	b, err := json.Marshal(&r.res)
	if err != nil {
		Bug("result: %v", err)
	}
	if err := os.WriteFile(os.Getenv("MON_RESULT"), b, 0644); err != nil {
		Bug("result: %v", err)
	}
	os.Exit(0)
}

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func supervise(spec Spec) {
	start := time.Now()
	n := spec.Shards
	if n == 0 {
		n = 8
	}
	base := ""
	if fi, e := os.Stat("/dev/shm"); e == nil && fi.IsDir() { // many small files: memory is faster
		base = "/dev/shm"
	}
	scratch, err := os.MkdirTemp(base, "sadlmon-"+spec.Prop+"-")
	if err != nil {
		scratch, err = os.MkdirTemp("", "sadlmon-"+spec.Prop+"-")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := run(spec, n, scratch, start)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func run(spec Spec, n int, scratch string, start time.Time) int {
	self, _ := os.Executable()
	type out struct {
		res *result
		err error
		log string
		jrn string
	}
	outs := make([]out, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(scratch, fmt.Sprintf("w%d", i))
			os.MkdirAll(dir, 0755)
			resf, jrnf := filepath.Join(scratch, fmt.Sprintf("res%d", i)), filepath.Join(scratch, fmt.Sprintf("jrn%d", i))
			cmd := exec.Command(self)
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "MON_WORKER=1", "MON_RESULT="+resf, "MON_JOURNAL="+jrnf, "MON_SCRATCH="+dir,
				fmt.Sprintf("MON_SHARD=%d", i), fmt.Sprintf("MON_SHARDS=%d", n), "TMPDIR="+dir)
			cmd.Env = append(cmd.Env, spec.Env...)
			var errb bytes.Buffer
			cmd.Stdout = nil // what the library prints is not the verdict
			cmd.Stderr = &limited{b: &errb}
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			runtime.LockOSThread()
			e := cmd.Run()
			o := out{err: e, log: errb.String()}
			if b, err := os.ReadFile(resf); err == nil {
				var rs result
				if json.Unmarshal(b, &rs) == nil && rs.Done {
					o.res = &rs
				}
			}
			if b, err := os.ReadFile(jrnf); err == nil {
				b = bytes.ReplaceAll(b, []byte{0}, []byte{'\n'})
				for bytes.Contains(b, []byte("\n\n\n")) {
					b = bytes.ReplaceAll(b, []byte("\n\n\n"), []byte("\n"))
				}
				o.jrn = string(b)
			}
			outs[i] = o
		}(i)
	}
	wg.Wait()

	total := result{Events: map[string]int{}, Known: map[string]string{}}
	seen := map[uint64]bool{}
	known := loadKnown(spec.Prop)
	for i, o := range outs {
		if o.res == nil {
			if strings.HasPrefix(o.log, "HARNESS-BUG: ") || strings.Contains(o.log, "\nHARNESS-BUG: ") {
				fmt.Fprintf(os.Stderr, "harness error in shard %d:\n%s\n", i, o.log)
				return 3
			}
			log := o.log
			if i := strings.Index(log, "WARNING: DATA RACE"); i > 0 {
				log = log[i:]
			}
			if len(log) > 8000 {
				log = log[:8000]
			}
			if strings.Contains(fmt.Sprint(o.err), "signal: killed") {
				fmt.Fprintf(os.Stderr, "inconclusive: shard %d was killed from outside (%v)\n", i, o.err)
				return 4
			}
			name := strings.SplitN(strings.TrimSpace(o.jrn), "\n", 2)[0]
			total.Violations = append(total.Violations, Violation{Sig: "process-death", Case: name,
				Detail: fmt.Sprintf("worker process died (%v) while running the journalled case\n--- journal\n%s\n--- stderr\n%s", o.err, o.jrn, log)})
			continue
		}
		total.Evaluations += o.res.Evaluations
		for _, h := range o.res.Hashes {
			seen[h] = true
		}
		for k, v := range o.res.Events {
			total.Events[k] += v
		}
		total.Violations = append(total.Violations, o.res.Violations...)
		for k, v := range o.res.Known {
			total.Known[k] = v
		}
		total.Samples = append(total.Samples, o.res.Samples...)
	}
	_ = known
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	vd := verifDir()
	os.MkdirAll(filepath.Join(vd, "evidence"), 0755)
	level := spec.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(seen),
		"rule":                spec.Rule,
		"samples":             total.Samples,
		"observed_events":     total.Events,
		"worker_processes":    n,
	}
	ev := map[string]interface{}{
		"property": spec.Prop, "tier": tier(), "seed": envInt("VERIF_SEED", 1), "level": level,
		"coverage": cov, "assumptions": spec.Assumptions, "wall_s": time.Since(start).Seconds(),
		"violations": len(total.Violations),
	}
	if len(total.Known) > 0 {
		ks := []string{}
		for k := range total.Known {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_reproduced"] = ks
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if os.Getenv("MON_ONLY") == "" {
		if err := os.WriteFile(filepath.Join(vd, "evidence", spec.Prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 2
		}
	}
	var ks []string
	for k := range total.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.Prop, total.Known[k])
	}
	keys := []string{}
	for k := range total.Events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("property %s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs\n", spec.Prop, tier(), envInt("VERIF_SEED", 1), total.Evaluations, len(seen), time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  observed %-40s %d\n", k, total.Events[k])
	}
	if len(total.Violations) > 0 {
		rd := filepath.Join(vd, "evidence", "replay")
		os.MkdirAll(rd, 0755)
		for i, v := range total.Violations {
			if i >= 10 {
				break
			}
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.txt", spec.Prop, i+1))
			os.WriteFile(p, []byte(fmt.Sprintf("property: %s\nsignature: %s\ncase: %s\nseed: %d tier: %s\nreplay: MON_ONLY='%s' VERIF_SEED=%d VERIF_TIER=%s bash %s/run.sh %s\n\n%s\n",
				spec.Prop, v.Sig, v.Case, envInt("VERIF_SEED", 1), tier(), v.Case, envInt("VERIF_SEED", 1), tier(), vd, spec.Prop, v.Detail)), 0644)
			d := v.Detail
			if len(d) > 1500 {
				d = d[:1500]
			}
			fmt.Printf("--- %s [%s] %s\n%s\n", v.Case, v.Sig, "", d)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Prop, p)
		}
		return 1
	}
	if os.Getenv("MON_ONLY") == "" {
		for k, min := range spec.MinEvents {
			if total.Events[k] < min {
				fmt.Fprintf(os.Stderr, "inconclusive: observed only %d %q events, need %d\n", total.Events[k], k, min)
				return 4
			}
		}
		if total.Evaluations == 0 || len(seen) == 0 {
			fmt.Fprintln(os.Stderr, "inconclusive: nothing observed")
			return 4
		}
	}
	return 0
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// PickS2 picks one of the values.
func (r *Rand) PickS2(vs ...interface{}) interface{} { return vs[r.Intn(len(vs))] }

// Pick0 picks one of the numbers.
func (r *Rand) Pick0(vs ...int) int { return vs[r.Intn(len(vs))] }
