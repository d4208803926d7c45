package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is the check of one property.
type Check struct {
	Property    string
	Technique   string
	Families    []*Family
	Assumptions []string

	// HangSeconds is how long a single case may take before it is treated as
	// a hang (default 60).
	HangSeconds int
	// MaxHeapMB ends a worker whose heap grows beyond it (default 3000).
	MaxHeapMB int
	// Workers is the number of worker processes (default: CPUs).
	Workers int
	// Budget in seconds per tier (default 240 / 780).
	QuickBudget, ThoroughBudget int
}

type msg struct {
	Type  string          `json:"type"`
	N     int64           `json:"n,omitempty"`
	Stats *Stats          `json:"stats,omitempty"`
	Case  json.RawMessage `json:"case,omitempty"`
	Msg   string          `json:"msg,omitempty"`
	Cut   bool            `json:"cut,omitempty"`
}

type violation struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Task     string          `json:"task"`
	Tier     string          `json:"tier"`
	Mode     string          `json:"mode"` // "case" or "task"
	Kind     string          `json:"kind"` // "oracle", "crash", "hang", "memory"
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
}

// known is an entry of the known findings file.
type known struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	What     string          `json:"what"`
}

const (
	exitViolation = 1
	exitError     = 2
)

// Main runs the check.
func Main(c *Check) {
	worker := flag.Bool("worker", false, "run as worker")
	trace := flag.String("trace", "", "trace file (worker)")
	replay := flag.String("replay", "", "replay a recorded violation")
	only := flag.String("family", "", "only run this family")
	tierflag := flag.String("tier", "", "quick or thorough")
	budget := flag.Int("budget", 0, "time budget in seconds")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	flag.Parse()

	if c.HangSeconds == 0 {
		c.HangSeconds = 60
	}
	if c.MaxHeapMB == 0 {
		c.MaxHeapMB = 3000
	}
	if c.Workers == 0 {
		c.Workers = runtime.NumCPU()
		if c.Workers > 8 {
			c.Workers = 8
		}
	}
	if c.QuickBudget == 0 {
		c.QuickBudget = 240
	}
	if c.ThoroughBudget == 0 {
		c.ThoroughBudget = 780
	}

	tier := Quick
	ts := *tierflag
	if ts == "" {
		ts = os.Getenv("VERIF_TIER")
	}
	if ts == "thorough" {
		tier = Thorough
	}

	switch {
	case *worker:
		workerMain(c, tier, *trace)
	case *replay != "":
		os.Exit(replayMain(c, *replay))
	default:
		b := *budget
		if b == 0 {
			b = c.QuickBudget
			if tier == Thorough {
				b = c.ThoroughBudget
			}
		}
		os.Exit(parentMain(c, tier, time.Duration(b)*time.Second, *only, *noev))
	}
}

// ---- worker ----

func heapMB() int {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return int(s[0].Value.Uint64() >> 20)
}

func workerMain(c *Check, tier Tier, trace string) {
	debug.SetTraceback("single")
	out := os.NewFile(3, "proto")
	var mu sync.Mutex
	send := func(m msg) {
		b, err := json.Marshal(m)
		if err != nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		_, _ = out.Write(append(b, '\n'))
	}
	// The code under test may print: keep that away.
	devnull, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	os.Stdout = devnull

	w := newW(tier)
	if trace != "" {
		f, err := os.Create(trace)
		if err != nil {
			os.Exit(exitError)
		}
		w.tracefile = f
	}
	w.viol = func(cs json.RawMessage, m string) {
		send(msg{Type: "viol", Case: cs, Msg: m})
	}

	// Watchdog.
	go func() {
		last, since := int64(-1), time.Now()
		tick := 0
		for {
			time.Sleep(100 * time.Millisecond)
			tick++
			n := w.ncase.Load()
			if m := n + w.alive.Load(); m != last {
				last, since = m, time.Now()
			}
			bad := ""
			if n > 0 && time.Since(since) > time.Duration(c.HangSeconds)*time.Second {
				bad = "hang"
			}
			if heapMB() > c.MaxHeapMB {
				bad = "memory"
			}
			if bad != "" {
				h, _ := w.cur.Load().(holder)
				raw, _ := json.Marshal(h.v)
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				if w.large.Load() {
					bad = "gaveup"
				}
				send(msg{Type: bad, Case: raw, Msg: trim(string(buf), 4000)})
				os.Exit(3)
			}
			if tick%10 == 0 {
				send(msg{Type: "hb", N: n})
			}
		}
	}()

	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	for in.Scan() {
		var fi, ti int
		var deadline int64
		if _, err := fmt.Sscanf(in.Text(), "%d %d %d", &fi, &ti, &deadline); err != nil {
			os.Exit(exitError)
		}
		f := c.Families[fi]
		w.large.Store(f.Large)
		w.reset(f.Tasks(tier)[ti])
		w.stop.Store(false)
		var timer *time.Timer
		if deadline > 0 {
			timer = time.AfterFunc(time.Until(time.UnixMilli(deadline)), func() { w.stop.Store(true) })
		}
		cut := runTask(w, f, tier, ti)
		if timer != nil {
			timer.Stop()
		}
		st := w.Stats
		send(msg{Type: "done", Stats: &st, Cut: cut})
	}
}

func runTask(w *W, f *Family, tier Tier, ti int) (cut bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && e == errStop {
				cut = true
				return
			}
			panic(r)
		}
	}()
	f.run(w, tier, ti)
	return false
}

// ---- replay ----

func replayMain(c *Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	tier := Quick
	if v.Tier == "thorough" {
		tier = Thorough
	}
	for _, f := range c.Families {
		if f.Name != v.Family {
			continue
		}
		w := newW(tier)
		failed := ""
		w.viol = func(cs json.RawMessage, m string) {
			if v.Mode != "task" || bytes.Equal(compact(cs), compact(v.Case)) {
				failed = m
			}
		}
		// A replay that does not terminate or exhausts memory is a failure.
		limit := 2 * c.HangSeconds
		go func() {
			t0, last := time.Now(), int64(0)
			for {
				time.Sleep(100 * time.Millisecond)
				if n := w.alive.Load(); n != last {
					t0, last = time.Now(), n
				}
				if v.Mode != "task" && time.Since(t0) > time.Duration(limit)*time.Second {
					fmt.Printf("REPLAY-VIOLATION: no result after %ds\n", limit)
					os.Exit(exitViolation)
				}
				if heapMB() > c.MaxHeapMB {
					fmt.Printf("REPLAY-VIOLATION: heap grew beyond %d MB\n", c.MaxHeapMB)
					os.Exit(exitViolation)
				}
			}
		}()
		if v.Mode == "task" {
			w.until = string(compact(v.Case))
			for ti, id := range f.Tasks(tier) {
				if id == v.Task {
					w.reset(id)
					runTask(w, f, tier, ti)
				}
			}
		} else if err := f.check(w, v.Case); err != nil {
			failed = err.Error()
		}
		if failed != "" {
			fmt.Printf("REPLAY-VIOLATION: property=%s family=%s case=%s\n%s\n", v.Property, v.Family, v.Case, failed)
			return exitViolation
		}
		fmt.Printf("REPLAY-OK: property=%s family=%s\n", v.Property, v.Family)
		return 0
	}
	fmt.Fprintf(os.Stderr, "unknown family %q\n", v.Family)
	return exitError
}

func compact(raw json.RawMessage) []byte {
	var b bytes.Buffer
	if err := json.Compact(&b, raw); err != nil {
		return raw
	}
	return b.Bytes()
}

// ---- parent ----

type job struct{ fi, ti int }

type worker struct {
	cmd   *exec.Cmd
	stdin io.WriteCloser
	msgs  chan msg
	errb  *tail
}

// tail keeps the first and last bytes of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 8192 - len(t.b); room > 0 {
		if len(p) > room {
			t.b = append(t.b, p[:room]...)
		} else {
			t.b = append(t.b, p...)
		}
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

func startWorker(tier Tier, trace string) (*worker, error) {
	args := []string{"-worker", "-tier", tier.String()}
	if trace != "" {
		args = append(args, "-trace", trace)
	}
	cmd := exec.Command(self(), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	stdin, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	w := &worker{cmd: cmd, stdin: stdin, msgs: make(chan msg, 1024), errb: &tail{}}
	cmd.Stderr = w.errb
	runtime.LockOSThread() // Pdeathsig is tied to the thread that forks.
	err = cmd.Start()
	runtime.UnlockOSThread()
	if err != nil {
		return nil, err
	}
	pw.Close()
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			line, err := br.ReadBytes('\n')
			if len(line) > 0 {
				var m msg
				if json.Unmarshal(line, &m) == nil {
					w.msgs <- m
				}
			}
			if err != nil {
				break
			}
		}
		_ = cmd.Wait()
		close(w.msgs)
		r.Close()
	}()
	return w, nil
}

func (w *worker) kill() {
	if w == nil || w.cmd.Process == nil {
		return
	}
	_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
}

type parent struct {
	c        *Check
	tier     Tier
	deadline time.Time

	mu       sync.Mutex
	stats    []Stats // per family
	done     []int
	cut      []int
	viols    []violation
	knownhit map[int]int
	known    []known
	stopping bool
	errors   []string
	scratch  string
}

const maxViolations = 3

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func loadKnown(property string) ([]known, error) {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var file struct {
		Open  []known  `json:"open"`
		Fixed []string `json:"fixed"`
	}
	if err := json.Unmarshal(b, &file); err != nil {
		return nil, err
	}
	var ks []known
	for _, k := range file.Open {
		if k.Property == property {
			ks = append(ks, k)
		}
	}
	return ks, nil
}

// violation records v unless it is a known finding; returns whether the whole
// exploration should stop.
func (p *parent) violation(v violation) {
	p.mu.Lock()
	defer p.mu.Unlock()
	cs := compact(v.Case)
	for i, k := range p.known {
		if k.Family == v.Family && bytes.Equal(compact(k.Case), cs) {
			p.knownhit[i]++
			return
		}
	}
	for _, o := range p.viols {
		if o.Family == v.Family && bytes.Equal(compact(o.Case), cs) {
			return
		}
	}
	p.viols = append(p.viols, v)
	if len(p.viols) >= maxViolations {
		p.stopping = true
	}
}

func (p *parent) fail(format string, args ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.errors = append(p.errors, fmt.Sprintf(format, args...))
}

// runOne runs one job on w. It returns false when the worker is gone.
func (p *parent) runOne(w *worker, j job, deadline time.Time, tracing bool) (alive, finished bool, last msg) {
	f := p.c.Families[j.fi]
	task := f.Tasks(p.tier)[j.ti]
	mk := func(kind, m string, cs json.RawMessage) violation {
		return violation{Property: p.c.Property, Family: f.Name, Task: task, Tier: p.tier.String(),
			Mode: "case", Kind: kind, Case: cs, Message: m}
	}
	dl := deadline.UnixMilli()
	if _, err := fmt.Fprintf(w.stdin, "%d %d %d\n", j.fi, j.ti, dl); err != nil {
		return false, false, msg{}
	}
	// A worker that sends nothing at all for this long is dead.
	silent := time.Duration(p.c.HangSeconds+60) * time.Second
	timer := time.NewTimer(silent)
	defer timer.Stop()
	for {
		select {
		case m, ok := <-w.msgs:
			if !ok {
				return false, false, last
			}
			timer.Reset(silent)
			switch m.Type {
			case "viol":
				p.violation(mk("oracle", m.Msg, m.Case))
				p.mu.Lock()
				st := p.stopping
				p.mu.Unlock()
				if st {
					w.kill()
					return false, true, m
				}
			case "gaveup":
				// A slow but correct implementation may be too slow, or need
				// too much memory, for the cases of this family.
				p.mu.Lock()
				merge(&p.stats[j.fi], &Stats{Outcomes: map[string]int64{"gave-up": 1}})
				p.mu.Unlock()
				w.kill()
				return false, true, m
			case "hang", "memory":
				p.violation(mk(m.Type, m.Msg, m.Case))
				last = m
				w.kill()
				return false, true, m
			case "done":
				p.mu.Lock()
				merge(&p.stats[j.fi], m.Stats)
				if m.Cut {
					p.cut[j.fi]++
				} else {
					p.done[j.fi]++
				}
				p.mu.Unlock()
				return true, true, m
			}
		case <-timer.C:
			w.kill()
			return false, false, msg{Type: "silent"}
		}
	}
}

func merge(dst, src *Stats) {
	dst.Cases += src.Cases
	dst.States += src.States
	dst.Transitions += src.Transitions
	dst.Traces += src.Traces
	if dst.Outcomes == nil {
		dst.Outcomes = map[string]int64{}
	}
	for k, v := range src.Outcomes {
		dst.Outcomes[k] += v
	}
	if dst.Max == nil {
		dst.Max = map[string]int64{}
	}
	for k, v := range src.Max {
		if v > dst.Max[k] {
			dst.Max[k] = v
		}
	}
	dst.Samples = append(dst.Samples, src.Samples...)
}

// crash attributes the death of a worker to a case by repeating the task while
// recording every case before it is run.
func (p *parent) crash(j job, stderr string, w *worker) {
	f := p.c.Families[j.fi]
	task := f.Tasks(p.tier)[j.ti]
	if f.Large && strings.TrimSpace(stderr) == "" {
		// Ended from outside: out of memory.
		p.mu.Lock()
		merge(&p.stats[j.fi], &Stats{Outcomes: map[string]int64{"gave-up": 1}})
		p.cut[j.fi]++
		p.mu.Unlock()
		return
	}
	tf := filepath.Join(p.scratch, fmt.Sprintf("trace-%d-%d-%d", j.fi, j.ti, time.Now().UnixNano()))
	defer os.Remove(tf)
	tw, err := startWorker(p.tier, tf)
	if err != nil {
		p.fail("cannot start tracing worker: %v", err)
		return
	}
	alive, finished, _ := p.runOne(tw, j, time.Now().Add(300*time.Second), true)
	if alive {
		tw.stdin.Close()
		return // the crash did not repeat: the task has now been completed
	}
	if finished {
		return
	}
	b, err := os.ReadFile(tf)
	if err != nil || len(bytes.TrimSpace(b)) == 0 {
		p.fail("worker died in %s/%s before any case: %s", f.Name, task, trim(stderr, 2000))
		return
	}
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	es := tw.errb.String()
	if es == "" {
		es = stderr
	}
	p.violation(violation{Property: p.c.Property, Family: f.Name, Task: task, Tier: p.tier.String(),
		Mode: "case", Kind: "crash", Case: append(json.RawMessage{}, b...), Message: "process died: " + trim(es, 3000)})
	p.mu.Lock()
	p.cut[j.fi]++
	p.mu.Unlock()
}

func parentMain(c *Check, tier Tier, budget time.Duration, only string, noev bool) int {
	start := time.Now()
	p := &parent{c: c, tier: tier, deadline: start.Add(budget), knownhit: map[int]int{}}
	var err error
	p.scratch, err = os.MkdirTemp("", "verifmc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(p.scratch)
	os.Setenv("VERIF_SCRATCH", p.scratch)
	if p.known, err = loadKnown(c.Property); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return exitError
	}
	p.stats = make([]Stats, len(c.Families))
	p.done = make([]int, len(c.Families))
	p.cut = make([]int, len(c.Families))
	total := make([]int, len(c.Families))

	// Interleave the families so that each gets its share of a cut run.
	type slot struct {
		job
		key float64
	}
	var slots []slot
	for fi, f := range c.Families {
		if only != "" && f.Name != only {
			continue
		}
		n := len(f.Tasks(tier))
		total[fi] = n
		for ti := 0; ti < n; ti++ {
			slots = append(slots, slot{job{fi, ti}, (float64(ti) + 0.5) / float64(n)})
		}
	}
	sort.SliceStable(slots, func(i, j int) bool { return slots[i].key < slots[j].key })
	jobs := make(chan job, len(slots))
	for _, s := range slots {
		jobs <- s.job
	}
	close(jobs)

	var wg sync.WaitGroup
	nw := c.Workers
	if len(slots) < nw {
		nw = len(slots)
	}
	famtime := make([]float64, len(c.Families))
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stdin.Close()
					w.kill()
				}
			}()
			for j := range jobs {
				p.mu.Lock()
				stop := p.stopping
				p.mu.Unlock()
				if stop {
					return
				}
				if time.Now().After(p.deadline) {
					p.mu.Lock()
					p.cut[j.fi]++
					p.mu.Unlock()
					continue
				}
				if w == nil {
					var err error
					w, err = startWorker(tier, "")
					if err != nil {
						p.fail("cannot start worker: %v", err)
						return
					}
				}
				t0 := time.Now()
				alive, finished, _ := p.runOne(w, j, p.deadline, false)
				p.mu.Lock()
				famtime[j.fi] += time.Since(t0).Seconds()
				p.mu.Unlock()
				if !alive {
					stderr := w.errb.String()
					w.kill()
					dead := w
					w = nil
					if !finished {
						p.crash(j, stderr, dead)
					} else {
						p.mu.Lock()
						p.cut[j.fi]++
						p.mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()

	// Confirm violations in fresh processes.
	confirmed := p.confirm()

	for i, k := range p.known {
		if only == "" || k.Family == only {
			what := k.What
			if p.knownhit[i] == 0 {
				what += " (not reached in this run)"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, what)
		}
	}

	if !noev {
		if err := p.evidence(start, total, famtime, len(confirmed)); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return exitError
		}
	}
	for fi, f := range c.Families {
		if total[fi] == 0 {
			continue
		}
		fmt.Printf("family %-28s tasks=%d/%d cases=%d transitions=%d traces=%d cpu=%.1fs outcomes=%s\n", f.Name,
			p.done[fi], total[fi], p.stats[fi].Cases, p.stats[fi].Transitions, p.stats[fi].Traces, famtime[fi], short(p.stats[fi].Outcomes))
	}
	fmt.Printf("wall %.1fs\n", time.Since(start).Seconds())
	if len(confirmed) > 0 {
		for _, v := range confirmed {
			name := fmt.Sprintf("%s-%s-%d.json", c.Property, v.Family, time.Now().UnixNano())
			dir := filepath.Join(root(), "replays")
			_ = os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, name)
			b, _ := json.MarshalIndent(v, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			fmt.Printf("  %s %s/%s case=%s\n  %s\n", v.Kind, v.Family, v.Task, trim(string(v.Case), 1500), trim(v.Message, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
		}
		return exitViolation
	}
	if len(p.errors) > 0 {
		for _, e := range p.errors {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		return exitError
	}
	return 0
}

func short(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		parts = append(parts, k+":"+strconv.FormatInt(m[k], 10))
	}
	return trim(strings.Join(parts, ","), 400)
}

// confirm re-runs every candidate violation in fresh processes.
func (p *parent) confirm() []violation {
	var out []violation
	start := time.Now()
	for i, v := range p.viols {
		if i >= maxViolations || (len(out) > 0 && time.Since(start) > 150*time.Second) {
			break
		}
		ok := false
		for _, mode := range []string{"case", "task"} {
			v.Mode = mode
			n := 5
			if mode == "task" || v.Kind == "hang" {
				n = 2
			}
			fails := 0
			for r := 0; r < n; r++ {
				if v.Kind == "oracle" && fails > 0 && time.Since(start) > 40*time.Second {
					break
				}
				if p.rerun(v) {
					fails++
				} else if v.Kind != "oracle" {
					break
				}
			}
			if fails == n || (v.Kind == "oracle" && fails > 0) {
				v.Message = fmt.Sprintf("[reproduced %d/%d, mode %s] %s", fails, n, mode, v.Message)
				ok = true
				break
			}
			if v.Kind != "oracle" {
				break
			}
		}
		if ok {
			out = append(out, v)
		} else {
			fmt.Printf("NOT-REPRODUCED: property=%s %s/%s case=%s: %s\n", v.Property, v.Family, v.Task, trim(string(v.Case), 600), trim(v.Message, 600))
		}
	}
	return out
}

func (p *parent) rerun(v violation) bool {
	f := filepath.Join(p.scratch, fmt.Sprintf("replay-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(v)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return false
	}
	defer os.Remove(f)
	cmd := exec.Command(self(), "-replay", f)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
	if err := cmd.Start(); err != nil {
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return false
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == exitViolation {
			return true
		}
		// Any other death is a crash of the code under test.
		return v.Kind != "oracle" || true
	case <-time.After(300 * time.Second):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return v.Kind == "hang"
	}
}

func (p *parent) evidence(start time.Time, total []int, famtime []float64, nviol int) error {
	type fam struct {
		Name        string           `json:"name"`
		Doc         string           `json:"space"`
		Tasks       int              `json:"tasks"`
		Completed   int              `json:"tasks_completed"`
		States      int64            `json:"states"`
		Transitions int64            `json:"transitions"`
		Traces      int64            `json:"traces_validated_against_impl"`
		Outcomes    map[string]int64 `json:"outcomes"`
		Max         map[string]int64 `json:"max,omitempty"`
		CPU         float64          `json:"cpu_s"`
		Exhaustive  bool             `json:"exhaustive"`
	}
	var fams []fam
	var tot Stats
	exhaustive := true
	var samples []interface{}
	for fi, f := range p.c.Families {
		if total[fi] == 0 {
			exhaustive = false
			continue
		}
		s := p.stats[fi]
		ex := p.done[fi] == total[fi]
		exhaustive = exhaustive && ex
		fams = append(fams, fam{f.Name, f.Doc, total[fi], p.done[fi], s.States, s.Transitions, s.Traces, s.Outcomes, s.Max, famtime[fi], ex})
		merge(&tot, &s)
		// A few samples, spread over the tasks.
		n := len(s.Samples)
		for k := 0; k < 3 && k < n; k++ {
			sm := s.Samples[k*(n-1)/max(1, min(2, n-1))]
			samples = append(samples, map[string]interface{}{"family": f.Name, "task": sm.Task, "n": sm.N, "case": sm.Case})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if samples == nil {
		samples = []interface{}{}
	}
	knownlist := []string{}
	for i, k := range p.known {
		knownlist = append(knownlist, fmt.Sprintf("%s (hit %d times)", k.What, p.knownhit[i]))
	}
	ev := map[string]interface{}{
		"property": p.c.Property,
		"tier":     p.tier.String(),
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        tot.States,
			"transitions":                   tot.Transitions,
			"traces_validated_against_impl": tot.Traces,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
			"families":                      fams,
			"known_findings":                knownlist,
			"method":                        p.c.Technique,
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
		"assumptions": p.c.Assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(root(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.c.Property+".json"), b, 0o644)
}
