package main

// Case runner. A property is a deterministic list of cases (determined by the
// tier and the seed). Cases run in worker subprocesses so that a crash of the
// code under test (a panic on another goroutine, a fatal runtime error) is an
// observation and not the end of the run.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Failure is one refuting observation.
type Failure struct {
	Key    string `json:"key"` // stable identifier of the failing input / call site / history
	Detail string `json:"detail"`
}

// Case is one workload with its oracle.
type Case struct {
	ID  string
	Run func(t *T)
}

// Prop is a checked property.
type Prop struct {
	ID          string
	Level       string
	Rule        string // what counts as a distinct non-trivial evaluation
	Assumptions []string
	Cases       func(tier string, seed int64) []Case
	// MinCounts are the monitored event counts below which a run is
	// considered not to have observed anything.
	MinCounts map[string]int64
	// Serial runs the cases in a single worker.
	Serial bool
	// Fresh runs every case in a process of its own.
	Fresh bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is the context handed to a case.
type T struct {
	CaseID string
	Rng    *rand.Rand
	Tier   string
	Seed   int64

	mu       sync.Mutex
	dir      string
	Fails    []Failure
	Counts   map[string]int64
	Sigs     []string
	Samples  []string
	cleanups []func()
	notes    []string
}

// Dir returns a scratch directory private to the case.
func (t *T) Dir() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.dir == "" {
		d, err := os.MkdirTemp(scratchRoot(), "case")
		if err != nil {
			panic(err)
		}
		t.dir = d
	}
	return t.dir
}

// Failf records a violation.
func (t *T) Failf(key, format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.Fails) >= 20 {
		return
	}
	t.Fails = append(t.Fails, Failure{Key: key, Detail: fmt.Sprintf(format, args...)})
}

// Failed reports whether a violation was recorded.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.Fails) > 0
}

// Count adds to a monitor counter.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Counts[name] += int64(n)
}

// Sig records the signature of a non-trivial evaluation.
func (t *T) Sig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Sigs = append(t.Sigs, strconv.FormatUint(h.Sum64(), 36))
}

// Sample records a sample of what was observed, for the evidence file.
func (t *T) Sample(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.Samples) < 1 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		t.Samples = append(t.Samples, s)
	}
}

// Note attaches context that is printed only when the case fails.
func (t *T) Note(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.notes) < 400 {
		t.notes = append(t.notes, fmt.Sprintf(format, args...))
	}
}

// Cleanup registers a function run at the end of the case.
func (t *T) Cleanup(f func()) { t.cleanups = append(t.cleanups, f) }

var scratchOnce sync.Once
var scratchDir string

func scratchRoot() string {
	scratchOnce.Do(func() {
		if d := os.Getenv("VH_SCRATCH"); d != "" {
			scratchDir = d
			return
		}
		d, err := os.MkdirTemp(scratchBase(), "vh")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	})
	return scratchDir
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		f, err := os.CreateTemp(d, "probe")
		if err == nil {
			f.Close()
			os.Remove(f.Name())
			return d
		}
	}
	return "."
}

type workerMsg struct {
	Ev      string           `json:"ev"`
	Idx     int              `json:"idx"`
	Case    string           `json:"case"`
	Fails   []Failure        `json:"fails,omitempty"`
	Counts  map[string]int64 `json:"counts,omitempty"`
	Sigs    []string         `json:"sigs,omitempty"`
	Samples []string         `json:"samples,omitempty"`
	Notes   []string         `json:"notes,omitempty"`
}

func caseSeed(prop, id string, seed int64) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d", prop, id, seed)
	return int64(h.Sum64() >> 1)
}

func runCase(p *Prop, c Case, tier string, seed int64) *T {
	t := &T{CaseID: c.ID, Tier: tier, Seed: seed, Rng: rand.New(rand.NewSource(caseSeed(p.ID, c.ID, seed))), Counts: map[string]int64{}}
	defer func() {
		for i := len(t.cleanups) - 1; i >= 0; i-- {
			func() {
				defer func() { recover() }()
				t.cleanups[i]()
			}()
		}
		if t.dir != "" {
			os.RemoveAll(t.dir)
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					t.Counts["harness_errors"]++
					t.Failf("harness", "harness error: %v", string(he))
					return
				}
				t.Failf("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		c.Run(t)
	}()
	return t
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// harnessError is panicked when the harness itself cannot proceed.
type harnessError string

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error() + "\n" + trimStack(debug.Stack())))
	}
}

func workerMain(args []string) {
	fset := flag.NewFlagSet("worker", flag.ExitOnError)
	propID := fset.String("prop", "", "")
	tier := fset.String("tier", "quick", "")
	seed := fset.Int64("seed", 1, "")
	fset.Parse(args)
	p := props[*propID]
	cases := p.Cases(*tier, *seed)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		idx, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		if err != nil || idx < 0 || idx >= len(cases) {
			continue
		}
		t := runCase(p, cases[idx], *tier, *seed)
		msg := workerMsg{Ev: "end", Idx: idx, Case: t.CaseID, Fails: t.Fails, Counts: t.Counts, Sigs: t.Sigs, Samples: t.Samples}
		if len(t.Fails) > 0 {
			msg.Notes = t.notes
		}
		enc.Encode(msg)
		out.Flush()
	}
}

type workerProc struct {
	cmd    *exec.Cmd
	stdin  io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuffer
}

type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if n := 6000 - len(b.head); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		b.head = append(b.head, p[:n]...)
	}
	b.tail = append(b.tail, p...)
	if len(b.tail) > 4000 {
		b.tail = b.tail[len(b.tail)-4000:]
	}
	return len(p), nil
}

func (b *tailBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.head) < 6000 {
		return string(b.head)
	}
	return string(b.head) + "\n...\n" + string(b.tail)
}

func startWorker(p *Prop, tier string, seed int64, scratch string) (*workerProc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "worker", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10))
	cmd.Env = append(os.Environ(), "VH_SCRATCH="+scratch, "GORACE=halt_on_error=1 exitcode=66")
	w := &workerProc{cmd: cmd, stderr: &tailBuffer{}}
	cmd.Stderr = w.stderr
	w.stdin, err = cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(stdout, 1<<20)
	return w, cmd.Start()
}

// Result is the aggregate of a run.
type Result struct {
	Evaluations int
	Counts      map[string]int64
	Sigs        map[string]bool
	Samples     []string
	Fails       []caseFailure
	Hangs       []string
	Crashes     int
}

type caseFailure struct {
	Case  string
	Fails []Failure
	Notes []string
}

const caseWatchdog = 240 * time.Second

func runAll(p *Prop, tier string, seed int64, workers int, only string) *Result {
	cases := p.Cases(tier, seed)
	ids := map[string]bool{}
	for _, c := range cases {
		if ids[c.ID] {
			panic("duplicate case id " + c.ID)
		}
		ids[c.ID] = true
	}
	if p.Serial {
		workers = 1
	}
	scratch, err := os.MkdirTemp(scratchBase(), "vh-"+p.ID+"-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	res := &Result{Counts: map[string]int64{}, Sigs: map[string]bool{}}
	var mu sync.Mutex
	idxCh := make(chan int)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var stopOnce sync.Once
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var proc *workerProc
			closeProc := func() {
				if proc == nil {
					return
				}
				proc.stdin.Close()
				done := make(chan struct{})
				go func() { proc.cmd.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					proc.cmd.Process.Kill()
					<-done
				}
				proc = nil
			}
			defer closeProc()
			for idx := range idxCh {
				if proc == nil {
					var err error
					proc, err = startWorker(p, tier, seed, scratch)
					if err != nil {
						mu.Lock()
						res.Hangs = append(res.Hangs, "cannot start worker: "+err.Error())
						mu.Unlock()
						proc = nil
						continue
					}
				}
				fmt.Fprintln(proc.stdin, idx)
				var msg workerMsg
				timedOut := false
				timer := time.AfterFunc(caseWatchdog, func() {
					mu.Lock()
					timedOut = true
					mu.Unlock()
					proc.cmd.Process.Kill()
				})
				line, err := proc.out.ReadBytes('\n')
				timer.Stop()
				if err == nil {
					err = json.Unmarshal(line, &msg)
				}
				mu.Lock()
				to := timedOut
				mu.Unlock()
				if err != nil {
					proc.stdin.Close()
					werr := proc.cmd.Wait()
					detail := proc.stderr.String()
					proc = nil
					mu.Lock()
					if to {
						res.Hangs = append(res.Hangs, cases[idx].ID)
						res.Fails = append(res.Fails, caseFailure{Case: cases[idx].ID, Fails: []Failure{{Key: "hang", Detail: fmt.Sprintf("the workload did not return within %s\n%s", caseWatchdog, detail)}}})
					} else {
						key := "crash"
						if strings.Contains(detail, "DATA RACE") {
							key = "race"
						}
						res.Crashes++
						res.Fails = append(res.Fails, caseFailure{Case: cases[idx].ID, Fails: []Failure{{Key: key, Detail: fmt.Sprintf("process died (%v):\n%s", werr, detail)}}})
					}
					n := len(res.Fails)
					mu.Unlock()
					if n >= 10 || to {
						stopOnce.Do(func() { close(stop) })
					}
					continue
				}
				mu.Lock()
				res.Evaluations++
				for k, v := range msg.Counts {
					res.Counts[k] += v
				}
				for _, s := range msg.Sigs {
					res.Sigs[s] = true
				}
				if len(res.Samples) < 8 {
					res.Samples = append(res.Samples, msg.Samples...)
				}
				if len(msg.Fails) > 0 {
					res.Fails = append(res.Fails, caseFailure{Case: msg.Case, Fails: msg.Fails, Notes: msg.Notes})
				}
				n := len(res.Fails)
				mu.Unlock()
				if p.Fresh {
					closeProc()
				}
				if n >= 200 {
					stopOnce.Do(func() { close(stop) })
				}
			}
		}()
	}
loop:
	for i := range cases {
		if only != "" && cases[i].ID != only {
			continue
		}
		select {
		case idxCh <- i:
		case <-stop:
			break loop
		}
	}
	close(idxCh)
	wg.Wait()
	sort.Slice(res.Fails, func(i, j int) bool { return res.Fails[i].Case < res.Fails[j].Case })
	return res
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Case     string `json:"case,omitempty"`
	Key      string `json:"key,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Finding
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var f Finding
		if err := json.Unmarshal([]byte(line), &f); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(3)
		}
		out = append(out, f)
	}
	return out
}

func checkMain(args []string) {
	fset := flag.NewFlagSet("check", flag.ExitOnError)
	propID := fset.String("prop", "", "")
	tier := fset.String("tier", "quick", "")
	seed := fset.Int64("seed", 1, "")
	root := fset.String("root", "/verif", "")
	only := fset.String("case", "", "")
	workers := fset.Int("workers", 8, "")
	maxReplays := fset.Int("replays", 10, "number of violations to write out")
	fset.Parse(args)
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(3)
	}
	start := time.Now()
	res := runAll(p, *tier, *seed, *workers, *only)
	findings := loadFindings(filepath.Join(*root, "known_findings.txt"))
	known := map[int]bool{}
	var violations []caseFailure
	for _, cf := range res.Fails {
		var rest []Failure
	fails:
		for _, f := range cf.Fails {
			for i, k := range findings {
				if k.Status == "open" && k.Property == p.ID && k.Case == cf.Case && k.Key == f.Key {
					known[i] = true
					continue fails
				}
			}
			rest = append(rest, f)
		}
		if len(rest) > 0 {
			violations = append(violations, caseFailure{Case: cf.Case, Fails: rest, Notes: cf.Notes})
		}
	}
	for i := range findings {
		if known[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, findings[i].What)
		}
	}
	// Evidence.
	cov := map[string]any{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": len(res.Sigs),
		"rule":                p.Rule,
		"samples":             res.Samples,
		"known_findings_seen": len(known),
	}
	for k, v := range res.Counts {
		cov[k] = v
	}
	evidence := map[string]any{
		"property":    p.ID,
		"tier":        *tier,
		"seed":        *seed,
		"level":       p.Level,
		"coverage":    cov,
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": p.Assumptions,
		"violations":  len(violations),
	}
	if res.Samples == nil {
		cov["samples"] = []string{}
	}
	if p.Assumptions == nil {
		evidence["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(evidence, "", "  ")
	if *only == "" {
		os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(*root, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if len(violations) > 0 {
		outdir := filepath.Join(*root, "out", p.ID)
		os.MkdirAll(outdir, 0755)
		for i, v := range violations {
			if i >= *maxReplays {
				break
			}
			path := filepath.Join(outdir, fmt.Sprintf("%s-%d-%d.json", *tier, *seed, i))
			rb, _ := json.MarshalIndent(map[string]any{
				"property": p.ID, "tier": *tier, "seed": *seed, "case": v.Case, "failures": v.Fails, "notes": v.Notes,
				"replay_cmd": fmt.Sprintf("VERIF_SEED=%d bash /verif/run.sh %s %s '%s'", *seed, p.ID, *tier, v.Case),
			}, "", "  ")
			os.WriteFile(path, rb, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			for j, f := range v.Fails {
				if j >= 3 {
					break
				}
				d := f.Detail
				if len(d) > 1500 {
					d = d[:1500] + "..."
				}
				fmt.Printf("  case=%s key=%s: %s\n", v.Case, f.Key, d)
			}
		}
		os.Exit(1)
	}
	// A run that observed nothing is not a pass.
	if *only == "" {
		for k, min := range p.MinCounts {
			if res.Counts[k] < min {
				fmt.Fprintf(os.Stderr, "inconclusive: monitor %q observed %d events, expected at least %d\n", k, res.Counts[k], min)
				os.Exit(3)
			}
		}
		if res.Evaluations == 0 || len(res.Sigs) == 0 {
			fmt.Fprintln(os.Stderr, "inconclusive: nothing was evaluated")
			os.Exit(3)
		}
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", p.ID, *tier, res.Evaluations, len(res.Sigs), time.Since(start).Seconds())
}

func tierN(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
