package core

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Suite is a list of cases of one workload.
type Suite struct {
	Name            string
	Quick, Thorough int
	Run             func(c *C)
}

// Prop is the machinery of one property.
type Prop struct {
	ID     string
	Rule   string
	Level  string
	Assume []string
	Suites []Suite
	// Fresh runs every case in a process of its own.
	Fresh bool
	// Min is the least number of distinct non-trivial observations of a meaningful run.
	Min int
	// AbortOK: a case whose process ends in a panic is not a violation.
	AbortOK bool
}

// C is the context of one case.
type C struct {
	R      *Rng
	Seed   string
	Idx    int
	N      int
	Tier   string
	evals  int
	obs    map[uint64]bool
	counts map[string]int
	sample []string
	viol   []string
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Eval counts one judgement of the oracle, and the behaviour class it was about as a
// distinct observation.
func (c *C) Eval(parts ...any) {
	c.evals++
	if len(parts) > 0 {
		h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
		c.obs[binary.BigEndian.Uint64(h[:])] = true
	}
}

func (c *C) Count(name string)         { c.counts[name]++ }
func (c *C) CountN(name string, n int) { c.counts[name] += n }

func (c *C) Sample(format string, a ...any) {
	if len(c.sample) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.sample = append(c.sample, s)
	}
}

// Fail records a violation.
func (c *C) Fail(format string, a ...any) {
	if len(c.viol) < 20 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		c.viol = append(c.viol, s)
	}
}

func (c *C) Failed() bool { return len(c.viol) > 0 }

// Check is Fail unless ok; it also counts as an evaluation.
func (c *C) Check(ok bool, format string, a ...any) bool {
	c.evals++
	if !ok {
		c.Fail(format, a...)
	}
	return ok
}

// Keys lists the keys of a map in order.
func Keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Call runs f and returns the panic it ended with, if any.
func Call(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			if s := string(debug.Stack()); len(s) > 0 {
				lines := strings.Split(s, "\n")
				for _, l := range lines {
					if strings.Contains(l, "/repo/") {
						p = fmt.Sprintf("%v at %s", p, strings.TrimSpace(l))
						break
					}
				}
			}
		}
	}()
	f()
	return nil
}

type msg struct {
	T       string         `json:"t"`
	Case    string         `json:"c"`
	Evals   int            `json:"e,omitempty"`
	Obs     []string       `json:"o,omitempty"`
	Counts  map[string]int `json:"n,omitempty"`
	Samples []string       `json:"s,omitempty"`
	Viol    []string       `json:"v,omitempty"`
}

type job struct {
	suite *Suite
	idx   int
}

func (j job) name() string { return fmt.Sprintf("%s/%d", j.suite.Name, j.idx) }

func jobs(p *Prop, tier string) []job {
	var out []job
	for s := range p.Suites {
		n := p.Suites[s].Quick
		if tier == "thorough" {
			n = p.Suites[s].Thorough
			if n == 0 {
				n = p.Suites[s].Quick
			}
		}
		for i := 0; i < n; i += *flagDiv {
			out = append(out, job{&p.Suites[s], i})
		}
	}
	return out
}

func runCase(p *Prop, j job, tier string, seed string) *C {
	n := j.suite.Quick
	if tier == "thorough" && j.suite.Thorough > 0 {
		n = j.suite.Thorough
	}
	key := fmt.Sprintf("%s/%s/%s/%d", seed, p.ID, j.suite.Name, j.idx)
	c := &C{R: NewRng(key), Seed: key, Idx: j.idx, N: n, Tier: tier, obs: map[uint64]bool{}, counts: map[string]int{}}
	c.Install(0, nil)
	if e := Call(func() { j.suite.Run(c) }); e != nil {
		c.Fail("unexpected %v", e)
	}
	return c
}

var (
	flagProp   = flag.String("prop", "", "property")
	flagTier   = flag.String("tier", "quick", "tier")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagWorker = flag.String("worker", "", "run as a worker")
	flagDiv    = flag.Int("div", 1, "run only one of this many cases")
	flagCase   = flag.String("case", "", "run only this case")
	flagJobs   = flag.Int("j", 0, "workers")
	flagEvid   = flag.String("evidence", "", "evidence file")
	flagKeep   = flag.String("replays", "", "directory for replay files")
	flagKnown  = flag.String("known", "", "known findings file")
	flagList   = flag.Bool("list", false, "list cases")
	flagBuild  = flag.String("build", "plain", "label of the build")
)

// Main is the entry point of every harness binary.
func Main(props []Prop) {
	flag.Parse()
	var p *Prop
	for i := range props {
		if props[i].ID == *flagProp {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		os.Exit(3)
	}
	if *flagList {
		for _, j := range jobs(p, *flagTier) {
			fmt.Println(j.name())
		}
		return
	}
	if *flagWorker != "" || *flagCase != "" {
		worker(p)
		return
	}
	parent(p)
}

func worker(p *Prop) {
	debug.SetMaxStack(256 << 20)
	js := jobs(p, *flagTier)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	one := func(i int) {
		enc.Encode(msg{T: "begin", Case: fmt.Sprintf("%d:%s", i, js[i].name())})
		w.Flush()
		c := runCase(p, js[i], *flagTier, strconv.FormatInt(*flagSeed, 10))
		m := msg{T: "end", Case: fmt.Sprintf("%d:%s", i, js[i].name()), Evals: c.evals, Counts: c.counts, Samples: c.sample, Viol: c.viol}
		for o := range c.obs {
			m.Obs = append(m.Obs, strconv.FormatUint(o, 36))
		}
		enc.Encode(m)
		w.Flush()
	}
	if *flagCase != "" {
		for i := range js {
			if js[i].name() == *flagCase {
				one(i)
			}
		}
	} else {
		// positions of cases to run arrive one per line
		runtime.GOMAXPROCS(2)
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			if i, err := strconv.Atoi(in.Text()); err == nil && i >= 0 && i < len(js) {
				one(i)
			}
		}
	}
	enc.Encode(msg{T: "done"})
	w.Flush()
}

type violation struct{ Case, Detail string }

type state struct {
	sync.Mutex
	evals   int
	cases   int
	suites  map[string]int
	obs     map[string]bool
	counts  map[string]int
	samples map[string][]string
	viol    []violation
	incon   []string
	restart int
	next    int
	total   int
	fresh   bool
	abortOK bool
}

// cpuLimit is the processor time a single case may use: cases take seconds, so that
// exceeding it means that an operation does not terminate.
const cpuLimit = 170.0

// rssLimit is the memory (bytes) a worker may use; workers need less than 300 MB.
const rssLimit = 2500 << 20

func procUsage(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	if i := strings.LastIndex(s, ")"); i > 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 21 {
			u, _ := strconv.ParseFloat(f[11], 64)
			v, _ := strconv.ParseFloat(f[12], 64)
			r, _ := strconv.ParseInt(f[21], 10, 64)
			return (u + v) / 100, r * 4096
		}
	}
	return 0, 0
}

// take hands out the position of the next case.
func (st *state) take() (int, bool) {
	st.Lock()
	defer st.Unlock()
	if st.next >= st.total || st.restart > 12 {
		return 0, false
	}
	st.next++
	return st.next - 1, true
}

func (st *state) runWorker() {
	for st.runProcess() {
	}
}

// runProcess runs cases in a process until there are none left (false) or it ends (true).
func (st *state) runProcess() bool {
	i, ok := st.take()
	if !ok {
		return false
	}
	args := []string{"-prop", *flagProp, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed), "-div", fmt.Sprint(*flagDiv), "-worker", "1"}
	cmd := exec.Command(os.Args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=5")
	var errBuf tail
	cmd.Stderr = &errBuf
	out, _ := cmd.StdoutPipe()
	in, _ := cmd.StdinPipe()
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		st.Lock()
		st.incon = append(st.incon, "cannot start worker: "+err.Error())
		st.Unlock()
		return false
	}
	var mu sync.Mutex
	cur, curCPU := "", 0.0
	killed := ""
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			cpu, rss := procUsage(cmd.Process.Pid)
			mu.Lock()
			if cur != "" && cpu-curCPU > cpuLimit {
				killed = fmt.Sprintf("does not terminate: more than %.0f s of processor time", cpuLimit)
			} else if rss > rssLimit {
				killed = fmt.Sprintf("exhausts memory: resident size %d MB", rss>>20)
			}
			if killed != "" {
				cmd.Process.Kill()
				mu.Unlock()
				return
			}
			mu.Unlock()
		}
	}()
	done := false
	fmt.Fprintln(in, i)
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			var m msg
			if json.Unmarshal(line, &m) == nil {
				switch m.T {
				case "begin":
					cpu, _ := procUsage(cmd.Process.Pid)
					mu.Lock()
					cur, curCPU = m.Case, cpu
					mu.Unlock()
				case "end":
					mu.Lock()
					cur = ""
					mu.Unlock()
					st.add(m)
					if st.fresh {
						in.Close()
					} else if i, ok := st.take(); ok {
						fmt.Fprintln(in, i)
					} else {
						in.Close()
					}
				case "done":
					done = true
				}
			}
		}
		if err != nil {
			break
		}
	}
	close(stop)
	werr := cmd.Wait()
	if done && werr == nil {
		return st.fresh
	}
	mu.Lock()
	name, why := cur, killed
	mu.Unlock()
	st.Lock()
	defer st.Unlock()
	if name == "" {
		st.incon = append(st.incon, fmt.Sprintf("worker ended outside of a case: %v %s", werr, errBuf.String()))
		return false
	}
	if why == "" && st.abortOK && strings.Contains(errBuf.String(), "panic: ") {
		st.counts["cases that ended the process"]++
		return true
	}
	if why == "" {
		why = fmt.Sprintf("worker process died (%v): %s", werr, errBuf.String())
	}
	st.viol = append(st.viol, violation{strings.SplitN(name, ":", 2)[1], why})
	st.restart++
	return true
}

// tail keeps the beginning and the end of what is written.
type tail struct {
	mu   sync.Mutex
	head []byte
	last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 3000 {
		t.head = append(t.head, p...)
	} else {
		t.last = append(t.last, p...)
		if len(t.last) > 2000 {
			t.last = t.last[len(t.last)-2000:]
		}
	}
	return len(p), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.last) > 0 {
		return string(t.head) + " ... " + string(t.last)
	}
	return string(t.head)
}

func (st *state) add(m msg) {
	st.Lock()
	defer st.Unlock()
	name := strings.SplitN(m.Case, ":", 2)[1]
	suite := name[:strings.LastIndex(name, "/")]
	st.cases++
	st.suites[suite]++
	st.evals += m.Evals
	for _, o := range m.Obs {
		st.obs[o] = true
	}
	for k, v := range m.Counts {
		st.counts[k] += v
	}
	if len(st.samples[suite]) < 2 {
		for _, s := range m.Samples {
			if len(st.samples[suite]) < 2 {
				st.samples[suite] = append(st.samples[suite], name+": "+s)
			}
		}
	}
	for _, v := range m.Viol {
		st.viol = append(st.viol, violation{name, v})
	}
}

func parent(p *Prop) {
	start := time.Now()
	n := *flagJobs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	st := &state{suites: map[string]int{}, obs: map[string]bool{}, counts: map[string]int{}, samples: map[string][]string{}, total: len(jobs(p, *flagTier)), fresh: p.Fresh, abortOK: p.AbortOK}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st.runWorker()
		}()
	}
	wg.Wait()

	known := readKnown(*flagKnown, p.ID)
	seenKnown := map[string]bool{}
	var viol []violation
	for _, v := range st.viol {
		hit := ""
		for _, k := range known {
			if v.Detail == k.key || strings.HasPrefix(v.Detail, "["+k.key+"]") {
				hit = k.text
			}
		}
		if hit != "" {
			seenKnown[hit] = true
		} else {
			viol = append(viol, v)
		}
	}
	for _, k := range known {
		if seenKnown[k.text] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		}
	}

	var samples []string
	var names []string
	for s := range st.samples {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		samples = append(samples, st.samples[s]...)
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]any{
		"evaluations": st.evals, "distinct_nontrivial": len(st.obs), "rule": p.Rule, "samples": samples,
		"cases": st.cases, "cases_per_workload": st.suites, "events": st.counts, "workers": n, "build": *flagBuild,
	}
	ev := map[string]any{
		"property": p.ID, "tier": *flagTier, "seed": *flagSeed, "level": level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	if *flagEvid != "" {
		// A second build of the same property adds to the first one's evidence.
		if b, err := os.ReadFile(*flagEvid); err == nil && os.Getenv("VERIF_MERGE") == "1" {
			var old map[string]any
			if json.Unmarshal(b, &old) == nil {
				if oc, ok := old["coverage"].(map[string]any); ok {
					cov2 := oc
					cov2["build_"+*flagBuild] = map[string]any{"evaluations": st.evals, "distinct_nontrivial": len(st.obs), "cases": st.cases, "events": st.counts}
					if f, ok := oc["evaluations"].(float64); ok {
						cov2["evaluations"] = int(f) + st.evals
					}
					old["violations"] = len(viol)
					if f, ok := old["wall_s"].(float64); ok {
						old["wall_s"] = f + time.Since(start).Seconds()
					}
					ev = old
				}
			}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*flagEvid), 0o755)
		if err := os.WriteFile(*flagEvid, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s seed=%d build=%s: %d cases, %d evaluations, %d distinct observations, %d violations, %.1f s\n",
		p.ID, *flagTier, *flagSeed, *flagBuild, st.cases, st.evals, len(st.obs), len(viol), time.Since(start).Seconds())
	if len(viol) > 0 {
		perCase := map[string]bool{}
		shown := 0
		for _, v := range viol {
			if perCase[v.Case] || shown >= 5 {
				continue
			}
			perCase[v.Case] = true
			shown++
			path := ""
			if *flagKeep != "" {
				os.MkdirAll(*flagKeep, 0o755)
				path = filepath.Join(*flagKeep, p.ID+"-"+strings.NewReplacer("/", "-", " ", "_", ",", "").Replace(v.Case)+".json")
				b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "case": v.Case, "tier": *flagTier, "seed": *flagSeed, "build": *flagBuild, "detail": v.Detail}, "", " ")
				os.WriteFile(path, append(b, '\n'), 0o644)
			}
			d := v.Detail
			if len(d) > 600 {
				d = d[:600] + "..."
			}
			fmt.Printf("witness %s: %s\n", v.Case, strings.ReplaceAll(d, "\n", " | "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		os.Exit(1)
	}
	if len(st.incon) > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive:", st.incon)
		os.Exit(2)
	}
	if st.evals == 0 || len(st.obs) < p.Min {
		fmt.Fprintf(os.Stderr, "inconclusive: only %d distinct observations\n", len(st.obs))
		os.Exit(2)
	}
}

type knownFinding struct{ key, text string }

func readKnown(path, id string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=P00 key=<key> <text>
		if !strings.HasPrefix(l, "open: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "open: property="+id+" key=")
		f := strings.SplitN(rest, " ", 2)
		if len(f) == 2 {
			out = append(out, knownFinding{f[0], f[1]})
		}
	}
	return out
}
