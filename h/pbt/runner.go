package pbt

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var knownKeys = map[string]bool{}

type finding struct {
	kind, property, key, text string
}

// root of the verification tree (parent of this module)
func verifRoot() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}

func loadFindings() []finding {
	var out []finding
	b, err := ioutil.ReadFile(filepath.Join(verifRoot(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		fd := finding{kind: strings.TrimSuffix(f[0], ":"), property: strings.TrimPrefix(f[1], "property=")}
		if fd.kind == "known" {
			fd.key = strings.TrimPrefix(f[2], "key=")
			fd.text = strings.Join(f[3:], " ")
			knownKeys[fd.property+"/"+fd.key] = true
			out = append(out, fd)
		}
	}
	return out
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Check    string   `json:"check"`
	Seed     uint64   `json:"seed"`
	Index    uint64   `json:"index"`
	Tier     string   `json:"tier"`
	Choices  []uint64 `json:"choices"`
	ByIndex  bool     `json:"by_index"` // the case is regenerated from seed and index
	Message  string   `json:"message"`
	Input    string   `json:"input"`
	Shrinks  int      `json:"shrink_steps"`
	HowTo    string   `json:"how_to_replay"`
}

type workerResult struct {
	Cases, Evals, Discarded int
	Keys                    []uint64
	Labels                  map[string]int
	Known                   map[string]int
	Samples                 []map[string]string
	Failure                 *Replay
	TimedOut                bool
	Next                    int // case at which another process has to go on
}

type config struct {
	prop     *Prop
	tier     string
	seed     uint64
	worker   int
	from     int
	nworker  int
	cases    int
	limit    time.Duration
	progress string
}

func (p *Prop) pick(idx uint64) *Check {
	tot := 0
	for i := range p.Checks {
		if p.Checks[i].Weight == 0 {
			p.Checks[i].Weight = 1
		}
		tot += p.Checks[i].Weight
	}
	v := int(idx % uint64(tot))
	for i := range p.Checks {
		if v < p.Checks[i].Weight {
			return &p.Checks[i]
		}
		v -= p.Checks[i].Weight
	}
	return &p.Checks[0]
}

func (p *Prop) byName(name string) *Check {
	if name == "sweep" {
		return &Check{Name: "sweep", Run: p.Sweep}
	}
	for i := range p.Checks {
		if p.Checks[i].Name == name {
			return &p.Checks[i]
		}
	}
	return nil
}

func (p *Prop) newT(seed, idx uint64, tier string) *T {
	return &T{r: &rng{mix(seed, idx+1)}, maxLen: p.MaxChoices, Tier: tier}
}

func (p *Prop) replayT(choices []uint64, tier string) *T {
	return &T{replay: choices, isRep: true, maxLen: p.MaxChoices, Tier: tier}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := ioutil.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// hang limits for one case
const (
	hangCPU  = 25 * time.Second
	hangWall = 240 * time.Second
	memLimit = 3 << 30
	// size of a process to be replaced by another one
	recycleLimit = 1 << 30
)

type watch struct {
	mu        sync.Mutex
	cur       *T
	check     *Check
	idx       uint64
	startCPU  time.Duration
	startWall time.Time
	best      *Replay // while shrinking
}

func (w *watch) begin(t *T, c *Check, idx uint64) {
	w.mu.Lock()
	w.cur, w.check, w.idx = t, c, idx
	w.startCPU, w.startWall = cpuTime(), time.Now()
	w.mu.Unlock()
}
func (w *watch) end() { w.mu.Lock(); w.cur = nil; w.mu.Unlock() }

// stillGrown measures the memory again, without the garbage left by the previous cases
func stillGrown() bool {
	debug.FreeOSMemory()
	return rss() > memLimit
}

// worker executes its share of the cases in this process.
func worker(cf config) {
	p := cf.prop
	var prog []byte
	if cf.progress != "" {
		f, err := os.OpenFile(cf.progress, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			f.Truncate(16)
			prog, _ = syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	if f := os.Getenv("VERIF_PROF"); f != "" && cf.worker == 0 {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if p.Setup != nil {
		p.Setup(cf.tier)
	}
	res := &workerResult{Labels: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	w := &watch{}
	var once sync.Once
	finish := func() {
		once.Do(func() {
			pprof.StopCPUProfile()
			b, _ := json.Marshal(res)
			os.Stdout.Write(append(b, '\n'))
			os.Exit(0)
		})
		select {}
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			w.mu.Lock()
			t := w.cur
			if t == nil {
				w.mu.Unlock()
				continue
			}
			cpu, wall := cpuTime()-w.startCPU, time.Since(w.startWall)
			var why string
			if cpu > hangCPU {
				why = fmt.Sprintf("the case did not terminate within %s of CPU time (normal cases take milliseconds)", hangCPU)
			} else if wall > hangWall {
				why = fmt.Sprintf("the case is blocked since %s", hangWall)
			} else if m := rss(); m > memLimit && stillGrown() {
				why = fmt.Sprintf("the case made the process grow to %d MB", m>>20)
			}
			if why == "" {
				w.mu.Unlock()
				continue
			}
			if w.best != nil {
				res.Failure = w.best
			} else {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				res.Failure = &Replay{Property: p.ID, Check: w.check.Name, Seed: cf.seed, Index: w.idx, Tier: cf.tier,
					Choices: append([]uint64(nil), t.Choices...), Message: why + "\n" + trimStack(string(buf[:n])), Input: t.description()}
			}
			w.mu.Unlock()
			finish()
		}
	}()

	exec := func(t *T, c *Check, idx uint64) outcome {
		w.begin(t, c, idx)
		o := run(c, t)
		w.end()
		return o
	}
	account := func(t *T, c *Check, o outcome) {
		if o.discarded {
			res.Discarded++
			return
		}
		res.Cases++
		if t.evals > 0 {
			res.Evals += t.evals
		} else {
			res.Evals++
		}
		for k, v := range t.labels {
			res.Labels[c.Name+": "+k] += v
		}
		for k, v := range t.known {
			res.Known[k] += v
		}
		for _, k := range t.keys {
			if !seen[k] {
				seen[k] = true
				res.Keys = append(res.Keys, k)
				if len(res.Samples) < 3 && (len(res.Samples) == 0 || len(res.Keys)%37 == 0) && !o.failed {
					d := t.description()
					if len(d) > 600 {
						d = d[:600] + "..."
					}
					res.Samples = append(res.Samples, map[string]string{"check": c.Name, "input": d})
				}
			}
		}
	}
	start := time.Now()
	if cf.worker == 0 && cf.from == 0 && p.Sweep != nil {
		c := p.byName("sweep")
		t := p.newT(cf.seed, 1<<40, cf.tier)
		t.maxLen = 1 << 30
		o := exec(t, c, 1<<40)
		account(t, c, o)
		if o.failed {
			res.Failure = &Replay{Property: p.ID, Check: "sweep", Seed: cf.seed, Index: 1 << 40, Tier: cf.tier, ByIndex: true, Message: o.message, Input: t.description()}
			finish()
		}
	}
	first := cf.worker
	if cf.from > 0 {
		first = cf.from
	}
	for i := first; i < cf.cases; i += cf.nworker {
		idx := uint64(i)
		// caches of the code under test grow: another process goes on
		if n := (i - first) / cf.nworker; n > 0 && n%64 == 0 && rss() > recycleLimit {
			if debug.FreeOSMemory(); rss() > recycleLimit {
				res.Next = i
				break
			}
		}
		if prog != nil {
			binary.LittleEndian.PutUint64(prog, idx+1)
		}
		if time.Since(start) > cf.limit {
			res.TimedOut = true
			break
		}
		c := p.pick(idx)
		t := p.newT(cf.seed, idx, cf.tier)
		o := exec(t, c, idx)
		account(t, c, o)
		if o.failed {
			res.Failure = &Replay{Property: p.ID, Check: c.Name, Seed: cf.seed, Index: idx, Tier: cf.tier, Choices: t.Choices, Message: o.message, Input: t.description()}
			w.mu.Lock()
			w.best = res.Failure
			w.mu.Unlock()
			shrink(p, c, cf, res.Failure, func(t *T) outcome { return exec(t, c, idx) }, func(r *Replay) { w.mu.Lock(); w.best = r; w.mu.Unlock() })
			res.Failure = w.best
			break
		}
	}
	finish()
}

// shrink minimises the choice sequence of a failing case.
func shrink(p *Prop, c *Check, cf config, first *Replay, exec func(*T) outcome, publish func(*Replay)) {
	deadline := time.Now().Add(25 * time.Second)
	cur := append([]uint64(nil), first.Choices...)
	steps := 0
	try := func(cand []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		t := p.replayT(cand, cf.tier)
		o := exec(t)
		if !o.failed {
			return false
		}
		used := t.Choices
		for len(used) > 0 && used[len(used)-1] == 0 {
			used = used[:len(used)-1]
		}
		if !smaller(used, cur) {
			return false
		}
		cur = append([]uint64(nil), used...)
		steps++
		publish(&Replay{Property: p.ID, Check: c.Name, Seed: first.Seed, Index: first.Index, Tier: cf.tier, Choices: cur, Message: o.message, Input: t.description(), Shrinks: steps})
		return true
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// delete chunks
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(cur); {
				cand := append(append([]uint64(nil), cur[:at]...), cur[at+size:]...)
				if try(cand) {
					improved = true
				} else {
					at += size
				}
				if time.Now().After(deadline) {
					return
				}
			}
		}
		// delete a chunk while decrementing an earlier length choice
		for i := 0; i < len(cur) && i < 400; i++ {
			if cur[i] == 0 || cur[i] > 1000 {
				continue
			}
			for size := 1; size <= 8 && i < len(cur); size++ {
				for at := i + 1; at+size <= len(cur) && at < i+40; at += size {
					cand := append(append([]uint64(nil), cur[:at]...), cur[at+size:]...)
					if cand[i] == 0 {
						break
					}
					cand[i]--
					if try(cand) {
						improved = true
					}
					if i >= len(cur) || time.Now().After(deadline) {
						break
					}
				}
			}
		}
		// lower values
		for i := 0; i < len(cur); i++ {
			if cur[i] == 0 {
				continue
			}
			set := func(v uint64) bool {
				cand := append([]uint64(nil), cur...)
				if i >= len(cand) || v >= cand[i] {
					return false
				}
				cand[i] = v
				if try(cand) {
					improved = true
					return true
				}
				return false
			}
			if set(0) {
				continue
			}
			lo := uint64(0)
			for i < len(cur) && cur[i]-lo > 1 && time.Now().Before(deadline) {
				mid := lo + (cur[i]-lo)/2
				if !set(mid) {
					lo = mid
				}
			}
			if i < len(cur) && cur[i] > 0 {
				set(cur[i] - 1)
			}
		}
	}
}

func smaller(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Main runs the property selected on the command line.
func Main(props ...*Prop) {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	isWorker := flag.Bool("worker", false, "")
	wi := flag.Int("w", 0, "")
	from := flag.Int("from", 0, "first case of the worker")
	nw := flag.Int("nw", 0, "number of workers")
	cases := flag.Int("cases", 0, "override the number of cases")
	limit := flag.Duration("limit", 0, "override the time limit")
	replay := flag.String("replay", "", "replay file")
	progress := flag.String("progress", "", "")
	verbose := flag.Bool("v", false, "")
	seedf := flag.String("seed", os.Getenv("VERIF_SEED"), "")
	flag.Parse()
	loadF := loadFindings()
	var p *Prop
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	// keys are used by the checks without the property prefix
	for k := range knownKeys {
		if strings.HasPrefix(k, p.ID+"/") {
			knownKeys[strings.TrimPrefix(k, p.ID+"/")] = true
		}
		if strings.Contains(k, "/") {
			delete(knownKeys, k)
		}
	}
	if p.MaxChoices == 0 {
		p.MaxChoices = 1 << 16
	}
	var seed uint64 = 1
	if *seedf != "" {
		if v, err := strconv.ParseUint(*seedf, 10, 64); err == nil {
			seed = v
		} else {
			for _, c := range *seedf {
				seed = seed*131 + uint64(c)
			}
		}
	}
	cf := config{prop: p, tier: *tier, seed: seed, worker: *wi, from: *from, nworker: *nw, progress: *progress}
	cf.cases = p.Quick
	cf.limit = 150 * time.Second
	if *tier == "thorough" {
		cf.cases = p.Thorough
		if cf.cases == 0 {
			cf.cases = 40 * p.Quick
		}
		cf.limit = 40 * time.Minute
	}
	if *cases > 0 {
		cf.cases = *cases
	}
	if *limit > 0 {
		cf.limit = *limit
	}
	if *isWorker {
		worker(cf)
		return
	}
	if *replay != "" {
		os.Exit(doReplay(p, *replay, *verbose))
	}
	os.Exit(parent(cf, loadF, *nw, *verbose))
}

func doReplay(p *Prop, file string, verbose bool) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := p.byName(r.Check)
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", r.Check)
		return 2
	}
	if p.Setup != nil {
		p.Setup(r.Tier)
	}
	t := p.replayT(r.Choices, r.Tier)
	if r.ByIndex {
		t = p.newT(r.Seed, r.Index, r.Tier)
		t.maxLen = 1 << 30
	}
	o := run(c, t)
	fmt.Println(t.description())
	if o.failed {
		fmt.Println(o.message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	fmt.Println("the replayed case holds")
	return 0
}

func parent(cf config, findings []finding, nw int, verbose bool) int {
	p := cf.prop
	start := time.Now()
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	if p.Serial {
		nw = 1
	}
	if nw > cf.cases {
		nw = cf.cases
	}
	if nw < 1 {
		nw = 1
	}
	tmp, err := ioutil.TempDir("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	results := make([]*workerResult, nw)
	crashes := make([]*Replay, nw)
	var infra int32
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			prog := filepath.Join(tmp, fmt.Sprintf("p%d", i))
			from := 0
			var out []byte
			var errOut string
			var err error
			for {
				left := cf.limit - time.Since(start)
				if left < time.Millisecond {
					left = time.Millisecond
				}
				args := []string{"-prop", p.ID, "-tier", cf.tier, "-worker", "-w", strconv.Itoa(i), "-nw", strconv.Itoa(nw), "-from", strconv.Itoa(from),
					"-cases", strconv.Itoa(cf.cases), "-limit", left.String(), "-seed", strconv.FormatUint(cf.seed, 10), "-progress", prog}
				out, errOut, err = runChild(args, tmp)
				var r workerResult
				if json.Unmarshal(lastLine(out), &r) != nil || err != nil {
					break
				}
				if from = r.Next; results[i] == nil {
					results[i] = &r
				} else {
					results[i].merge(&r)
				}
				if from == 0 || r.Failure != nil {
					return
				}
			}
			// the worker died: find which case was running
			b, _ := ioutil.ReadFile(prog)
			idx := uint64(1 << 40)
			if len(b) >= 8 {
				if v := binary.LittleEndian.Uint64(b); v > 0 {
					idx = v - 1
				}
			}
			if strings.Contains(errOut, "fatal error:") || strings.Contains(errOut, "panic:") || strings.Contains(errOut, "DATA RACE") {
				name := "sweep"
				if idx != 1<<40 {
					name = p.pick(idx).Name
				}
				crashes[i] = &Replay{Property: p.ID, Check: name, Seed: cf.seed, Index: idx, Tier: cf.tier, ByIndex: true, Message: "the process died: " + clip(errOut, 6000)}
				return
			}
			fmt.Fprintf(os.Stderr, "worker %d died without a verdict (case %d): %v\n%s\n", i, idx, err, clip(errOut, 2000))
			atomic.StoreInt32(&infra, 1)
		}(i)
	}
	wg.Wait()

	tot := workerResult{Labels: map[string]int{}, Known: map[string]int{}}
	keys := map[uint64]bool{}
	var fail *Replay
	for i := range results {
		if crashes[i] != nil && (fail == nil) {
			fail = crashes[i]
		}
		r := results[i]
		if r == nil {
			continue
		}
		tot.Cases += r.Cases
		tot.Evals += r.Evals
		tot.Discarded += r.Discarded
		tot.TimedOut = tot.TimedOut || r.TimedOut
		for _, k := range r.Keys {
			keys[k] = true
		}
		for k, v := range r.Labels {
			tot.Labels[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		if r.Failure != nil && (fail == nil || fail.ByIndex || len(r.Failure.Choices) < len(fail.Choices)) {
			fail = r.Failure
		}
	}
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	sampleObjs := []interface{}{}
	for _, s := range tot.Samples {
		sampleObjs = append(sampleObjs, s)
	}
	labels := []string{}
	for k, v := range tot.Labels {
		labels = append(labels, fmt.Sprintf("%s = %d", k, v))
	}
	sort.Strings(labels)
	violations := []interface{}{}
	code := 0
	if fail != nil {
		dir := filepath.Join(verifRoot(), "replays")
		os.MkdirAll(dir, 0o755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, fail.Check, cf.seed, fail.Index))
		fail.HowTo = fmt.Sprintf("bash %s/check.sh %s replay %s", verifRoot(), p.ID, name)
		b, _ := json.MarshalIndent(fail, "", " ")
		ioutil.WriteFile(name, b, 0o644)
		fmt.Printf("check %s failed\n%s\ninput: %s\n", fail.Check, clip(fail.Message, 4000), clip(fail.Input, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		violations = append(violations, map[string]string{"check": fail.Check, "message": clip(fail.Message, 1500), "replay": name})
		code = 1
	} else if infra != 0 {
		code = 2
	}
	for _, f := range findings {
		if f.property == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s, met %d times in this run]\n", p.ID, f.text, f.key, tot.Known[f.key])
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": cf.tier, "seed": cf.seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         tot.Evals,
			"distinct_nontrivial": len(keys),
			"rule":                p.Rule,
			"samples":             sampleObjs,
			"cases":               tot.Cases,
			"discarded":           tot.Discarded,
			"classes":             labels,
			"stopped_by_time":     tot.TimedOut,
		},
		"violations":  violations,
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      float64(int(time.Since(start).Seconds()*100)) / 100,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifRoot(), "evidence"), 0o755)
	if err := ioutil.WriteFile(filepath.Join(verifRoot(), "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct non trivial, %d discarded, %.1fs%s\n", p.ID, cf.tier, tot.Cases, tot.Evals, len(keys), tot.Discarded, time.Since(start).Seconds(),
		map[bool]string{true: " (stopped by time)", false: ""}[tot.TimedOut])
	if verbose {
		for _, l := range labels {
			fmt.Println("  ", l)
		}
		for _, s := range tot.Samples {
			fmt.Println("   sample", s["check"], ":", s["input"])
		}
	}
	return code
}

// merge adds the results of the process which took over
func (r *workerResult) merge(o *workerResult) {
	r.Cases += o.Cases
	r.Evals += o.Evals
	r.Discarded += o.Discarded
	r.TimedOut = r.TimedOut || o.TimedOut
	r.Keys = append(r.Keys, o.Keys...)
	for k, v := range o.Labels {
		r.Labels[k] += v
	}
	for k, v := range o.Known {
		r.Known[k] += v
	}
	if r.Failure == nil {
		r.Failure = o.Failure
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func lastLine(b []byte) []byte {
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	return []byte(lines[len(lines)-1])
}

func runChild(args []string, tmp string) ([]byte, string, error) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "TMPDIR="+tmp)
	stderr, err := cmd.StderrPipe()
	if err != nil {
		return nil, "", err
	}
	var errBuf strings.Builder
	done := make(chan bool)
	go func() {
		rd := bufio.NewReader(stderr)
		buf := make([]byte, 4096)
		for {
			n, err := rd.Read(buf)
			if errBuf.Len() < 1<<16 {
				errBuf.Write(buf[:n])
			}
			if err != nil {
				break
			}
		}
		done <- true
	}()
	var outBuf strings.Builder
	cmd.Stdout = &outBuf
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	<-done
	err = cmd.Wait()
	return []byte(outBuf.String()), errBuf.String(), err
}

// NewReplay returns a source of the given choices, for debugging.
func NewReplay(choices []uint64) *T { return &T{replay: choices, isRep: true, maxLen: 1 << 20} }
