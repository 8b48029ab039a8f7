package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	rt "github.com/leonelquinteros/gotext/vsimrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|try|replay|plan ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "try":
		try()
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "plan":
		// plan PROP SEED: print a plan
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		sc := props[os.Args[2]].Scens
		b, _ := json.MarshalIndent(genPlan(os.Args[2], sc[int(seed)%len(sc)], seed), "", " ")
		fmt.Println(string(b))
	case "digest":
		// digest PROP FROM N: one line per seed, for the determinism proof
		from, _ := strconv.ParseUint(os.Args[3], 10, 64)
		n, _ := strconv.Atoi(os.Args[4])
		setupChild()
		for i := 0; i < n; i++ {
			seed := from + uint64(i)
			sc := props[os.Args[2]].Scens
			r := runPlan(genPlan(os.Args[2], sc[int(seed%uint64(len(sc)))], seed), nil)
			b, _ := json.Marshal(r.Choices)
			fmt.Printf("%d %016x %d %d %016x %s|%s\n", seed, r.Hash, r.Steps, r.Switch, hashStr(string(b)), r.Class, r.Viol)
		}
	default:
		os.Exit(2)
	}
}

var raceLog string

// setupChild prepares a process that executes runs.
func setupChild() {
	runtime.GOMAXPROCS(1)
	if rt.RaceBuild {
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(500 << 20) // the detector needs several times as much
	}
	debug.SetMaxStack(256 << 20)
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			raceLog = p + "." + strconv.Itoa(os.Getpid())
		}
	}
	// first use of encoding/gob fills its type tables
	var b bytes.Buffer
	type w struct {
		A map[string][]string
		B map[string]map[string]*ment2
	}
	gob.NewEncoder(&b).Encode(w{map[string][]string{"a": {"b"}}, map[string]map[string]*ment2{"a": {"b": {ID: "x"}}}})
	var x w
	gob.NewDecoder(&b).Decode(&x)
	warmUp()
}

type ment2 struct {
	ID  string
	Trs map[int]string
}

func raceReport() string {
	if raceLog == "" {
		return ""
	}
	b, _ := os.ReadFile(raceLog)
	return string(b)
}

// workerOut is what a worker leaves behind.
type workerOut struct {
	Runs    int
	Steps   int64
	Time    int64
	Switch  int64
	Counts  map[string]int64
	Hashes  []uint64
	Visited []uint64
	Trivial int
	Viol    *Replay
	Samples []string
	Done    bool
	Seeds   []uint64
}

// worker PROP FROM STRIDE COUNT SECONDS OUT
func worker(a []string) {
	prop := a[0]
	from, _ := strconv.ParseUint(a[1], 10, 64)
	stride, _ := strconv.ParseUint(a[2], 10, 64)
	count, _ := strconv.Atoi(a[3])
	secs, _ := strconv.ParseFloat(a[4], 64)
	out := a[5]
	setupChild()
	cur, err := os.OpenFile(out+".cur", os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	w := &workerOut{Counts: map[string]int64{}}
	t0 := time.Now()
	polled := t0
	stopFile := filepath.Join(filepath.Dir(out), "stop")
	scens := props[prop].Scens
	seen := map[uint64]bool{}
	var buf [16]byte
	for i := 0; i < count; i++ {
		seed := from + uint64(i)*stride
		if i > 0 && time.Since(t0).Seconds() > secs {
			break
		}
		if i > 0 && i%16 == 0 && time.Since(polled) > 100*time.Millisecond {
			polled = time.Now()
			if _, err := os.Stat(stopFile); err == nil {
				break // another worker found something
			}
		}
		binary.LittleEndian.PutUint64(buf[:8], seed)
		binary.LittleEndian.PutUint64(buf[8:], uint64(i)+1)
		cur.WriteAt(buf[:], 0)
		p := genPlan(prop, scens[int(seed%uint64(len(scens)))], seed)
		r := runPlan(p, nil)
		w.Runs++
		w.Steps += int64(r.Steps)
		w.Time += r.Time
		w.Switch += int64(r.Switch)
		for k, v := range r.Counts {
			w.Counts[k] += v
		}
		if len(w.Visited) == 0 {
			w.Visited = make([]uint64, len(r.Visited))
		}
		for j := range r.Visited {
			w.Visited[j] |= r.Visited[j]
		}
		h := r.Hash ^ hashStr(p.Scen)
		if r.Switch <= 2 && len(r.Counts) == 0 {
			w.Trivial++
		} else if !seen[h] && len(seen) < 400000 {
			seen[h] = true
			w.Hashes = append(w.Hashes, h)
		}
		if len(w.Samples) < 2 && i >= 2 {
			b, _ := json.Marshal(p)
			w.Samples = append(w.Samples, fmt.Sprintf("seed %d scenario %s steps %d switches %d interleaving %016x plan %.900s", seed, p.Scen, r.Steps, r.Switch, r.Hash, b))
		}
		if r.Viol != "" {
			w.Viol = &Replay{Property: prop, Violation: r.Viol, Class: r.Class, Seed: seed, Plan: p, Sched: r.Sched, Choices: r.Choices, Report: r.Report}
			for j := 0; j < i; j++ {
				w.Viol.Before = append(w.Viol.Before, from+uint64(j)*stride)
			}
			break
		}
		if rt.RaceBuild && i%40 == 39 {
			runtime.GC()
		}
	}
	w.Done = true
	b, _ := json.Marshal(w)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}

// try: a Replay on stdin, its outcome on stdout.
func try() {
	var rep Replay
	if err := json.NewDecoder(os.Stdin).Decode(&rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	setupChild()
	b, _ := json.Marshal(execReplay(&rep))
	os.Stdout.WriteString("\nRESULT " + string(b) + "\n")
}

func execReplay(rep *Replay) *Result {
	scens := props[rep.Property].Scens
	for _, seed := range rep.Before {
		runPlan(genPlan(rep.Property, scens[int(seed%uint64(len(scens)))], seed), nil)
	}
	p := rep.Plan
	if p == nil {
		p = genPlan(rep.Property, scens[int(rep.Seed%uint64(len(scens)))], rep.Seed)
	}
	return runPlan(p, rep)
}

// attempt runs a candidate in a fresh process.
func attempt(rep *Replay, timeout time.Duration) *Result {
	b, _ := json.Marshal(rep)
	cmd := exec.Command(selfExe(), "try")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	dir, _ := mkTemp()
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	limit(cmd)
	defer os.RemoveAll(dir)
	if err := cmd.Start(); err != nil {
		return &Result{Class: "error", Viol: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return &Result{Class: "hang", Viol: fmt.Sprintf("no answer within %v: an endless loop", timeout)}
	}
	s := out.String()
	if i := strings.LastIndex(s, "\nRESULT "); i >= 0 {
		r := &Result{}
		if json.Unmarshal([]byte(s[i+8:]), r) == nil {
			return r
		}
	}
	return crashResult(errb.String())
}

func crashResult(stderr string) *Result {
	r := &Result{Class: "crash", Viol: "the process died", Report: tail(stderr, 6000)}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") {
			r.Viol = "the process died: " + l
			break
		}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := attempt(&rep, 120*time.Second)
	if r.Viol == "" {
		fmt.Printf("replay of %s: no violation\n", file)
		return 0
	}
	fmt.Printf("class: %s\nviolation: %s\n%s\n", r.Class, r.Viol, r.Report)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, file)
	return 1
}

func limit(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
}

// check PROP TIER OUTDIR
func check(a []string) int {
	prop, tier, outdir := a[0], a[1], a[2]
	pr := props[prop]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	seedBase := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seedBase = uint64(v)
		}
	}
	fmt.Printf("property %s tier %s VERIF_SEED %d\n", prop, tier, seedBase)
	secs := pr.Quick
	if tier == "thorough" {
		secs = pr.Quick * 18
	}
	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	t0 := time.Now()
	nw := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	work, err := mkTemp()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	start := newRng(seedBase).u() >> 20 << 4
	known := loadKnown(prop)
	agg := &workerOut{Counts: map[string]int64{}}
	hashes := map[uint64]bool{}
	var mu sync.Mutex
	var viols []*Replay
	stop := false
	knownHits := map[string]bool{}
	deadline := t0.Add(time.Duration(secs * float64(time.Second)))
	fresh := scenarios[pr.Scens[0]].Fresh
	var wg sync.WaitGroup
	var harnessErr string
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			next := start + uint64(i)
			for part := 0; ; part++ {
				left := time.Until(deadline).Seconds()
				mu.Lock()
				s := stop
				mu.Unlock()
				if s || left < 0.05 {
					return
				}
				count := 1 << 30
				if rt.RaceBuild {
					count = 4000
				}
				if fresh {
					count = 1
				}
				out := filepath.Join(work, fmt.Sprintf("w%d.%d", i, part))
				w, crash, ran := runWorker(prop, next, uint64(nw), count, left, out)
				next += uint64(ran) * uint64(nw)
				mu.Lock()
				if w != nil {
					agg.Runs += w.Runs
					agg.Steps += w.Steps
					agg.Time += w.Time
					agg.Switch += w.Switch
					agg.Trivial += w.Trivial
					for k, v := range w.Counts {
						agg.Counts[k] += v
					}
					for _, h := range w.Hashes {
						hashes[h] = true
					}
					if len(agg.Visited) == 0 {
						agg.Visited = make([]uint64, len(w.Visited))
					}
					for j := range w.Visited {
						agg.Visited[j] |= w.Visited[j]
					}
					if len(agg.Samples) < 3 {
						agg.Samples = append(agg.Samples, w.Samples...)
					}
				} else {
					agg.Runs += ran
				}
				v := crash
				if w != nil && w.Viol != nil {
					v = w.Viol
				}
				if w == nil && crash == nil {
					harnessErr = "a worker left no result"
					stop = true
				}
				if v != nil {
					if k := matchKnown(known, v); k != "" {
						knownHits[k] = true
					} else {
						viols = append(viols, v)
						stop = true
						os.WriteFile(filepath.Join(work, "stop"), nil, 0o644)
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	explore := time.Since(t0).Seconds()
	rc := 0
	nviol := 0
	if len(viols) > 0 {
		sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Before) < len(viols[j].Before) })
		var rep *Replay
		for _, v := range viols {
			if rep = confirm(v); rep != nil {
				break
			}
		}
		if rep == nil {
			b, _ := json.Marshal(viols[0])
			fmt.Fprintf(os.Stderr, "a violation was seen but does not replay: %s %s\n%.3000s\n", viols[0].Class, viols[0].Violation, b)
			return 3
		}
		if tier != "nomin" {
			minimise(rep, time.Now().Add(25*time.Second))
		}
		nviol = 1
		dir := filepath.Join(outdir, "replays")
		os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, rep.Seed))
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("class: %s\nviolation: %s\n%s\n%s\n", rep.Class, rep.Violation, tail(rep.Report, 5000), rep.Minimised)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		rc = 1
	}
	if rc == 0 && harnessErr != "" {
		fmt.Fprintln(os.Stderr, harnessErr)
		return 2
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[k].What)
	}
	writeEvidence(outdir, prop, tier, int64(seedBase), pr, agg, len(hashes), explore, time.Since(t0).Seconds(), nviol, nw)
	fmt.Printf("%s: %d runs, %d scheduling points, %d switches, %d distinct interleavings in %.1f s; injected: %v\n", prop, agg.Runs, agg.Steps, agg.Switch, len(hashes), explore, agg.Counts)
	return rc
}

// runWorker runs one worker process to its end.
func runWorker(prop string, from, stride uint64, count int, secs float64, out string) (*workerOut, *Replay, int) {
	exe := selfExe()
	if f := os.Getenv("VERIF_FAST"); f != "" && from%stride%3 != 0 {
		exe = f // without the race detector, for more runs
	}
	cmd := exec.Command(exe, "worker", prop, fmt.Sprint(from), fmt.Sprint(stride), fmt.Sprint(count), fmt.Sprint(secs), out)
	var errb limitedBuf
	cmd.Stderr = &errb
	cmd.Dir = filepath.Dir(out)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+out+".race")
	limit(cmd)
	if err := cmd.Start(); err != nil {
		return nil, nil, 0
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	lastSeq, lastT := uint64(0), time.Now()
	cur := func() (uint64, uint64) {
		b, err := os.ReadFile(out + ".cur")
		if err != nil || len(b) < 16 {
			return from, 0
		}
		return binary.LittleEndian.Uint64(b[:8]), binary.LittleEndian.Uint64(b[8:])
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	hang := false
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			_, s := cur()
			if s != lastSeq {
				lastSeq, lastT = s, time.Now()
			} else if time.Since(lastT) > 40*time.Second {
				hang = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	if b, err := os.ReadFile(out); err == nil {
		w := &workerOut{}
		if json.Unmarshal(b, w) == nil && w.Done {
			os.Remove(out)
			os.Remove(out + ".cur")
			return w, nil, w.Runs
		}
	}
	seed, s := cur()
	if s == 0 {
		fmt.Fprintf(os.Stderr, "worker died before its first run:\n%s\n", tail(errb.String(), 3000))
		return nil, nil, 0
	}
	r := crashResult(errb.String())
	if hang {
		r = &Result{Class: "hang", Viol: "no progress for 40 s: an endless loop"}
	}
	rep := &Replay{Property: prop, Violation: r.Viol, Class: r.Class, Seed: seed, Free: true, Report: r.Report}
	for j := uint64(0); j+1 < s; j++ {
		rep.Before = append(rep.Before, from+j*stride)
	}
	return nil, rep, int(s)
}

type limitedBuf struct{ b []byte }

func (l *limitedBuf) Write(p []byte) (int, error) {
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { return string(l.b) }

// confirm reproduces a violation in a fresh process.
func confirm(v *Replay) *Replay {
	to := 60 * time.Second
	scens := props[v.Property].Scens
	if v.Plan == nil {
		v.Plan = genPlan(v.Property, scens[int(v.Seed%uint64(len(scens)))], v.Seed)
	}
	before := v.Before
	try := func(r Replay) *Replay {
		res := attempt(&r, to)
		if res.Viol != "" && res.Class != "error" {
			r.Violation, r.Class, r.Report = res.Viol, res.Class, res.Report
			if !r.Free && res.Sched != nil {
				r.Sched, r.Choices = res.Sched, res.Choices
			}
			return &r
		}
		return nil
	}
	r := *v
	r.Before = nil
	if got := try(r); got != nil {
		return got
	}
	r.Free = true
	if got := try(r); got != nil {
		return got
	}
	// the run needs what earlier runs left behind in the process
	for k := 1; k < len(before); k *= 4 {
		r.Before = before[len(before)-k:]
		if got := try(r); got != nil {
			return got
		}
	}
	if len(before) > 0 {
		r.Before = before
		to = 300 * time.Second
		if got := try(r); got != nil {
			return got
		}
	}
	return nil
}

func writeEvidence(outdir, prop, tier string, seed int64, pr *Prop, w *workerOut, distinct int, explore, wall float64, nviol, nw int) {
	vis := 0
	for _, x := range w.Visited {
		for ; x != 0; x &= x - 1 {
			vis++
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	perHour := 0.0
	if explore > 0 {
		perHour = float64(w.Runs) / explore * 3600
	}
	samples := []any{}
	for _, s := range w.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":         w.Runs,
		"distinct_nontrivial": distinct,
		"rule": "One evaluation is one simulated run: a seed makes a plan (initial catalogues and files, the programs of the simulated clients, fault rates, map order, preemption style) and a schedule; " +
			"a run counts as distinct by the hash of its interleaving (every change of the running task with the program point where it happened, over all stages), and as trivial when it had no task switch beyond its start and injected nothing. " + pr.Rule,
		"samples":                      samples,
		"simulated_steps":              w.Steps,
		"simulated_time":               fmt.Sprintf("%.1f s (a scheduling point takes 1 microsecond, and the clock jumps to the next timer when nothing can run)", float64(w.Time)/1e9),
		"task_switches":                w.Switch,
		"seeds_per_hour":               int64(perHour),
		"injected_and_probes":          w.Counts,
		"switch_points_reached":        vis,
		"switch_points_total":          len(rt.Sites),
		"trivial_runs":                 w.Trivial,
		"workers":                      nw,
		"race_detector":                rt.RaceBuild,
		"scenarios":                    pr.Scens,
		"real_components":              pr.Real,
		"simulated_or_stub_components": pr.Stub,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": pr.Assume, "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(outdir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(outdir, "evidence", prop+".json"), b, 0o644)
}

// Known findings.
type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // a substring of the violation
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(prop string) map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Fixed == "" {
			out[k.Class+"|"+k.Match] = k
		}
	}
	return out
}

func matchKnown(known map[string]knownFinding, v *Replay) string {
	for key, k := range known {
		if k.Class == v.Class && strings.Contains(v.Violation, k.Match) {
			return key
		}
	}
	return ""
}

func selfExe() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}
