package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	rt "github.com/leonelquinteros/gotext/vsimrt"
	vsync "github.com/leonelquinteros/gotext/vsimrt/vsync"
)

// Op is one call a simulated client makes.
type Op struct {
	K string   `json:"k"`           // kind
	O int      `json:"o,omitempty"` // object
	A []string `json:"a,omitempty"` // string arguments
	N int      `json:"n,omitempty"` // numeric argument
	D bool     `json:"d,omitempty"` // through GetDomain() / a variant of the call
	V bool     `json:"v,omitempty"` // with formatting arguments
	J int      `json:"j,omitempty"` // document index
	Z int      `json:"z,omitempty"` // what the formatting argument calls itself
}

func (o Op) String() string {
	s := o.K
	if o.O != 0 {
		s += fmt.Sprintf("#%d", o.O)
	}
	s += "("
	for i, a := range o.A {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%q", a)
	}
	if o.Z != 0 {
		s += fmt.Sprintf(";z=%d", o.Z)
	}
	return s + fmt.Sprintf(";n=%d,j=%d,d=%v,v=%v)", o.N, o.J, o.D, o.V)
}

// Ent is one message of a generated catalogue.
type Ent struct {
	Ctx  string   `json:"c,omitempty"`
	ID   string   `json:"i"`
	PID  string   `json:"p,omitempty"`
	Trs  []string `json:"t"`
	Refs []string `json:"r,omitempty"`
}

// Doc is one generated catalogue document.
type Doc struct {
	Kind  string      `json:"k"`           // po, mo, mobe, gob
	Rule  int         `json:"r"`           // index into rules, -1: no Plural-Forms header
	Lang  string      `json:"l,omitempty"` // Language header
	Ents  []Ent       `json:"e"`
	Cut   int         `json:"cut,omitempty"`   // >0: keep only this many bytes
	Raw   []byte      `json:"raw,omitempty"`   // verbatim bytes instead
	Noise int         `json:"noise,omitempty"` // comments and obsolete entries
	Head  []string    `json:"head,omitempty"`  // comments above the first entry instead of the usual one
	CRLF  bool        `json:"crlf,omitempty"`
	Hdr   [][2]string `json:"hdr,omitempty"`  // further headers
	Wrap  int         `json:"w,omitempty"`    // PO: split strings in lines of this many words
	Feat  int         `json:"feat,omitempty"` // features of the layout (format.go)
	Mass  int         `json:"mass,omitempty"` // this many further messages (mass.go)
	MTag  string      `json:"mtag,omitempty"`
	LSeed uint64      `json:"lseed,omitempty"`
}

// FileSpec is one file of the simulated disk.
type FileSpec struct {
	Path string `json:"p"`
	Doc  int    `json:"d"`
}

// Plan is everything a run does, apart from the choices of the scheduler and
// of the fault injector.
type Plan struct {
	Prop    string         `json:"prop"`
	Scen    string         `json:"scen"`
	Seed    uint64         `json:"seed"`
	MapSeed uint64         `json:"mapseed"`
	Mean    int            `json:"mean"`
	Sync    int            `json:"sync,omitempty"`
	PCT     int            `json:"pct,omitempty"`
	Span    int            `json:"span,omitempty"`
	Faults  rt.Faults      `json:"faults"`
	P       map[string]int `json:"params,omitempty"`
	Docs    []Doc          `json:"docs,omitempty"`
	Files   []FileSpec     `json:"files,omitempty"`
	Init    []Op           `json:"init,omitempty"`
	Tasks   [][]Op         `json:"tasks,omitempty"`
	Post    []Op           `json:"post,omitempty"`
	Dmg     []Dmg          `json:"damage,omitempty"`
	Strs    []string       `json:"strings,omitempty"`
}

// Dmg is one damage done to stored bytes.
type Dmg struct {
	K  string `json:"k"` // cut, flip, byte, zero, stale, swap, u32
	At int    `json:"at"`
	N  int    `json:"n,omitempty"`
	V  uint32 `json:"v,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Replay is what a violation is reported with.
type Replay struct {
	Property  string       `json:"property"`
	Violation string       `json:"violation"`
	Class     string       `json:"class"`
	Seed      uint64       `json:"seed"`
	Plan      *Plan        `json:"plan"`
	Sched     [][][2]int32 `json:"schedule"`         // per stage: task, budget
	Choices   [][]int32    `json:"faults"`           // per stage
	Free      bool         `json:"free,omitempty"`   // decisions drawn from the seed, not replayed
	Before    []uint64     `json:"before,omitempty"` // seeds run first in the same process
	Report    string       `json:"report,omitempty"` // history, race report or stack
	Minimised string       `json:"minimised,omitempty"`
}

// Result of one run.
type Result struct {
	Viol    string
	Class   string
	Report  string
	Steps   int
	Time    int64 // simulated nanoseconds
	Switch  int
	Hash    uint64
	Counts  map[string]int64
	Sched   [][][2]int32
	Choices [][]int32
	Visited []uint64
}

func (r *Result) fail(class, f string, a ...any) {
	if r.Viol == "" {
		r.Class = class
		r.Viol = strings.Map(func(c rune) rune {
			if c < ' ' && c != '\n' && c != '\t' {
				return 0x2400 + c // readable
			}
			return c
		}, fmt.Sprintf(f, a...))
		if n := len(r.Viol); n > 20000 {
			r.Viol = r.Viol[:12000] + fmt.Sprintf(" ... (%d bytes) ... ", n-16000) + r.Viol[n-4000:]
		}
	}
}

// Scenario generates and executes plans.
type Scenario struct {
	Name  string
	Fresh bool // one run per process
	Gen   func(g *Rng, p *Plan)
	Run   func(e *Env)
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Rng is the generator of plans.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed*0xA0761D6478BD642F + 0x5851F42D4C957F2D} }
func (g *Rng) u() uint64 {
	g.s += 0x9E3779B97F4A7C15
	z := g.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (g *Rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(g.u() % uint64(k))
}
func (g *Rng) rng(a, b int) int      { return a + g.n(b-a+1) }
func (g *Rng) p(pct int) bool        { return g.n(100) < pct }
func (g *Rng) s1(a ...string) string { return a[g.n(len(a))] }

// weighted picks a key of "k:w k:w ...".
func (g *Rng) weighted(spec string) string {
	total := 0
	type kw struct {
		k string
		w int
	}
	var l []kw
	for _, f := range strings.Fields(spec) {
		k, ws, _ := strings.Cut(f, ":")
		w := 1
		fmt.Sscan(ws, &w)
		total += w
		l = append(l, kw{k, w})
	}
	x := g.n(total)
	for _, e := range l {
		if x < e.w {
			return e.k
		}
		x -= e.w
	}
	return l[0].k
}

// Env is one run.
type Env struct {
	P     *Plan
	cfg   rt.Config
	R     *Result
	sim   *rt.Sim
	multi bool
	stage int
	rep   *Replay
	log   []string
	ops   int
	waits func(Op) bool // calls that may wait for a disk that hangs
	sub   []*Rec        // calls that the arguments of other calls made

	clientsEnded bool // at a deadlock: only goroutines of the code under test are left
}

// Rec is one recorded call.
type Rec struct {
	Task, Idx int
	Num       int
	Faults    int
	Op        Op
	Inv, Ret  int64
	Res       string
	Panic     string
	Snap      *snapshot
}

func (r *Rec) String() string {
	return fmt.Sprintf("[%d..%d] task %d: %s -> %s%s", r.Inv, r.Ret, r.Task, r.Op, r.Res, r.Panic)
}

// guard runs f; a panic of the code under test is returned.
func guard(f func()) (pan string, stack string) {
	defer func() {
		if x := recover(); x != nil {
			if rt.IsAbort(x) {
				panic(x)
			}
			pan = fmt.Sprint(x)
			stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// stageRun runs one set of tasks under the scheduler and merges its statistics.
// Several stages of a run share one stream of decisions.
func (e *Env) stageRun(names []string, fns []func()) bool {
	cfg := e.cfg
	cfg.Seed = e.P.Seed*31 + uint64(e.stage)
	if len(fns) == 1 && !e.multi {
		// only the goroutines of the code under test interleave
		cfg.PCT = 0
		if cfg.MeanBudget == 0 && cfg.SyncP == 0 {
			cfg.MeanBudget = 12
		}
	}
	if e.rep != nil {
		cfg.Replay = true
		if e.stage < len(e.rep.Sched) {
			for _, d := range e.rep.Sched[e.stage] {
				cfg.Sched = append(cfg.Sched, rt.Decision{Task: d[0], Budget: d[1]})
			}
		}
		if e.stage < len(e.rep.Choices) {
			cfg.Choices = e.rep.Choices[e.stage]
		}
	}
	e.stage++
	s := rt.New(cfg)
	e.sim = s
	for i, f := range fns {
		s.Spawn(names[i], f)
	}
	s.Run()
	r := e.R
	d, c := s.Trace()
	dd := make([][2]int32, len(d))
	for i, x := range d {
		dd[i] = [2]int32{x.Task, x.Budget}
	}
	r.Sched = append(r.Sched, dd)
	r.Choices = append(r.Choices, c)
	r.Steps += s.Steps
	r.Switch += s.Switches
	r.Hash = r.Hash*1099511628211 ^ s.Hash
	for k, v := range s.Counts() {
		r.Counts[k] += v
	}
	if r.Visited == nil {
		r.Visited = s.Visited
	} else {
		for i := range s.Visited {
			r.Visited[i] |= s.Visited[i]
		}
	}
	for _, t := range s.Tasks() {
		if t.Panic != nil {
			if rt.IsAbort(t.Panic) {
				continue
			}
			r.fail("panic", "panic in %s: %v", t.Name, t.Panic)
			r.Report += t.Stack
		}
	}
	if s.Stuck {
		r.fail("stuck", "no progress after %d scheduling points: %s", s.Steps, s.Describe())
	}
	if s.Deadlock {
		e.clientsEnded = s.Ended(len(fns))
		r.fail("deadlock", "deadlock or leaked goroutine: %s", s.Describe())
	}
	return r.Viol == ""
}

// seq runs f as a single simulated task (for sequential phases that need the
// simulated goroutines, disk or locks).
func (e *Env) seq(name string, f func()) bool {
	return e.stageRun([]string{name}, []func(){f})
}

// runPlan executes a plan. rep == nil: decisions from the seed.
func runPlan(p *Plan, rep *Replay) *Result {
	sc := scenarios[p.Scen]
	if sc == nil {
		panic("unknown scenario " + p.Scen)
	}
	r := &Result{Counts: map[string]int64{}}
	p, mass := p.expand()
	lines, size := 0, 0
	for _, s := range p.Strs {
		size += len(s)
	}
	for _, l := range append([][]Op{p.Init, p.Post}, p.Tasks...) {
		for _, op := range l {
			for _, s := range op.A {
				size += len(s)
			}
		}
	}
	for i := range p.Docs {
		for _, t := range p.Docs[i].Ents {
			for _, s := range append([]string{t.Ctx, t.ID, t.PID}, t.Trs...) {
				lines += strings.Count(s, "\n")
				size += len(s)
			}
		}
	}
	e := &Env{P: p, R: r}
	e.cfg = rt.Config{Seed: p.Seed, MeanBudget: p.Mean, SyncP: p.Sync, PCT: p.PCT, PCTSpan: p.Span, MaxSteps: 3000000 + 30000*mass + 2000*lines + 1000*size}
	if rep != nil && !rep.Free {
		e.rep = rep
	}
	setVocabulary(p)
	rt.SetMapSeed(p.MapSeed)
	rt.SetClock(p.Seed)
	rt.TheDisk = rt.NewDisk()
	rt.TheDisk.Stamps = p.Seed
	rt.Cwd = ""
	vsync.DropPools()
	rt.ResetPackages()
	races := rt.RaceErrors()
	pan, stack := guard(func() { sc.Run(e) })
	if pan != "" {
		r.fail("panic", "panic: %s", pan)
		r.Report += stack
	}
	r.Time = int64(rt.Elapsed())
	if n := rt.RaceErrors() - races; n > 0 {
		r.Viol = ""
		r.fail("race", "%d data race(s) reported by the race detector", n)
		r.Report = raceReport()
	}
	if r.Viol != "" && len(e.log) > 0 {
		r.Report += strings.Join(e.log, "\n")
	}
	return r
}

func genPlan(prop, scen string, seed uint64) *Plan {
	g := newRng(seed ^ hashStr(scen))
	p := &Plan{Prop: prop, Scen: scen, Seed: seed, MapSeed: g.u(), P: map[string]int{}}
	switch g.n(10) {
	case 0:
		p.PCT, p.Span = g.rng(1, 4), 1<<uint(g.rng(6, 12))
	case 1, 2:
		p.Mean = g.rng(1, 3)
	case 3, 4:
		p.Mean = g.rng(3, 12)
	case 5, 6:
		p.Mean = g.rng(10, 60)
	case 7:
		p.Mean, p.Sync = g.rng(30, 1000), g.rng(2, 6)
	default:
		p.Sync = g.rng(2, 6)
	}
	p.P["names"] = g.weightedInt("0:12 1:2 2:2 3:1 4:1 5:1 6:1 7:1")
	p.P["domnames"] = g.weightedInt("0:12 1:1 2:1 3:1 4:1 5:1 6:1")
	setVocabulary(p)
	scenarios[scen].Gen(g, p)
	genMass(p)
	return p
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
