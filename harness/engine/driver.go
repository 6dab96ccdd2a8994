package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type task struct {
	Scn    string `json:"scn"`
	Items  []Item `json:"items"`
	MaxDev int    `json:"maxdev"`
	Execs  int    `json:"execs"`
	Ms     int    `json:"ms"`
	Expand bool   `json:"expand"`
}

type reply struct {
	Execs     int            `json:"execs"`
	Redundant int            `json:"red"`
	Trans     int            `json:"trans"`
	MaxDepth  int            `json:"depth"`
	States    []uint64       `json:"states"`
	Obs       []uint64       `json:"obs"`
	Leaves    []uint64       `json:"leaves"`
	Samples   []string       `json:"samples"`
	Counters  map[string]int `json:"ctr"`
	Viol      []Violation    `json:"viol"`
	Left      []Item         `json:"left"`
	Diverged  string         `json:"div"`
	MaxCost   int            `json:"maxcost"`
	Recycle   bool           `json:"recycle"`
}

// Leaked counts executions whose goroutines could not be collected.
var Leaked int

var registry []*Scenario

// Register adds a scenario.
func Register(s *Scenario) { registry = append(registry, s) }

// Find returns a scenario by name.
func Find(name string) *Scenario {
	for _, s := range registry {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// All returns the registered scenarios.
func All() []*Scenario { return registry }

// ---------------------------------------------------------------- worker

// Worker serves tasks on fd 3, replies on fd 4; the prefix being executed is
// kept in a file so that a crash can be attributed.
func Worker() {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	mark := os.NewFile(5, "mark")
	enc := json.NewEncoder(out)
	tier := os.Getenv("VERIF_TIER")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var t task
		if err := json.Unmarshal(line, &t); err != nil {
			panic(err)
		}
		s := Find(t.Scn)
		r := reply{Counters: map[string]int{}}
		if s == nil {
			r.Diverged = "unknown scenario " + t.Scn
			enc.Encode(r)
			continue
		}
		stack := t.Items
		states := map[uint64]bool{}
		obs := map[uint64]bool{}
		leaves := map[uint64]bool{}
		start := time.Now()
		for len(stack) > 0 {
			if r.Execs >= t.Execs || (r.Execs > 0 && time.Since(start) > time.Duration(t.Ms)*time.Millisecond) || len(r.Viol) > 3 || Leaked >= 30 {
				break
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			mk, _ := json.Marshal(it)
			mark.WriteAt(append(mk, '\n'), 0)
			x := RunOne(s, tier, it)
			vs := x.Violations()
			r.Execs++
			if x.redund {
				r.Redundant++
			}
			r.Trans += len(x.points)
			if len(x.points) > r.MaxDepth {
				r.MaxDepth = len(x.points)
			}
			if x.cost > r.MaxCost {
				r.MaxCost = x.cost
			}
			for _, h := range x.states {
				states[h] = true
			}
			for _, h := range x.obs {
				obs[h] = true
			}
			leaves[hash(x.Scenario+fmt.Sprint(x.Choices()))] = true
			if len(r.Samples) < 1 {
				r.Samples = append(r.Samples, fmt.Sprintf("%s %s -> %s", s.Name, strings.Join(trunc(x.Labels(), 14), " "), strings.Join(x.samples, "; ")))
			}
			for k, v := range x.counters {
				r.Counters[k] += v
			}
			if x.diverged != "" {
				r.Diverged = fmt.Sprintf("%s %v", x.diverged, it.Prefix)
				r.Counters["diverged"]++
				continue
			}
			for _, v := range vs {
				v.Prefix = x.Choices()
				v.Labels = x.Labels()
				r.Viol = append(r.Viol, v)
			}
			if t.Expand {
				ex := x.Expand(t.MaxDev)
				// deepest first, so that the stack stays small
				for i := 0; i < len(ex); i++ {
					stack = append(stack, ex[i])
				}
			}
		}
		r.Left = stack
		for h := range states {
			r.States = append(r.States, h)
		}
		for h := range obs {
			r.Obs = append(r.Obs, h)
		}
		for h := range leaves {
			r.Leaves = append(r.Leaves, h)
		}
		if len(r.Leaves) > 5000 {
			r.Leaves = r.Leaves[:5000]
		}
		if Leaked >= 30 {
			r.Recycle = true
		}
		if err := enc.Encode(r); err != nil {
			os.Exit(0)
		}
		if r.Recycle {
			os.Exit(0)
		}
	}
}

func trunc(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), "...")
	}
	return s
}

// ---------------------------------------------------------------- master

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	mark   string
	logf   string
	tailOK bool
}

func startWorker(id int, dir string) (*worker, error) {
	w := &worker{mark: filepath.Join(dir, fmt.Sprintf("mark%d-%d", id, time.Now().UnixNano())), logf: filepath.Join(dir, fmt.Sprintf("log%d-%d", id, time.Now().UnixNano()))}
	inR, inW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	mk, err := os.Create(w.mark)
	if err != nil {
		return nil, err
	}
	lg, err := os.Create(w.logf)
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0")
	wd := filepath.Join(dir, fmt.Sprintf("wd%d", id))
	os.MkdirAll(wd, 0755)
	w.cmd.Dir = wd
	w.cmd.Env = append(os.Environ(), "VERIF_ROLE=worker", "TMPDIR="+wd)
	w.cmd.Stdout = lg
	w.cmd.Stderr = lg
	w.cmd.ExtraFiles = []*os.File{inR, outW, mk}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	inR.Close()
	outW.Close()
	mk.Close()
	lg.Close()
	w.in = inW
	w.out = bufio.NewReaderSize(outR, 1<<20)
	return w, nil
}

func (w *worker) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.in.Close()
}

func (w *worker) tail(n int) string {
	b, _ := os.ReadFile(w.logf)
	s := string(b)
	if i := strings.Index(s, "\npanic: "); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error: "); i >= 0 {
		s = s[i:]
	} else if len(s) > n {
		s = s[len(s)-n:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// HangSeconds is how long (real time) one batch may make no progress before it
// is treated as a hang of the code under test.
const HangSeconds = 90

// IdleSeconds is the same when the process does not use the processor at all.
const IdleSeconds = 12

// do runs a task; a crash or a hang comes back as a violation of the marked
// prefix.
func (w *worker) do(t task) (r reply, dead bool) {
	b, _ := json.Marshal(t)
	b = append(b, '\n')
	type res struct {
		line []byte
		err  error
	}
	if _, err := w.in.Write(b); err != nil {
		w.kill()
		return reply{Left: t.Items}, true
	}
	ch := make(chan res, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	var rs res
	last := ""
	lastChange, lastBusy, lastCPU := time.Now(), time.Now(), ""
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case rs = <-ch:
			if rs.err == nil {
				if err := json.Unmarshal(rs.line, &r); err != nil {
					panic(err)
				}
				if r.Recycle {
					w.kill()
					return r, true
				}
				return r, false
			}
			// crash
			it := w.marked()
			time.Sleep(50 * time.Millisecond)
			w.cmd.Wait()
			msg := w.tail(6000)
			w.in.Close()
			return reply{Execs: 1, Counters: map[string]int{"crashed": 1}, Viol: []Violation{{Scenario: t.Scn, Key: t.Scn + ":crash", Msg: "process crashed: " + msg, Prefix: it.Prefix}}, Left: remove(t.Items, it)}, true
		case <-tick.C:
			b, _ := os.ReadFile(w.mark)
			if string(b) != last {
				last = string(b)
				lastChange = time.Now()
			} else if c := cpu(w.cmd.Process.Pid); c != lastCPU {
				lastCPU, lastBusy = c, time.Now()
			}
			if time.Since(lastChange) > HangSeconds*time.Second || (time.Since(lastChange) > IdleSeconds*time.Second && time.Since(lastBusy) > IdleSeconds*time.Second) {
				it := w.marked()
				w.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				msg := w.tail(20000)
				w.kill()
				return reply{Execs: 1, Counters: map[string]int{"hung": 1}, Viol: []Violation{{Scenario: t.Scn, Key: t.Scn + ":hang", Msg: fmt.Sprintf("no progress for %d s (not waiting on a message or timer): %s", int(time.Since(lastChange).Seconds()), msg), Prefix: it.Prefix}}, Left: remove(t.Items, it)}, true
			}
		}
	}
}

// cpu is the processor time used by one of our workers, in 50 ms steps (an idle
// process still uses a little).
func cpu(pid int) string {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return "?"
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return "?"
	}
	u, _ := strconv.Atoi(f[11])
	v, _ := strconv.Atoi(f[12])
	return fmt.Sprint((u + v) / 5)
}

func (w *worker) marked() Item {
	b, _ := os.ReadFile(w.mark)
	var it Item
	if i := strings.IndexByte(string(b), '\n'); i >= 0 {
		json.Unmarshal(b[:i], &it)
	}
	return it
}

func remove(items []Item, it Item) []Item {
	var out []Item
	for _, i := range items {
		if fmt.Sprint(i.Prefix) != fmt.Sprint(it.Prefix) {
			out = append(out, i)
		}
	}
	return out
}

type scnState struct {
	s         *Scenario
	queue     []Item // sorted by cost lazily
	inflight  int
	execs     int
	redundant int
	trans     int
	depth     int
	states    map[uint64]bool
	obs       map[uint64]bool
	leaves    map[uint64]bool
	samples   []string
	counters  map[string]int
	diverged  string
	capped    bool
	maxcost   int
	maxdev    int
	wall      time.Duration
}

// Known is one "known:" line of the known-findings file:
//
//	known: property=C13 key=<key of the violation> <what fails>
//	fixed: property=C05 <commit> <what failed>      (suppresses nothing)
type Known struct{ Property, Key, What string }

func readKnown(path string) (r []Known) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		r = append(r, Known{f[1][len("property="):], f[2][len("key="):], strings.Join(f[3:], " ")})
	}
	return r
}

// Config of a run.
type Config struct {
	Prop      string
	Tier      string
	Seed      int
	Deadline  time.Duration
	VerifDir  string
	Level     string
	Rule      string
	Assume    []string
	Workers   int
	Extra     map[string]interface{}
	ExtraViol []Violation
}

// Master explores all scenarios of the property and writes the evidence file.
// It returns the exit status.
func Master(cfg Config) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+cfg.Prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	var known []Known
	known = readKnown(filepath.Join(cfg.VerifDir, "known_findings.txt"))
	isKnown := func(v Violation) *Known {
		for i := range known {
			k := &known[i]
			if k.Property == cfg.Prop && k.Key == v.Key {
				return k
			}
		}
		return nil
	}
	knownSeen := map[string]int{}

	var scns []*scnState
	only := os.Getenv("VERIF_SCN")
	for _, s := range registry {
		if s.Prop != cfg.Prop || (s.ThoroOnly && cfg.Tier != "thorough") || s.RaceOnly {
			continue
		}
		if only != "" && !strings.Contains(s.Name, only) {
			continue
		}
		md := s.MaxDev
		if cfg.Tier == "thorough" && s.MaxDevT > 0 {
			md = s.MaxDevT
		}
		scns = append(scns, &scnState{s: s, queue: []Item{{}}, states: map[uint64]bool{}, obs: map[uint64]bool{}, leaves: map[uint64]bool{}, counters: map[string]int{}, maxdev: md})
	}
	if len(scns) == 0 {
		fmt.Println("no scenario for", cfg.Prop)
		return 2
	}
	nw := cfg.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stop := false
	timedOut := false
	var viols []Violation
	rr := 0
	deadline := start.Add(cfg.Deadline)
	pickTask := func() (*scnState, task, bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if stop {
				return nil, task{}, false
			}
			if time.Now().After(deadline) {
				for _, ss := range scns {
					if len(ss.queue) > 0 {
						timedOut = true
					}
				}
				stop = true
				cond.Broadcast()
				return nil, task{}, false
			}
			busy := false
			for k := 0; k < len(scns); k++ {
				ss := scns[(rr+k)%len(scns)]
				if ss.inflight > 0 {
					busy = true
				}
				limit := ss.s.MaxExecs
				if cfg.Tier == "thorough" {
					limit = ss.s.MaxExecsT
				}
				if limit > 0 && ss.execs >= limit && len(ss.queue) > 0 {
					ss.capped = true
					ss.queue = nil
				}
				if len(ss.queue) == 0 {
					continue
				}
				rr = (rr + k + 1) % len(scns)
				// lowest deviation cost first
				sort.SliceStable(ss.queue, func(i, j int) bool { return ss.queue[i].Cost < ss.queue[j].Cost })
				n := len(ss.queue)/(2*nw) + 1
				if n > 400 {
					n = 400
				}
				items := append([]Item{}, ss.queue[:n]...)
				ss.queue = append([]Item{}, ss.queue[n:]...)
				ss.inflight++
				ms := 400
				if ss.execs < 200 {
					ms = 60
				}
				return ss, task{Scn: ss.s.Name, Items: items, MaxDev: ss.maxdev, Execs: 20000, Ms: ms, Expand: true}, true
			}
			if !busy {
				stop = true
				cond.Broadcast()
				return nil, task{}, false
			}
			cond.Wait()
		}
	}
	var unrepro []string
	var wg sync.WaitGroup
	fatal := ""
	confirm := func(wp **worker, id int, v *Violation) bool {
		// replay the same choices; a violation that never comes back is not reported
		for i := 0; i < 5; i++ {
			if *wp == nil {
				nwk, err := startWorker(id, dir)
				if err != nil {
					return true
				}
				*wp = nwk
			}
			r, dead := (*wp).do(task{Scn: v.Scenario, Items: []Item{{Prefix: v.Prefix}}, Execs: 1, Ms: 1000})
			if dead {
				*wp = nil
			}
			if len(r.Viol) > 0 {
				for _, rv := range r.Viol {
					if isKnown(rv) == nil {
						return true
					}
				}
			}
		}
		return false
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for {
				ss, t, ok := pickTask()
				if !ok {
					return
				}
				if w == nil {
					var err error
					w, err = startWorker(id, dir)
					if err != nil {
						mu.Lock()
						fatal = err.Error()
						stop = true
						cond.Broadcast()
						mu.Unlock()
						return
					}
				}
				t0 := time.Now()
				r, dead := w.do(t)
				if dead {
					w = nil
				}
				var newV []Violation
				for _, v := range r.Viol {
					if k := isKnown(v); k != nil {
						mu.Lock()
						knownSeen[k.Key]++
						mu.Unlock()
						continue
					}
					newV = append(newV, v)
				}
				// confirm at most one
				var confirmed []Violation
				for _, v := range newV {
					v := v
					if confirm(&w, id, &v) {
						confirmed = append(confirmed, v)
						break
					}
					mu.Lock()
					unrepro = append(unrepro, fmt.Sprintf("%s %v: %.300s", v.Scenario, v.Prefix, v.Msg))
					mu.Unlock()
				}
				mu.Lock()
				ss.inflight--
				ss.wall += time.Since(t0)
				ss.execs += r.Execs
				ss.redundant += r.Redundant
				ss.trans += r.Trans
				if r.MaxDepth > ss.depth {
					ss.depth = r.MaxDepth
				}
				if r.MaxCost > ss.maxcost {
					ss.maxcost = r.MaxCost
				}
				for _, h := range r.States {
					ss.states[h] = true
				}
				for _, h := range r.Obs {
					ss.obs[h] = true
				}
				for _, h := range r.Leaves {
					ss.leaves[h] = true
				}
				for k, v := range r.Counters {
					ss.counters[k] += v
				}
				if len(ss.samples) < 3 {
					ss.samples = append(ss.samples, r.Samples...)
				}
				if r.Diverged != "" {
					ss.diverged = r.Diverged
				}
				if len(confirmed) > 0 {
					viols = append(viols, confirmed...)
					stop = true
				}
				ss.queue = append(ss.queue, r.Left...)
				cond.Broadcast()
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	if fatal != "" {
		fmt.Println("harness error:", fatal)
		return 2
	}
	for _, v := range cfg.ExtraViol {
		if k := isKnown(v); k != nil {
			knownSeen[k.Key]++
			continue
		}
		viols = append(viols, v)
	}

	// evidence
	execs, trans, states, obs, leaves, depth := 0, 0, 0, 0, 0, 0
	var samples []string
	perScn := map[string]interface{}{}
	exhaustive := !timedOut && len(viols) == 0
	for _, ss := range scns {
		execs += ss.execs
		trans += ss.trans
		states += len(ss.states)
		obs += len(ss.obs)
		leaves += len(ss.leaves)
		if ss.depth > depth {
			depth = ss.depth
		}
		if len(ss.samples) > 0 {
			samples = append(samples, ss.samples[0])
		}
		if ss.capped || ss.diverged != "" || len(ss.queue) > 0 {
			exhaustive = false
		}
		minLeft := -1
		for _, it := range ss.queue {
			if minLeft < 0 || it.Cost < minLeft {
				minLeft = it.Cost
			}
		}
		m := map[string]interface{}{"executions": ss.execs, "redundant_pruned": ss.redundant, "choices": ss.trans, "max_depth": ss.depth, "distinct_outcomes": len(ss.obs), "distinct_states": len(ss.states), "complete": len(ss.queue) == 0 && !ss.capped, "worker_s": float64(int(ss.wall.Seconds()*10)) / 10}
		if ss.maxdev > 0 {
			m["deviation_bound"] = ss.maxdev
			m["deviations_reached"] = ss.maxcost
		}
		if minLeft >= 0 {
			m["unexplored_from_deviation"] = minLeft
		}
		if len(ss.counters) > 0 {
			m["counters"] = ss.counters
		}
		if ss.diverged != "" {
			m["replay_divergence"] = ss.diverged
		}
		perScn[ss.s.Name] = m
	}
	cov := map[string]interface{}{
		"rule": cfg.Rule, "samples": samples, "exhaustive": exhaustive,
		"scenarios": perScn, "max_depth": depth,
		"known_findings_seen": knownSeen,
	}
	nStates := states
	if cfg.Level == "model_checking" {
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = execs
		if states > 0 {
			cov["states"] = states
			cov["distinct_outcomes"] = obs
		} else {
			cov["states"] = obs
			nStates = obs
			cov["states_are"] = "distinct observed outcomes (input enumeration, one terminal state per execution)"
		}
	} else {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = leaves
		cov["choices"] = trans
		cov["distinct_outcomes"] = obs
	}
	if len(unrepro) > 0 {
		cov["unreproduced"] = unrepro
	}
	for k, v := range cfg.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{"property": cfg.Prop, "tier": cfg.Tier, "seed": cfg.Seed, "level": cfg.Level, "coverage": cov, "assumptions": cfg.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols)}
	if cfg.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(cfg.VerifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(cfg.VerifDir, "evidence", cfg.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	names := []string{}
	for n := range perScn {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		j, _ := json.Marshal(perScn[n])
		fmt.Printf("  %-28s %s\n", n, j)
	}
	fmt.Printf("%s %s: executions=%d choices=%d states=%v outcomes=%d exhaustive=%v wall=%.1fs\n", cfg.Prop, cfg.Tier, execs, trans, nStates, obs, exhaustive, time.Since(start).Seconds())
	for _, u := range unrepro {
		fmt.Println("unreproduced (not counted):", u)
	}
	for k := range knownSeen {
		for _, kn := range known {
			if kn.Key == k && kn.Property == cfg.Prop {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Prop, kn.What)
			}
		}
	}
	if len(viols) == 0 {
		return 0
	}
	for i, v := range viols {
		rp := filepath.Join(cfg.VerifDir, "replays", fmt.Sprintf("%s-%d.json", cfg.Prop, i))
		os.MkdirAll(filepath.Dir(rp), 0755)
		doc := map[string]interface{}{"property": cfg.Prop, "tier": cfg.Tier, "scenario": v.Scenario, "key": v.Key, "choices": v.Prefix, "labels": v.Labels, "message": v.Msg, "replay": fmt.Sprintf("cd /verif && ./run.sh %s %s replay %s", cfg.Prop, cfg.Tier, rp)}
		jb, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(rp, append(jb, '\n'), 0644)
		fmt.Printf("scenario %s key %s choices %v\n%s\n%s\n", v.Scenario, v.Key, v.Prefix, strings.Join(trunc(v.Labels, 60), " "), v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, rp)
	}
	return 1
}

// Replay re-executes one recorded violation without exploring.
func Replay(path, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d struct {
		Scenario string
		Choices  []int
		Property string
		Tier     string
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	s := Find(d.Scenario)
	if s == nil {
		fmt.Println("unknown scenario", d.Scenario)
		return 2
	}
	x := RunOne(s, d.Tier, Item{Prefix: d.Choices})
	fmt.Println(strings.Join(x.Labels(), "\n"))
	for _, v := range x.Violations() {
		fmt.Printf("%s: %s\n", v.Key, v.Msg)
	}
	if len(x.viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, path)
		return 1
	}
	return 0
}
