package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/sim"
)

const buildDir = ".build"

// KnownFinding is an entry of known-findings.json.
type KnownFinding struct {
	Status   string `json:"status"` // open, fixed
	Property string `json:"property"`
	ID       string `json:"id,omitempty"` // open: names the probe which shows it
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Input    string `json:"input,omitempty"`
}

func self() string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return exe
}

func spawn(args ...string) (string, error) {
	cmd := exec.Command(self(), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
	if sim.RaceEnabled {
		dir, err := os.MkdirTemp("", "verif-race")
		if err == nil {
			defer os.RemoveAll(dir)
			cmd.Env = append(cmd.Env, raceEnv(dir)...)
		}
	}
	var sb strings.Builder
	cmd.Stderr = &sb
	cmd.Stdout = os.Stderr
	err := cmd.Run()
	s := sb.String()
	if len(s) > 20000 {
		s = s[:10000] + "\n...\n" + s[len(s)-10000:]
	}
	return s, err
}

// Alone says whether a plan is violated in a process of its own; it is run
// with a few schedules.
func Alone(p Plan, vary int) (bool, error) {
	dir, err := os.MkdirTemp("", "verif-alone")
	if err != nil {
		return false, err
	}
	defer os.RemoveAll(dir)
	buf, err := json.Marshal(p)
	if err != nil {
		return false, err
	}
	in, out := filepath.Join(dir, "plan"), filepath.Join(dir, "out")
	if err := os.WriteFile(in, buf, 0o644); err != nil {
		return false, err
	}
	if _, err := spawn("run", in, strconv.Itoa(vary), "", out); err != nil {
		return true, nil // it crashed
	}
	res, err := os.ReadFile(out)
	if err != nil {
		return false, err
	}
	var f Found
	if err := json.Unmarshal(res, &f); err != nil {
		return false, err
	}
	return f.Viol != nil, nil
}

func spawnWorker(dir string, n int, a WorkerArgs) (*Summary, string, error) {
	a.Out = filepath.Join(dir, fmt.Sprintf("out%d.json", n))
	a.Status = filepath.Join(dir, fmt.Sprintf("status%d", n))
	buf, _ := json.Marshal(a)
	stderr, err := spawn("worker", string(buf))
	if err != nil {
		return nil, stderr, err
	}
	out, err := os.ReadFile(a.Out)
	if err != nil {
		return nil, stderr, err
	}
	var sum Summary
	if err := json.Unmarshal(out, &sum); err != nil {
		return nil, stderr, err
	}
	return &sum, stderr, nil
}

// crash decides whether a worker ended because the program under test did
// something that ends a process (stack overflow, concurrent map writes, ...).
func crash(stderr string) bool {
	return strings.Contains(stderr, "fatal error:") && !strings.Contains(stderr, "out of memory") &&
		!strings.Contains(stderr, "cannot allocate memory")
}

// noHistory: a violation which ended its process has no history to compare.
func noHistory(class string) bool {
	return class == "crash" || class == "hang"
}

// hung: nothing moved for so long that the watchdog ended the process.
func hung(stderr string) bool {
	return strings.Contains(stderr, "watchdog: no progress")
}

// ended names what ended a process, and says so.
func ended(stderr string) *Violation {
	if crash(stderr) {
		return &Violation{"crash", "the process crashed: " + head(stderr, 40)}
	}
	if hung(stderr) {
		return &Violation{"hang", "the program under test does not come back: " + head(stderr, 40)}
	}
	return nil
}

func verifSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func envInt(name string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return n
	}
	return def
}

func CheckMain(id string) int {
	ck := Checks[id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property: %s\n", id)
		return 3
	}
	seed := verifSeed()
	tr := tier()
	fmt.Printf("property=%s seed=%d tier=%s\n", id, seed, tr)
	start := time.Now()
	count := ck.Quick
	limit := 100.0
	if tr == "thorough" {
		count = ck.Thorough
		if count == 0 {
			count = ck.Quick * 60
		}
		limit = 1500
	}
	count = envInt("VERIF_RUNS", count)
	limit = float64(envInt("VERIF_LIMIT", int64(limit)))

	if err := os.MkdirAll(buildDir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	dir, err := os.MkdirTemp(buildDir, "run-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)

	known(ck)

	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	sums := make([]*Summary, nw)
	errs := make([]error, nw)
	stderrs := make([]string, nw)
	var wg sync.WaitGroup
	for n := 0; n < nw; n++ {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			sums[n], stderrs[n], errs[n] = spawnWorker(dir, n, WorkerArgs{ID: id, Base: seed,
				Big: tr == "thorough", Start: int64(n), Stride: int64(nw),
				Count: (count + int64(nw) - 1 - int64(n)) / int64(nw), Limit: limit})
		}(n)
	}
	wg.Wait()

	var first, hang *Found
	for n := 0; n < nw; n++ {
		if errs[n] != nil {
			idx := int64(-1)
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status%d", n))); err == nil && len(b) == 8 {
				idx = int64(binary.LittleEndian.Uint64(b)) - 1
			}
			if v := ended(stderrs[n]); idx >= 0 && v != nil {
				p := MakePlan(ck, seed, idx, tr == "thorough")
				buf, _ := json.Marshal(p)
				f := &Found{Plan: buf, Index: idx, Start: int64(n), Stride: int64(nw), Viol: v}
				if v.Class == "hang" {
					if hang == nil || f.Index < hang.Index {
						hang = f
					}
				} else if first == nil || f.Index < first.Index {
					first = f
				}
				continue
			}
			fmt.Fprintf(os.Stderr, "check %s: worker %d (run %d): %v\n%s\n", id, n, idx, errs[n], stderrs[n])
			return 3
		}
		if f := sums[n].Found; f != nil && (first == nil || f.Index < first.Index) {
			first = f
		}
	}
	if first == nil {
		first = hang
	}
	if first != nil {
		return report(ck, dir, first, seed, tr, start, sums)
	}

	same, diff := determinism(ck, dir, seed, tr == "thorough", sums)
	evidence(ck, seed, tr, sums, time.Since(start).Seconds(), 0, same, diff)
	var total int64
	for _, s := range sums {
		total += s.Runs
	}
	fmt.Printf("property=%s held on %d simulated runs (%.1fs)\n", id, total, time.Since(start).Seconds())
	return 0
}

func head(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func known(ck *Check) {
	buf, err := os.ReadFile("known-findings.json")
	if err != nil {
		return
	}
	var kfs []KnownFinding
	if err := json.Unmarshal(buf, &kfs); err != nil {
		fmt.Fprintf(os.Stderr, "known-findings.json: %s\n", err)
		os.Exit(3)
	}
	for _, kf := range kfs {
		if kf.Status != "open" || kf.Property != ck.ID {
			continue
		}
		probe := ck.Findings[kf.ID]
		if probe == nil {
			fmt.Fprintf(os.Stderr, "known-findings.json: no probe %s of %s\n", kf.ID, ck.ID)
			os.Exit(3)
		}
		if shows, detail := safe(probe); shows {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", ck.ID, kf.What, detail)
		}
	}
}

func safe(probe func() (bool, string)) (shows bool, detail string) {
	defer func() {
		if r := recover(); r != nil {
			shows, detail = false, ""
		}
	}()
	return probe()
}

// determinism runs some of the seeds again, in another order and in other
// processes, and compares the hashes of everything that happened.
func determinism(ck *Check, dir string, seed uint64, big bool, sums []*Summary) (int, int) {
	nw := len(sums)
	type ent struct {
		idx  int64
		hash uint64
	}
	var all []ent
	for n, s := range sums {
		for i, h := range s.Hashes {
			all = append(all, ent{int64(n) + int64(i)*int64(nw), h})
		}
	}
	r := sim.NewRand(seed)
	for i := len(all) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	const procs = 3
	got := make([]*Summary, procs)
	var wg sync.WaitGroup
	for n := 0; n < procs; n++ {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			a := WorkerArgs{ID: ck.ID, Base: seed, Big: big, Only: []int64{}}
			for i := n; i < len(all); i += procs {
				a.Only = append(a.Only, all[i].idx)
			}
			got[n], _, _ = spawnWorker(dir, 100+n, a)
		}(n)
	}
	wg.Wait()
	same, diff := 0, 0
	var which []int64
	for n := 0; n < procs; n++ {
		for k, i := 0, n; i < len(all); k, i = k+1, i+procs {
			if got[n] != nil && k < len(got[n].Hashes) && got[n].Hashes[k] == all[i].hash {
				same++
			} else {
				diff++
				which = append(which, all[i].idx)
			}
		}
	}
	if diff > 0 {
		fmt.Fprintf(os.Stderr, "check %s: warning: %d of %d runs were different when repeated: %v\n", ck.ID, diff, same+diff, which)
	}
	return same, diff
}

func evidence(ck *Check, seed uint64, tr string, sums []*Summary, wall float64, viols int, same, diff int) {
	stats := map[string]int64{}
	nontriv := map[uint64]bool{}
	inter := map[uint64]bool{}
	var runs, preempts, blocks int64
	var steps uint64
	var samples []any
	timedOut := false
	for _, s := range sums {
		if s == nil {
			continue
		}
		runs += s.Runs
		steps += s.Steps
		preempts += s.Preempts
		blocks += s.Blocks
		for k, v := range s.Stats {
			addStat(stats, k, v)
		}
		for _, h := range s.Nontriv {
			nontriv[h] = true
		}
		for _, h := range s.Inter {
			inter[h] = true
		}
		for _, sm := range s.Samples {
			if len(samples) < 3 {
				samples = append(samples, sm)
			}
		}
		timedOut = timedOut || s.TimedOut
	}
	if samples == nil {
		samples = []any{}
	}
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range stats {
		if strings.HasPrefix(k, "fault ") {
			faults[k[6:]] = v
		} else {
			probes[k] = v
		}
	}
	cov := map[string]any{
		"evaluations":              runs,
		"distinct_nontrivial":      len(nontriv),
		"rule":                     ck.Rule,
		"samples":                  samples,
		"runs_per_hour":            int64(float64(runs) / wall * 3600),
		"seeds_per_hour":           int64(float64(runs) / wall * 3600),
		"simulated_steps":          steps,
		"simulated_time":           "maho reads no clock: simulated time is counted in steps (statements executed under the scheduler)",
		"preemptions":              preempts,
		"blocked_waits":            blocks,
		"distinct_interleavings":   len(inter),
		"interleaving_measure":     "hash of every (step, task) hand-over of a run",
		"faults_injected":          faults,
		"probes":                   probes,
		"real_components":          ck.Real,
		"stub_components":          ck.Stub,
		"determinism_runs_checked": same + diff,
		"determinism_mismatches":   diff,
		"stopped_by_time_limit":    timedOut,
	}
	ev := map[string]any{
		"property":    ck.ID,
		"tier":        tr,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{"the sampled schedules and faults are evidence, not proof", "statements of uninstrumented packages (the Go standard library, google/btree) execute atomically"}, ck.Assume...),
		"wall_s":      wall,
		"violations":  viols,
	}
	buf, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll("evidence", 0o755)
	if err := os.WriteFile(filepath.Join("evidence", ck.ID+".json"), append(buf, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Replay file: a plan and what happened when it was executed; or, if the
// violation needs the runs before it in the same process, those runs.
type Replay struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"verif_seed"`
	Tier      string          `json:"tier"`
	Violation *Violation      `json:"violation"`
	Hash      uint64          `json:"hash"`
	Minimised bool            `json:"minimised"`
	Plan      json.RawMessage `json:"plan"`
	Trace     []string        `json:"trace,omitempty"`
	Runs      *WorkerArgs     `json:"runs,omitempty"`
	Note      string          `json:"note,omitempty"`
}

func runOnce(dir string, n int, plan []byte, vary int, class string) *Found {
	in := filepath.Join(dir, fmt.Sprintf("plan%d.json", n))
	out := filepath.Join(dir, fmt.Sprintf("found%d.json", n))
	os.Remove(out)
	if err := os.WriteFile(in, plan, 0o644); err != nil {
		return nil
	}
	stderr, err := spawn("run", in, strconv.Itoa(vary), class, out)
	if err != nil {
		if v := ended(stderr); v != nil {
			return &Found{Plan: plan, Viol: v}
		}
		return nil
	}
	buf, err := os.ReadFile(out)
	if err != nil {
		return nil
	}
	var f Found
	if json.Unmarshal(buf, &f) != nil {
		return nil
	}
	return &f
}

// runVaried looks for a schedule which shows the violation; what it finds is
// repeated in a process of its own.
func runVaried(dir string, n int, plan []byte, vary int, class string) *Found {
	g := runOnce(dir, n, plan, vary, class)
	if g == nil || g.Viol == nil || g.Viol.Class != class || vary == 0 {
		return g
	}
	return runOnce(dir, n, g.Plan, 0, class)
}

func runList(dir string, n int, a WorkerArgs, list []int64, class string) *Found {
	a.Only = list
	sum, stderr, err := spawnWorker(dir, n, a)
	if err != nil {
		if crash(stderr) && class == "crash" {
			return &Found{Viol: &Violation{"crash", "the process crashed: " + head(stderr, 40)}}
		}
		return nil
	}
	if sum.Found != nil && sum.Found.Viol.Class == class {
		return sum.Found
	}
	return nil
}

// minimiseRuns leaves out runs of a process, as long as the last of them is
// still violated.
func minimiseRuns(dir string, a WorkerArgs, f *Found, class string, deadline time.Time) (*Found, []int64) {
	last := f.Index
	var list []int64
	for i := f.Start; i <= last; i += f.Stride {
		list = append(list, i)
	}
	try := func(cands [][]int64) ([]int64, *Found) {
		for i := 0; i < len(cands) && time.Now().Before(deadline); i += 8 {
			res := make([]*Found, min(8, len(cands)-i))
			var wg sync.WaitGroup
			for k := range res {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					res[k] = runList(dir, 60+k, a, cands[i+k], class)
				}(k)
			}
			wg.Wait()
			for k, g := range res {
				if g != nil {
					return cands[i+k], g
				}
			}
		}
		return nil, nil
	}
	var cands [][]int64
	for n := 2; n < len(list); n *= 2 {
		cands = append(cands, list[len(list)-n:])
	}
	l, g := try(append(cands, list))
	if g == nil {
		return nil, nil
	}
	list, best := l, g
	if g.Index != last {
		for i, idx := range list {
			if idx == g.Index {
				list = list[:i+1]
				break
			}
		}
	}
	for size := len(list) / 2; size >= 1 && time.Now().Before(deadline); {
		cands = nil
		for i := 0; i < len(list)-1; i += size {
			j := min(i+size, len(list)-1)
			cands = append(cands, append(append([]int64{}, list[:i]...), list[j:]...))
		}
		l, g := try(cands)
		if g == nil {
			size /= 2
			continue
		}
		list, best = l, g
		size = min(size, len(list)/2)
	}
	return best, list
}

func report(ck *Check, dir string, f *Found, seed uint64, tr string, start time.Time, sums []*Summary) int {
	fmt.Printf("run %d: %s\n", f.Index, f.Viol.Msg)
	rep := &Replay{Property: ck.ID, Seed: seed, Tier: tr}
	class := f.Viol.Class
	limit := 75 * time.Second
	if tr == "thorough" {
		limit = 300 * time.Second
	}
	deadline := time.Now().Add(limit)
	var best *Found
	if class == "hang" {
		// Each attempt takes the time of the watchdog: repeat it once.
		best = runOnce(dir, 0, f.Plan, 0, class)
		if best == nil || best.Viol == nil || best.Viol.Class != class {
			fmt.Fprintf(os.Stderr, "check %s: run %d hung once only\n%s\n", ck.ID, f.Index, f.Viol.Msg)
			return 3
		}
		deadline = time.Now()
	}
	for try := 0; try < 3 && best == nil; try++ {
		if g := runOnce(dir, 0, f.Plan, 0, class); g != nil && g.Viol != nil && g.Viol.Class == class {
			best = g
		}
	}
	if best == nil && !ck.NoVary {
		if g := runVaried(dir, 0, f.Plan, 50, class); g != nil && g.Viol != nil && g.Viol.Class == class {
			best = g
		}
	}
	if best == nil {
		// It needs what happened before in its process.
		rep.Violation = f.Viol
		rep.Hash = f.Hash
		rep.Plan = f.Plan
		rep.Trace = f.Lines
		rep.Runs = &WorkerArgs{ID: ck.ID, Base: seed, Big: tr == "thorough", Start: f.Start,
			Stride: f.Stride, Count: (f.Index-f.Start)/f.Stride + 1, Limit: 1e9}
		rep.Note = "the violation needs the earlier runs of its process; replay repeats them"
		if g, list := minimiseRuns(dir, *rep.Runs, f, class, deadline); g != nil {
			rep.Violation, rep.Hash, rep.Minimised = g.Viol, g.Hash, true
			if len(g.Plan) > 0 {
				rep.Plan, rep.Trace = g.Plan, g.Lines
			}
			rep.Runs.Only = list
			rep.Note = fmt.Sprintf("the violation needs earlier runs of its process; replay repeats %d of them", len(list)-1)
			fmt.Println(rep.Note)
		}
	} else {
		best = minimise(ck, dir, best, class, deadline)
		rep.Violation = best.Viol
		rep.Hash = best.Hash
		rep.Plan = best.Plan
		rep.Trace = best.Lines
		rep.Minimised = class != "hang"
	}
	os.MkdirAll("replays", 0o755)
	name := filepath.Join("replays", fmt.Sprintf("%s-seed%d-run%d.json", ck.ID, seed, f.Index))
	buf, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, append(buf, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	ok := replay(dir, name, false)
	fmt.Printf("replay in a fresh process: reproduced=%v\n", ok)
	var have []*Summary
	for _, s := range sums {
		if s != nil {
			have = append(have, s)
		}
	}
	evidence(ck, seed, tr, have, time.Since(start).Seconds(), 1, 0, 0)
	for _, l := range rep.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("minimised: %s\n", rep.Violation.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, name)
	return 1
}

func replay(dir, name string, verbose bool) bool {
	buf, err := os.ReadFile(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	var rep Replay
	if err := json.Unmarshal(buf, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	if rep.Runs != nil {
		sum, stderr, err := spawnWorker(dir, 50, *rep.Runs)
		if err != nil {
			return rep.Violation.Class == "crash" && crash(stderr)
		}
		if sum.Found != nil && verbose {
			fmt.Println(sum.Found.Viol.Msg)
		}
		return sum.Found != nil && sum.Found.Viol.Class == rep.Violation.Class
	}
	g := runOnce(dir, 50, rep.Plan, 0, rep.Violation.Class)
	if g == nil || g.Viol == nil {
		return false
	}
	if verbose {
		for _, l := range g.Lines {
			fmt.Println("  " + l)
		}
		fmt.Println(g.Viol.Msg)
	}
	return g.Viol.Class == rep.Violation.Class && (g.Hash == rep.Hash || noHistory(rep.Violation.Class))
}

// ReplayMain executes a replay file: exit 1 if it shows the violation.
func ReplayMain(name string) int {
	dir, err := os.MkdirTemp(buildDir, "replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	if replay(dir, name, true) {
		fmt.Printf("reproduced exactly: %s\n", name)
		return 1
	}
	fmt.Printf("not reproduced: %s\n", name)
	return 0
}

// minimise the workload, the faults, and then the schedule, as long as a
// violation of the same class shows in a fresh process.
func minimise(ck *Check, dir string, best *Found, class string, deadline time.Time) *Found {
	try := func(cands [][]byte, vary int) *Found {
		for i := 0; i < len(cands) && time.Now().Before(deadline); i += 8 {
			j := i + 8
			if j > len(cands) {
				j = len(cands)
			}
			res := make([]*Found, j-i)
			var wg sync.WaitGroup
			for k := i; k < j; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					res[k-i] = runVaried(dir, 1+k-i, cands[k], vary, class)
				}(k)
			}
			wg.Wait()
			for _, g := range res {
				if g != nil && g.Viol != nil && g.Viol.Class == class {
					return g
				}
			}
		}
		return nil
	}
	vary := 15
	if ck.NoVary {
		vary = 0
	}
	if ck.Shrink != nil {
		for time.Now().Before(deadline) {
			_, p, err := Decode(best.Plan)
			if err != nil {
				break
			}
			var cands [][]byte
			ck.Shrink(p, func(np Plan) {
				buf, err := json.Marshal(np)
				if err == nil && len(cands) < 4000 {
					cands = append(cands, buf)
				}
			})
			g := try(cands, vary)
			if g == nil {
				break
			}
			best = g
		}
	}
	// Then the schedule: make it explicit, and leave out decisions.
	_, p, err := Decode(best.Plan)
	if err != nil || len(best.Decisions) == 0 || noHistory(class) {
		return best
	}
	explicit := func(dec []sim.Decision) []byte {
		p.C().Sched = sim.Spec{Policy: "explicit", Explicit: dec}
		buf, _ := json.Marshal(p)
		return buf
	}
	g := try([][]byte{explicit(best.Decisions)}, 0)
	if g == nil {
		return best
	}
	best = g
	dec := best.Decisions
	// An explicit schedule takes the same decisions; leave out chunks of them.
	for size := (len(dec) + 1) / 2; size >= 1 && time.Now().Before(deadline); {
		var cands [][]byte
		var kept [][]sim.Decision
		for i := 0; i < len(dec); i += size {
			j := i + size
			if j > len(dec) {
				j = len(dec)
			}
			nd := append(append([]sim.Decision(nil), dec[:i]...), dec[j:]...)
			kept = append(kept, nd)
			cands = append(cands, explicit(nd))
		}
		hit := false
		for i := 0; i < len(cands) && time.Now().Before(deadline); i++ {
			k := i
			end := i + 8
			if end > len(cands) {
				end = len(cands)
			}
			g := try(cands[i:end], 0)
			if g == nil {
				i = end - 1
				continue
			}
			for k = i; k < end; k++ {
				if string(g.Plan) == string(cands[k]) {
					dec = kept[k]
				}
			}
			best = g
			hit = true
			break
		}
		if hit {
			if size > (len(dec)+1)/2 && size > 1 {
				size = (len(dec) + 1) / 2
			}
			if len(dec) == 0 {
				break
			}
			continue
		}
		if size == 1 {
			break
		}
		size = size / 2
	}
	return best
}

func Main(args []string) int {
	if len(args) == 0 {
		ids := make([]string, 0, len(Checks))
		for id := range Checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: verif check ID | replay FILE | one ID INDEX; properties:", strings.Join(ids, " "))
		return 3
	}
	switch args[0] {
	case "check":
		return CheckMain(args[1])
	case "replay":
		return ReplayMain(args[1])
	case "worker":
		var a WorkerArgs
		if err := json.Unmarshal([]byte(args[1]), &a); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if err := Worker(a); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		return 0
	case "run":
		vary, _ := strconv.Atoi(args[2])
		if err := RunPlan(args[1], vary, args[3], args[4]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		return 0
	case "one":
		ck := Checks[args[1]]
		idx, _ := strconv.ParseInt(args[2], 10, 64)
		p := MakePlan(ck, verifSeed(), idx, tier() == "thorough")
		buf, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(buf))
		e := Execute(ck, p, true)
		for _, l := range e.Lines {
			fmt.Println(l)
		}
		fmt.Printf("steps=%d preempts=%d blocks=%d hash=%x nontrivial=%v stats=%v\n", e.Steps, e.Preempts, e.Blocks, e.Hash, e.Nontriv, e.Stats)
		if e.Viol != nil {
			fmt.Println("VIOLATED:", e.Viol.Class, e.Viol.Msg)
			return 1
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	return 3
}
