package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"verifsim/sim"
)

// Found is a violation together with the plan which shows it.
type Found struct {
	Plan      json.RawMessage `json:"plan"`
	Viol      *Violation      `json:"violation"`
	Hash      uint64          `json:"hash"`
	Steps     uint64          `json:"steps"`
	Decisions []sim.Decision  `json:"decisions,omitempty"`
	Overflow  bool            `json:"overflow,omitempty"`
	Lines     []string        `json:"trace,omitempty"`
	Index     int64           `json:"index"`
	Start     int64           `json:"start"`
	Stride    int64           `json:"stride"`
}

type Sample struct {
	Index int64           `json:"index"`
	Plan  json.RawMessage `json:"plan"`
	Trace []string        `json:"trace"`
}

type Summary struct {
	Runs     int64            `json:"runs"`
	Steps    uint64           `json:"steps"`
	Preempts int64            `json:"preempts"`
	Blocks   int64            `json:"blocks"`
	Stats    map[string]int64 `json:"stats"`
	Nontriv  []uint64         `json:"nontriv"`
	Inter    []uint64         `json:"inter"`
	Hashes   []uint64         `json:"hashes"` // of the first runs, for the determinism check
	Samples  []Sample         `json:"samples"`
	Found    *Found           `json:"found"`
	TimedOut bool             `json:"timed_out"`
	Wall     float64          `json:"wall"`
}

const hashedRuns = 24

type WorkerArgs struct {
	ID     string  `json:"id"`
	Base   uint64  `json:"base"`
	Big    bool    `json:"big"`
	Start  int64   `json:"start"`
	Stride int64   `json:"stride"`
	Count  int64   `json:"count"`
	Limit  float64 `json:"limit"` // seconds
	Out    string  `json:"out"`
	Status string  `json:"status"`
	Only   []int64 `json:"only,omitempty"` // run these and report their hashes
}

var runs int64

func watchdog() {
	last := uint64(0)
	still := 0
	for {
		time.Sleep(5 * time.Second)
		b := sim.Beat()
		if b != last {
			last = b
			still = 0
			continue
		}
		still++
		if still == 18 {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "watchdog: no progress for 90 seconds\n%s\n", buf[:n])
			os.Exit(4)
		}
	}
}

// addStat: most is of the runs, and all others are for all of them.
func addStat(m map[string]int64, k string, v int64) {
	if strings.HasPrefix(k, "most ") {
		m[k] = max(m[k], v)
	} else {
		m[k] += v
	}
}

func Worker(a WorkerArgs) error {
	ck := Checks[a.ID]
	if ck == nil {
		return fmt.Errorf("unknown property: %s", a.ID)
	}
	go watchdog()
	sum := Summary{Stats: map[string]int64{}}
	nontriv := map[uint64]bool{}
	inter := map[uint64]bool{}
	start := time.Now()
	var status *os.File
	if a.Status != "" {
		var err error
		status, err = os.Create(a.Status)
		if err != nil {
			return err
		}
	}
	one := func(idx int64, n int64) bool {
		if status != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
			status.WriteAt(b[:], 0)
		}
		p := MakePlan(ck, a.Base, idx, a.Big)
		e := Execute(ck, p, n < 40)
		sim.AddBeat()
		sum.Runs++
		sum.Steps += e.Steps
		sum.Preempts += int64(e.Preempts)
		sum.Blocks += int64(e.Blocks)
		for k, v := range e.Stats {
			addStat(sum.Stats, k, v)
		}
		if len(sum.Hashes) < hashedRuns || a.Only != nil {
			sum.Hashes = append(sum.Hashes, e.Hash)
		}
		if e.Inter != 0 && len(inter) < 400000 {
			inter[e.Inter] = true
		}
		if e.Nontriv {
			if len(nontriv) < 400000 {
				nontriv[e.Hash] = true
			}
			if len(sum.Samples) < 1 && n >= 2 && n < 40 {
				buf, _ := json.Marshal(p)
				if len(buf) < 6000 || n > 30 {
					ls := e.Lines
					if len(ls) > 40 {
						ls = ls[:40]
					}
					sum.Samples = append(sum.Samples, Sample{idx, buf, ls})
				}
			}
		}
		if e.Viol != nil {
			sum.Found = found(p, e)
			sum.Found.Index = idx
			sum.Found.Start = a.Start
			sum.Found.Stride = a.Stride
			return false
		}
		return true
	}
	if a.Only != nil {
		for n, idx := range a.Only {
			if !one(idx, int64(n)+1000) {
				break
			}
		}
	} else {
		for n := int64(0); n < a.Count; n++ {
			if !one(a.Start+n*a.Stride, n) {
				break
			}
			if n%16 == 15 && time.Since(start).Seconds() > a.Limit {
				sum.TimedOut = true
				break
			}
		}
	}
	for h := range nontriv {
		sum.Nontriv = append(sum.Nontriv, h)
	}
	for h := range inter {
		sum.Inter = append(sum.Inter, h)
	}
	sum.Wall = time.Since(start).Seconds()
	buf, err := json.Marshal(&sum)
	if err != nil {
		return err
	}
	return os.WriteFile(a.Out, buf, 0o644)
}

func found(p Plan, e *Env) *Found {
	buf, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return &Found{Plan: buf, Viol: e.Viol, Hash: e.Hash, Steps: e.Steps, Decisions: e.Decisions(),
		Lines: e.Lines, Index: p.C().Index}
}

// RunPlan executes the plan in a file: first as it is, and then, if vary > 0,
// with other schedules and names, until one shows a violation of the class.
func RunPlan(file string, vary int, class, out string) error {
	buf, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	ck, p, err := Decode(buf)
	if err != nil {
		return err
	}
	go watchdog()
	var f *Found
	r := sim.NewRand(p.C().Seed ^ 0xabcdef)
	seed := p.C().Seed
	for k := 0; k <= vary; k++ {
		c := p.C()
		if k > 0 {
			c.Seed = seed + uint64(k)*0x9e3779b97f4a7c15
			c.Sched = GenSched(r, 4, int(20000/(1+uint64(k%7))))
			if k%4 == 1 {
				c.Sched = sim.Spec{Seed: r.Uint64(), Policy: "random", Gap: r.Range(2, 40), Sync: 50}
			}
			c.Sched.Slow = nil
		}
		e := Execute(ck, p, true)
		f = found(p, e)
		if e.Viol != nil && (class == "" || e.Viol.Class == class) {
			break
		}
		f.Viol = nil
		if c.Sched.Policy == "explicit" {
			break
		}
	}
	res, err := json.Marshal(f)
	if err != nil {
		return err
	}
	return os.WriteFile(out, res, 0o644)
}
