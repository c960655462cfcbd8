package compound

import (
	"encoding/json"
	"fmt"

	"verif/harness/core"
	"verifsim/sim"
)

// Many is several runs of other checks in one simulation, with nothing in
// common but the process.
type Many struct {
	core.Common
	Solo  bool              `json:"solo,omitempty"`
	Parts []string          `json:"parts"`
	Same  bool              `json:"same,omitempty"` // they use the same new names
	Body  []json.RawMessage `json:"bodies"`
}

// solo is the plan with one client only.
func solo(buf []byte) []byte {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(buf, &m); err != nil {
		panic(err)
	}
	for _, k := range []string{"clients", "scripts", "inputs"} {
		var xs []json.RawMessage
		if v, ok := m[k]; ok && json.Unmarshal(v, &xs) == nil && len(xs) > 1 {
			m[k], _ = json.Marshal(xs[:1])
		}
	}
	if _, ok := m["others"]; ok {
		m["others"] = json.RawMessage("null")
	}
	buf, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return buf
}

func (p *Many) sub(i int) (*core.Check, core.Plan) {
	ck := core.Checks[p.Parts[i]]
	sp := ck.New()
	if err := json.Unmarshal(p.Body[i], sp); err != nil {
		panic("compound: " + err.Error())
	}
	c := sp.C()
	c.Prop = p.Parts[i]
	c.Seed = p.Seed
	if !p.Same {
		c.Seed += uint64(i+1) * 0x9e3779b97f4a7c15
	}
	return ck, sp
}

func genMany(r *sim.Rand, big, one bool, parts []string) core.Plan {
	p := &Many{Solo: one, Same: r.Chance(1, 2)}
	n := r.Range(2, 3)
	if big {
		n = r.Range(2, 5)
	}
	same := r.Chance(1, 2)
	twins := same && r.Chance(1, 2)
	for i := 0; i < n; i++ {
		part := parts[r.Intn(len(parts))]
		if same && i > 0 {
			part = p.Parts[0]
		}
		var buf []byte
		if twins && i > 0 {
			buf = p.Body[0]
		} else {
			var err error
			buf, err = json.Marshal(core.Checks[part].Gen(r, big))
			if err != nil {
				panic(err)
			}
			if one {
				buf = solo(buf)
			}
		}
		p.Parts = append(p.Parts, part)
		p.Body = append(p.Body, buf)
	}
	p.Sched = core.GenSched(r, 2*n, sim.Pick(r, 500, 5000, 20000))
	return p
}

func (p *Many) run(e *core.Env) {
	p.Max = 0
	var cks []*core.Check
	var sps []core.Plan
	for i := range p.Parts {
		ck, sp := p.sub(i)
		cks = append(cks, ck)
		sps = append(sps, sp)
		e.Count("runs of "+p.Parts[i], 1)
		max := sp.C().Max
		if max == 0 {
			max = 2000000
		}
		p.Max += max
	}
	es, ok := e.Together(p, cks, sps)
	for i, se := range es {
		for k, n := range se.Stats {
			e.Count(k, n)
		}
		e.Hash = sim.Hash(e.Hash, se.Hash)
		e.Nontriv = e.Nontriv || se.Nontriv
		e.Tasks += se.Tasks
		if e.Verbose {
			e.Logf("run %d (%s):", i, p.Parts[i])
			for _, l := range se.Lines {
				e.Logf("    %s", l)
			}
		}
	}
	if !p.Solo {
		return
	}
	bad := ""
	if !ok {
		bad = e.Viol.Msg
	}
	for i, se := range es {
		if se.Viol != nil && bad == "" {
			bad = fmt.Sprintf("run %d, of %s: %s: %s", i, p.Parts[i], se.Viol.Class, se.Viol.Msg)
		}
	}
	e.Viol = nil
	if bad == "" {
		return
	}
	// If one of them fails without the others, this says nothing.
	for _, sp := range sps {
		fails, err := core.Alone(sp, 5)
		if err != nil {
			panic(err)
		}
		if fails {
			e.Count("runs which fail alone", 1)
			return
		}
	}
	e.Fail("dependence", "what works alone fails next to others: %s", bad)
}

func (p *Many) shrink(emit func(core.Plan)) {
	for i := range p.Parts {
		if len(p.Parts) > 1 {
			q := core.Clone(p.Prop, p)
			q.Parts = append(q.Parts[:i], q.Parts[i+1:]...)
			q.Body = append(q.Body[:i], q.Body[i+1:]...)
			emit(q)
		}
	}
	for i := range p.Parts {
		ck, sp := p.sub(i)
		if ck.Shrink == nil {
			continue
		}
		ck.Shrink(sp, func(np core.Plan) {
			buf, err := json.Marshal(np)
			if err != nil {
				panic(err)
			}
			q := core.Clone(p.Prop, p)
			q.Body[i] = buf
			emit(q)
		})
	}
}

func registerMany(id, rule string, quick int64, one bool, parts []string) {
	core.Register(&core.Check{
		ID: id, Rule: rule, Quick: quick,
		New:    func() core.Plan { return &Many{} },
		Gen:    func(r *sim.Rand, big bool) core.Plan { return genMany(r, big, one, parts) },
		Run:    func(cp core.Plan, e *core.Env) { cp.(*Many).run(e) },
		Shrink: func(cp core.Plan, emit func(core.Plan)) { cp.(*Many).shrink(emit) },
		Real:   []string{"all of the layers"}, Stub: []string{"scheduler and locks (simsync)", "input streams"},
		Assume: []string{"a run which fails without the others is not counted: it breaks another property"},
	})
}
