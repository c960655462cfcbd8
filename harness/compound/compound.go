// Package compound has the checks of properties of all of the layers at once:
// each run is a run of one of the other checks.
package compound

import (
	"encoding/json"

	"verif/harness/core"
	"verifsim/sim"
)

type Plan struct {
	core.Common
	Part string          `json:"part"`
	Body json.RawMessage `json:"body"`
}

func (p *Plan) sub() (*core.Check, core.Plan) {
	ck := core.Checks[p.Part]
	if ck == nil {
		panic("compound: unknown part: " + p.Part)
	}
	sp := ck.New()
	if err := json.Unmarshal(p.Body, sp); err != nil {
		panic("compound: " + err.Error())
	}
	c := sp.C()
	*c = p.Common
	c.Prop = p.Part
	return ck, sp
}

func pack(c core.Common, part string, sp core.Plan) *Plan {
	buf, err := json.Marshal(sp)
	if err != nil {
		panic(err)
	}
	return &Plan{Common: c, Part: part, Body: buf}
}

// Register a check whose runs are those of parts; only violations of the given
// classes count (none: all).
func Register(id, rule string, quick int64, classes []string, parts []string, after func(e *core.Env)) *core.Check {
	ck := &core.Check{ID: id, Rule: rule, Quick: quick,
		New: func() core.Plan { return &Plan{} },
		Gen: func(r *sim.Rand, big bool) core.Plan {
			part := parts[r.Intn(len(parts))]
			sp := core.Checks[part].Gen(r, big)
			return pack(*sp.C(), part, sp)
		},
		Run: func(cp core.Plan, e *core.Env) {
			p := cp.(*Plan)
			ck, sp := p.sub()
			e.Count("runs of "+p.Part, 1)
			ck.Run(sp, e)
			if e.Viol != nil && classes != nil {
				ok := false
				for _, c := range classes {
					ok = ok || c == e.Viol.Class
				}
				if !ok {
					e.Count("violations of other properties", 1)
					e.Viol = nil
				}
			}
			if after != nil {
				after(e)
			}
		},
		Shrink: func(cp core.Plan, emit func(core.Plan)) {
			p := cp.(*Plan)
			ck, sp := p.sub()
			if ck.Shrink != nil {
				ck.Shrink(sp, func(q core.Plan) { emit(pack(p.Common, p.Part, q)) })
			}
		},
	}
	seenA, seenR, seenS := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, part := range parts {
		pc := core.Checks[part]
		if pc == nil {
			panic("compound: unknown part: " + part)
		}
		for _, s := range pc.Assume {
			if !seenA[s] {
				seenA[s] = true
				ck.Assume = append(ck.Assume, s)
			}
		}
		for _, s := range pc.Real {
			if !seenR[s] {
				seenR[s] = true
				ck.Real = append(ck.Real, s)
			}
		}
		for _, s := range pc.Stub {
			if !seenS[s] {
				seenS[s] = true
				ck.Stub = append(ck.Stub, s)
			}
		}
	}
	core.Register(ck)
	return ck
}

// Setup is called when all of the parts are registered.
func Setup() {
	Register("C07", "transactions of the store and of the engine which are completed while rows are open, and completed again, among those of other clients; non-trivial: a completion was refused",
		60000, nil, []string{"x-store-complete", "x-engine-complete"}, nil)
	// Of the engine's interface, and of the statements which use it.
	ck := Register("C10", "clients create, drop, list, and open databases, schemas, and tables, in transactions of which some are rolled back, through the engine (most of the runs) and by statements of sessions; non-trivial: transactions of different clients overlapped in time",
		32000, nil, []string{"x-catalog", "x-catalog", "x-catalog", "C16"}, nil)
	ck.Findings = core.Checks["x-catalog"].Findings

	Register("C12", "tables of every definition are created and opened, by the creating and by other transactions, among tables whose definitions are too large to store, through the engine (most of the runs) and by statements of sessions; non-trivial: a table was created and opened",
		26000, nil, []string{"x-tables", "x-tables", "x-tables", "C16", "C17"}, nil)
	Register("C13", "catalog operations, of the engine (most of the runs) and of statements of sessions, during which a storage call fails, before or after its effect, once or from then on; non-trivial: a call failed",
		36000, nil, []string{"x-fault", "x-fault", "x-fault", "x-fault", "C18"}, nil)
	every := []string{"C01", "C02", "C04", "C09", "x-store-complete", "x-engine-complete", "x-catalog", "x-fault", "C14", "C15",
		"C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "C27", "C29"}
	own := []string{"C01", "C02", "C03", "C06", "C09", "x-catalog", "x-tables", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24", "C25"}
	registerMany("C33", "two to five runs of the other checks, each of one client with its own store, catalog, session, or parser, at the same time in one process, of different kinds, of one kind, and identical ones; a run which is wrong together with others but right in a process of its own is a violation; non-trivial: one of the runs is",
		15000, true, own)
	registerMany("x-many", "", 0, false, own)
	every = append(every, "x-many", "x-many")
	Register("C08", "runs of the other checks (store, engine with storage faults, initialisation, typed tables, sessions, parsers, identifiers, console), judged by progress only: no deadlock, and every operation ends within its bound of steps; non-trivial as for the other check",
		50000, []string{"deadlock", "steps", "panic", "leak", "fatal", "hang"}, every, nil)
	Register("C28", "runs of the other checks, compiled with the race detector, which sees the synchronization of the program and not that of the scheduler, judged by its reports only; non-trivial as for the other check",
		20000, []string{"race"}, every, nil)
}
