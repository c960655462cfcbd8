// Package lin decides whether some sequential order of transactions, which
// agrees with real time, explains what they did.
package lin

import (
	"sort"
	"time"

	"github.com/anishathalye/porcupine"
	"verif/harness/core"
)

type Unit struct {
	Client    int
	Call, Ret int64
	Data      any
}

// Model of the transactions: Apply does not change the state; bad is empty if
// the state explains what the transaction did.
type Model struct {
	Init  any
	Apply func(state any, u *Unit) (next any, bad string)
	Dump  func(state any) string
}

func Judge(e *core.Env, m *Model, us []*Unit) {
	sort.SliceStable(us, func(i, j int) bool { return us[i].Ret < us[j].Ret })
	state := m.Init
	overlap := false
	badMsg := ""
	for _, u := range us {
		for _, o := range us {
			if o.Client != u.Client && o.Call < u.Ret && u.Call < o.Ret {
				overlap = true
			}
		}
		if badMsg == "" {
			state, badMsg = m.Apply(state, u)
		}
	}
	if overlap {
		e.Count("runs with overlapping transactions", 1)
	}
	if badMsg == "" {
		return
	}
	if !overlap {
		e.Fail("model", "not as in the model: %s", badMsg)
		return
	}
	var ops []porcupine.Operation
	for _, u := range us {
		ops = append(ops, porcupine.Operation{ClientId: u.Client, Input: u, Call: u.Call, Return: u.Ret})
	}
	pm := porcupine.Model{
		Init: func() any { return m.Init },
		Step: func(state, input, output any) (bool, any) {
			n, bad := m.Apply(state, input.(*Unit))
			return bad == "", n
		},
		Equal: func(a, b any) bool { return m.Dump(a) == m.Dump(b) },
	}
	switch porcupine.CheckOperationsTimeout(pm, ops, 20*time.Second) {
	case porcupine.Illegal:
		e.Fail("model", "no sequential order explains what the clients saw; in the order of their ends: %s", badMsg)
	case porcupine.Unknown:
		e.Count("histories not decided in time", 1)
	}
}
