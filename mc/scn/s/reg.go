// Package s holds the scenarios: closed drivers of the real code with oracles.
package s

import (
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	"go.uber.org/zap"
)

// Scenario is one closed driver with its oracle.
type Scenario struct {
	Name  string
	Props []string // properties it decides
	// deviation bounds: quick, thorough
	Bound [2]int
	// BoundV overrides Bound for a variant.
	BoundV map[string][2]int
	// Shards splits one job over several processes (quick, thorough).
	Shards [2]int
	Cfg    vs.Config
	// Variants are separate jobs; VariantsT only run in the thorough tier.
	Variants  []string
	VariantsT []string
	// NoRace keeps the scenario out of the data race check.
	NoRace bool
	// RaceBound is the deviation bound in the data race check.
	RaceBound [2]int
	// WS are the variants also run over the WebSocket overlay, for C23.
	WS []string
	// WSBound is the deviation bound there, by default {1, 2}.
	WSBound [2]int
	// WSNone: no deviations there.
	WSNone bool
	// RU are the variants also run with connections made by NewReusedConnection.
	RU   []string
	Body func(variant string)
}

// BoundOf is the deviation bound of a variant.
func (s *Scenario) BoundOf(v string, tier int) int {
	if b, ok := s.BoundV[v]; ok {
		return b[tier]
	}
	return s.Bound[tier]
}

// All scenarios.
var All []*Scenario

// Register adds a scenario.
func Register(s Scenario) {
	if len(s.WS) > 0 {
		w := s
		w.Name = "ws-" + s.Name
		w.Props = props("C23")
		w.Variants, w.VariantsT, w.WS = s.WS, nil, nil
		w.Bound, w.BoundV = s.WSBound, nil
		if w.Bound == [2]int{} {
			w.Bound = [2]int{1, 2}
		}
		if s.WSNone {
			w.Bound = [2]int{}
		}
		w.RaceBound = [2]int{0, 1}
		w.Body = func(v string) {
			overWS = true
			s.Body(v)
		}
		All = append(All, &w)
	}
	if len(s.RU) > 0 {
		w := s
		w.Name = "ru-" + s.Name
		w.Variants, w.VariantsT, w.RU = s.RU, nil, nil
		w.Bound, w.BoundV = [2]int{1, 2}, nil
		w.RaceBound = [2]int{0, 1}
		w.Body = func(v string) {
			overReuse = true
			s.Body(v)
		}
		All = append(All, &w)
	}
	All = append(All, &s)
}

func props(s string) []string { return strings.Fields(s) }

func init() { qrpc.SetLogger(zap.NewNop()) }
