//go:build sched && go1.23

package gini

import (
	"time"

	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/xo"
	"github.com/go-air/gini/vsched"
)

// StatsResult is what TryStats sends.
type StatsResult = xo.StatsResult

// TryStats is the monitored Try, for the explorer.
func TryStats(s inter.Solve, timeout, freq time.Duration) *vsched.Chan[xo.StatsResult] {
	return s.(*xo.Ctl).TryStats(timeout, freq)
}

// ReadStats reads the counters of the solver of g: sat and unsat answers, and
// variables.
func ReadStats(g *Gini) (sat, unsat, vars int) {
	st := xo.NewStats()
	g.xo.ReadStats(st)
	return int(st.Sat), int(st.Unsat), st.Vars
}
