package sym

import (
	"sort"
	"time"
)

// Summary of a run.
type Summary struct {
	Paths, States, Instr, VCs, Trivial, Discharged, Violated, Unreproduced, Unknown int
	Feas, FeasUnknown, Wit, WitOK, Threads                                          int
	Wall                                                                            time.Duration
}

func (r *Run) Summary() Summary {
	s := Summary{Paths: r.nPaths, States: r.nstates, Instr: r.nInstr, Trivial: r.nTriv, VCs: len(r.vcs), Feas: r.nFeas, FeasUnknown: r.nFeasUnknown, Wit: len(r.wits), Wall: r.wall, Threads: 1 + r.nSched}
	for _, v := range r.vcs {
		switch v.Verdict {
		case "discharged":
			s.Discharged++
		case "violated", "duplicate":
			s.Violated++
		case "unreproduced":
			s.Unreproduced++
		default:
			s.Unknown++
		}
	}
	for _, w := range r.wits {
		if w.OK {
			s.WitOK++
		}
	}
	return s
}

func (r *Run) VCs() []*VC              { return r.vcs }
func (r *Run) Wits() []*Witness        { return r.wits }
func (r *Run) Incompl() map[string]int { return r.incompl }
func (r *Run) Unsupp() map[string]int  { return r.unsupp }
func (r *Run) Reached() map[string]int { return r.reached }
func (r *Run) Functions() []string {
	var out []string
	for f := range r.fns {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}
func (r *Run) Notes() []string {
	var out []string
	for f := range r.notes {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}
func (r *Run) InputNames() []string {
	var out []string
	for _, i := range r.inputs {
		out = append(out, i.Name)
	}
	return out
}
func (r *Run) PoolStats() (int, float64) { return r.pool.Stats.Queries, r.pool.Stats.Time.Seconds() }
