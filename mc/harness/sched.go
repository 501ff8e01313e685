//go:build verifsched

package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/verifvs"
)

// An attempt is one fresh start of a scenario: the tasks to run under the
// scheduler, and what there is to see afterwards.
type attempt struct {
	crashed bool
	mains   []func()
	result  func() string
}

// A scenario is a piece of concurrent behaviour whose outcome must not depend
// on the schedule.
type scenario struct {
	name  string
	eager bool // new tasks run at once by default
	fault bool // file operations may fail
	start func(e *Env, s *scenario) *attempt
	judge func(e *Env, got string) string // nil: like the default schedule
	// the default run
	known  bool
	points []vs.Point
	sites  []string
	want   string
	bad    string
	// what the runs of one leaf share
	leaf int
	h    *hydratables.Hydratable
	load string
}

var schedEnv *Env

// instrumented is whether the code under test is under the scheduler at all.
var instrumented = os.Getenv("VERIF_PLAIN") == ""

func schedSetup(e *Env) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(300)
	schedEnv = e
	if !instrumented {
		e.notes = append(e.notes, "the code could not be instrumented: only the default schedule was run")
	}
}

func showDevs(devs []vs.Dev) string {
	var s []string
	for _, d := range devs {
		s = append(s, fmt.Sprintf("%d:%d", d.At, d.Alt))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// alone runs work under the default schedule until nothing can go on.
func alone(f func()) vs.Result {
	before := vs.RaceErrors()
	r := vs.Run(vs.Config{Mains: []func(){f}})
	if n := vs.RaceErrors() - before; n > 0 && r.Panic == "" {
		r.Panic = fmt.Sprintf("%d data races (see the report of the race detector)", n)
	}
	return r
}

// once runs the scenario once.
func (s *scenario) once(e *Env, devs []vs.Dev, expect []uint32, orders []vs.Order) (vs.Result, string, string) {
	a := s.start(e, s)
	before, leaks := vs.RaceErrors(), vs.Leaks
	r := vs.Run(vs.Config{Devs: devs, Expect: expect, Orders: orders, Eager: s.eager, Faults: s.fault, Mains: a.mains})
	e.runs++
	e.steps += int64(r.Steps)
	races := vs.RaceErrors() - before
	problem := ""
	switch {
	case r.Foreign:
		e.note("the code uses channels the scheduler does not know")
		e.cut = true
	case r.Panic != "":
		problem = r.Panic
	case r.Deadlock != "" && leaks > 0:
		// perhaps for want of a background task that ended with its run
		e.note("a background task of an earlier run was still waiting when a run stopped")
		e.cut = true
	case r.Deadlock != "":
		problem = "deadlock"
	case races > 0:
		problem = fmt.Sprintf("%d data races (see the report of the race detector)", races)
	}
	got := ""
	if problem == "" && !r.Foreign && r.Deadlock == "" {
		a.crashed = r.Crashed
		got = a.result()
		if s.judge != nil {
			problem = s.judge(e, got)
		} else if s.known && got != s.want {
			problem = "the outcome differs from the one under the default schedule: " + difference(got, s.want)
		}
	}
	e.end()
	if problem != "" {
		where := "schedule deviations " + showDevs(devs)
		if len(orders) > 0 {
			where = fmt.Sprintf("map orders %v", orders)
		}
		problem = fmt.Sprintf("%s, %s: %s", s.name, where, problem)
	}
	return r, got, problem
}

func (e *Env) note(s string) {
	for _, n := range e.notes {
		if n == s {
			return
		}
	}
	e.notes = append(e.notes, s)
}

func difference(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-80)
	return fmt.Sprintf("...%q instead of ...%q", got[from:min(len(got), i+120)], want[from:min(len(want), i+120)])
}

// prepare performs the default run.
func (s *scenario) prepare() {
	if s.known {
		return
	}
	e := schedEnv
	r, got, problem := s.once(e, nil, nil, nil)
	e.runs, e.steps, e.cut = 0, 0, false
	s.points, s.sites, s.want, s.bad, s.known = r.Points, r.Sites, got, problem, true
}

// steady tells whether a second default run does the same.
func (s *scenario) steady(e *Env) string {
	r, _, problem := s.once(e, nil, nil, nil)
	if problem != "" {
		return problem
	}
	same := len(r.Points) == len(s.points)
	for i := 0; same && i < len(r.Points); i++ {
		same = r.Points[i] == s.points[i]
	}
	if !same {
		e.note("a second run of " + s.name + " under the same schedule took other steps")
		e.cut = true
	}
	return ""
}

// deepen runs all extensions of the deviations up to the bound.
func (s *scenario) deepen(e *Env, devs []vs.Dev, expect []uint32, left int, wide bool) string {
	if e.late != nil && e.late() {
		e.cut = true
		return ""
	}
	r, _, problem := s.once(e, devs, expect, nil)
	if problem != "" || left == 0 {
		return problem
	}
	if r.Diverged {
		e.note("a schedule of " + s.name + " could not be repeated")
		e.cut = true
		return ""
	}
	from := 0
	if len(devs) > 0 {
		from = devs[len(devs)-1].At + 1
	}
	for at := from; at < len(r.Points); at++ {
		n := 2
		if wide {
			n = int(r.Points[at].N)
		}
		for alt := 1; alt < n; alt++ {
			problem := s.deepen(e, append(append([]vs.Dev{}, devs...), vs.Dev{At: at, Alt: alt}),
				append(append([]uint32{}, expect...), r.Points[at].Hash), left-1, wide)
			if problem != "" {
				return problem
			}
		}
	}
	return ""
}

// eager are the scenarios with new tasks running at once by default.
func eager(list ...*scenario) []*scenario {
	var r []*scenario
	for _, s := range list {
		c := *s
		c.eager = true
		c.name += ", new tasks first"
		r = append(r, &c)
	}
	return r
}

var schedAssume = []string{
	"switches between goroutines happen at goroutine starts and at operations of channels, locks, wait groups and atomics; without data races other switches make no difference",
	"code of libraries runs without switches in between",
	"maps are visited in sorted order or in the orders named",
}

// both are the scenarios under either default.
func both(list ...*scenario) []*scenario {
	return append(append([]*scenario{}, list...), eager(list...)...)
}

// build keeps the families meant for this build.
func build(all ...Family) []Family {
	var r []Family
	for _, f := range all {
		if strings.HasPrefix(f.Name, "race-") == vs.RaceBuild {
			r = append(r, f)
		}
	}
	return r
}

// schedules explores all runs of the scenarios with at most depth deviations.
// Wide deviations go to any task that can run, others to the next one only.
func schedules(name string, depth int, wide bool, list ...*scenario) Family {
	how := "moving on to the next task"
	if wide {
		how = "moving on to any task"
	}
	var names []string
	for _, s := range list {
		names = append(names, s.name)
	}
	return Family{Name: name, Bounds: fmt.Sprintf("all schedules with at most %d deviations from run-to-block, each %s, for: %s", depth, how, strings.Join(names, "; ")),
		Gen: func(c *Chooser) Exec {
			s := pick(c, list...)
			s.prepare()
			total := 1
			if s.bad == "" && depth > 0 && instrumented {
				for _, p := range s.points {
					if wide {
						total += int(p.N) - 1
					} else {
						total++
					}
				}
			}
			k := c.Choose(total)
			return func(e *Env) string {
				e.desc = s.name
				e.outcome = s.want
				if s.bad != "" {
					return s.bad
				}
				if k == 0 {
					return s.steady(e)
				}
				at, alt := k-1, 1
				if wide {
					at = 0
					rest := k - 1
					for rest >= int(s.points[at].N)-1 {
						rest -= int(s.points[at].N) - 1
						at++
					}
					alt = rest + 1
				}
				return s.deepen(e, []vs.Dev{{At: at, Alt: alt}}, []uint32{s.points[at].Hash}, depth-1, wide)
			}
		}}
}

// orders explores the iteration orders of the maps: every order of every
// single site, and reversed and alternating orders of every pair.
func orders(name string, list ...*scenario) Family {
	return Family{Name: name, Bounds: "every map visited in the run in six orders, and every pair of maps in two orders each",
		Gen: func(c *Chooser) Exec {
			s := pick(c, list...)
			s.prepare()
			n := len(s.sites)
			if n == 0 || s.bad != "" || !instrumented {
				return func(e *Env) string { return s.bad }
			}
			var set []vs.Order
			i := c.Choose(n + 1)
			if i == n {
				// all at once
				o := 1 + c.Choose(vs.Orders-1)
				for _, site := range s.sites {
					set = append(set, vs.Order{Site: site, Order: o})
				}
			} else {
				j := i + c.Choose(n-i)
				if i == j {
					set = []vs.Order{{Site: s.sites[i], Order: 1 + c.Choose(vs.Orders-1)}}
				} else {
					set = []vs.Order{{Site: s.sites[i], Order: 1 + c.Choose(2)}, {Site: s.sites[j], Order: 1 + c.Choose(2)}}
				}
			}
			return func(e *Env) string {
				e.desc = s.name
				_, got, problem := s.once(e, nil, nil, set)
				e.outcome = got
				return problem
			}
		}}
}
