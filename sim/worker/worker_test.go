// Package worker runs simulated runs for the driver: one process, one run at a time.
package worker

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"xtormsim/replay"
	"xtormsim/simrt"
	"xtormsim/world"
)

var (
	mode    = flag.String("mode", "", "run, one, shrink")
	prop    = flag.String("prop", "", "property the runs are shaped for")
	seed0   = flag.Uint64("seed0", 1, "first seed")
	stride  = flag.Uint64("stride", 1, "distance of seeds")
	count   = flag.Int("count", 1<<30, "number of runs")
	seconds = flag.Float64("seconds", 10, "time limit")
	file    = flag.String("file", "", "replay file")
	again   = flag.Int("again", 0, "run every n-th seed twice and compare")
	trace   = flag.Bool("trace", false, "print the trace")
)

var out = bufio.NewWriterSize(os.Stdout, 1<<16)

func emit(kind string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(out, "@%s %s\n", kind, b)
	out.Flush()
}

// atStuck reports the result of a run the process does not survive.
var atStuck func(*world.Result)

// one executes one run in a bubble of its own.
func one(t *testing.T, spec world.Spec) (res *world.Result) {
	t.Run("r", func(t *testing.T) {
		cryptotest.SetGlobalRandom(t, spec.Seed)
		done := false
		func() {
			defer func() {
				if r := recover(); r != nil && !done {
					panic(r)
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				defer func() {
					if r := recover(); r != nil {
						simrt.S = nil
						fmt.Fprintf(os.Stderr, "harness panic at seed %d: %v\n%s\n", spec.Seed, r, debug.Stack())
						out.Flush()
						os.Exit(4)
					}
				}()
				res = world.Run(spec)
				done = true
				if len(res.Stuck) > 0 { // goroutines nothing can end: this process cannot leave the bubble
					if atStuck != nil {
						atStuck(res)
					}
					out.Flush()
					os.Exit(3)
				}
			})
		}()
	})
	if l := races(); res != nil {
		for _, v := range l {
			res.Violations = append(res.Violations, v)
			if spec.Early != nil {
				spec.Early(v)
			}
		}
		if simrt.Race {
			res.Evals["C22"]++
		}
	}
	return res
}

func TestWorker(t *testing.T) {
	if *mode == "" {
		t.Skip("driven by vsim")
	}
	debug.SetGCPercent(400)
	if simrt.Race && *mode == "one" {
		debug.SetGCPercent(-1) // no memory is used twice: what is reported again is no artefact
	}
	world.Init()
	switch *mode {
	case "run":
		run(t)
	case "one":
		single(t)
	case "shrink":
		shrink(t)
	}
}

func run(t *testing.T) {
	end := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	seed := *seed0
	for i := 0; i < *count && time.Now().Before(end); i++ {
		spec := world.Spec{Seed: seed, Prop: *prop}
		emit("S", seed)
		spec.Early = func(v world.Violation) { emit("V", v) }
		r := onceMore(t, spec, *again > 0 && i%*again == 0)
		emit("R", r)
		seed += *stride
	}
	emit("E", nil)
	os.Exit(0)
}

func onceMore(t *testing.T, spec world.Spec, twice bool) *replay.Line {
	line := func(r *world.Result) *replay.Line {
		return &replay.Line{Seed: spec.Seed, Hash: r.Hash, Switch: r.Switch, Steps: r.Steps, Yields: r.Yields, Sim: r.SimTime.Seconds(),
			Faults: r.Faults, Probes: r.Probes, Evals: r.Evals, Violations: r.Violations, Desc: r.Desc, Stuck: r.Stuck}
	}
	atStuck = func(r *world.Result) { emit("R", line(r)) }
	r := one(t, spec)
	l := line(r)
	if twice {
		spec.Early = nil
		q := one(t, spec)
		l.Twice = true
		l.Same = q.Hash == r.Hash && q.Switch == r.Switch && q.Steps == r.Steps
		// and again from its recorded choices
		spec.HasRec, spec.Plan, spec.Sched = true, r.Plan, r.Sched
		q = one(t, spec)
		l.Same = l.Same && q.Hash == r.Hash && q.Switch == r.Switch
	}
	return l
}

func single(t *testing.T) {
	f, err := replay.Read(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	atStuck = func(r *world.Result) { finish(f, r) }
	finish(f, one(t, world.Spec{Seed: f.Seed, Prop: f.Profile, HasRec: f.HasRec, Plan: f.Plan, Sched: f.Sched, Tracing: true,
		Early: func(v world.Violation) { emit("V", v) }}))
}

func finish(f *replay.File, r *world.Result) {
	f.Plan, f.Sched, f.HasRec = r.Plan, r.Sched, true
	f.Trace, f.Desc, f.Hash = r.Trace, r.Desc, fmt.Sprintf("%016x", r.Hash)
	for _, v := range r.Violations {
		if v.Prop == f.Prop && (v.Kind == f.Kind || f.Kind == "") {
			f.Kind, f.Msg = v.Kind, v.Msg
			break
		}
	}
	emit("F", f)
	out.Flush()
	os.Exit(0)
}

func shrink(t *testing.T) {
	f, err := replay.Read(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	end := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	tries := 0
	// test runs a candidate and adopts it if it fails in the same way.
	adopt := func(r *world.Result) bool {
		for _, v := range r.Violations {
			if v.Prop == f.Prop && v.Kind == f.Kind {
				p, q := trim(r.Plan), trim(r.Sched)
				if len(p)+len(q) > len(f.Plan)+len(f.Sched) {
					return false
				}
				f.Plan, f.Sched = p, q
				f.Msg, f.Desc, f.Steps = v.Msg, r.Desc, r.Steps
				f.Hash = fmt.Sprintf("%016x", r.Hash)
				emit("F", f)
				return true
			}
		}
		return false
	}
	atStuck = func(r *world.Result) {
		if f.HasRec {
			adopt(r)
		}
		emit("N", "stuck")
	}
	test := func(plan, sched []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		return adopt(one(t, world.Spec{Seed: f.Seed, Prop: f.Profile, HasRec: true, Plan: plan, Sched: sched}))
	}
	if !f.HasRec {
		r := one(t, world.Spec{Seed: f.Seed, Prop: f.Profile})
		f.HasRec, f.Plan, f.Sched = true, r.Plan, r.Sched
	}
	if !test(f.Plan, f.Sched) {
		emit("N", "not reproduced")
		os.Exit(0)
	}
	cut := func(l []uint32, i, n int) []uint32 {
		return append(append([]uint32(nil), l[:i]...), l[i+n:]...)
	}
	zero := func(l []uint32, i, n int) ([]uint32, bool) {
		c := append([]uint32(nil), l...)
		any := false
		for j := i; j < i+n; j++ {
			any = any || c[j] != 0
			c[j] = 0
		}
		return c, any
	}
	for pass := 0; pass < 6; pass++ {
		before := len(f.Plan) + len(f.Sched)
		changed := false
		// cut off tails
		for n := len(f.Sched); n > 0; n /= 2 {
			for len(f.Sched) >= n && n > 0 && test(f.Plan, f.Sched[:len(f.Sched)-n]) {
				changed = true
			}
		}
		for n := len(f.Sched) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(f.Sched) && time.Now().Before(end); {
				if test(f.Plan, cut(f.Sched, i, n)) {
					changed = true
					continue
				}
				if z, any := zero(f.Sched, i, n); any && test(f.Plan, z) {
					changed = true
				}
				i += n
			}
		}
		for n := len(f.Plan) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(f.Plan) && time.Now().Before(end); {
				if z, any := zero(f.Plan, i, n); any && test(z, f.Sched) {
					changed = true
				} else if test(cut(f.Plan, i, n), f.Sched) {
					changed = true
					continue
				}
				i += n
			}
		}
		if !changed || time.Now().After(end) || (pass > 2 && before == len(f.Plan)+len(f.Sched)) {
			break
		}
	}
	emit("N", fmt.Sprintf("%d candidates", tries))
	os.Exit(0)
}

func trim(l []uint32) []uint32 {
	n := len(l)
	for n > 0 && l[n-1] == 0 {
		n--
	}
	return l[:n]
}
