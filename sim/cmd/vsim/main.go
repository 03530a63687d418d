// Command vsim drives the simulation: it builds the instrumented system from the repository's working
// tree, spreads seeds over worker processes, minimises and confirms what they find, and writes evidence.
//
//	vsim check -prop C05 -tier quick    exit 0: held; 1: VIOLATION line printed; 2: no answer
//	vsim replay -file F                 replays a file; exit 1 if it shows the violation again
//	vsim build                          builds only
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"xtormsim/replay"
)

var (
	root    = flag.String("root", "/verif", "directory of this framework")
	repo    = flag.String("repo", "/repo", "repository under check")
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seconds = flag.Float64("seconds", 0, "exploration time (0: by tier)")
	workers = flag.Int("workers", 0, "worker processes")
	file    = flag.String("file", "", "replay file")
	level   = flag.Int("level", -1, "instrumentation level (testing)")
	all     = flag.Bool("all", false, "report violations of any property (testing)")
)

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	os.Exit(code)
}

type build struct {
	dir    string
	race   bool // with the race detector
	worker string
	level  int
	note   string
	took   time.Duration
}

func (b *build) cmd(name string, arg ...string) *exec.Cmd {
	c := exec.Command(name, arg...)
	c.Dir = filepath.Join(*root, "sim")
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(b.dir, "go.mod"))
	return c
}

// blind are packages the race detector does not see into: they keep their own state behind atomic operations or pools
// that the simulator uses too. Everything else, the code under test first of all, is instrumented.
var blind = strings.Fields(`fmt internal/fmtsort reflect testing math/rand math/rand/v2 internal/chacha8rand time net net/netip os internal/poll syscall
	log encoding/json unicode/utf8 strconv crypto/tls crypto/x509 crypto/rand crypto/ecdsa crypto/ed25519 crypto/internal/fips140/nistec
	crypto/internal/fips140/bigmod crypto/internal/fips140/nistec/fiat crypto/internal/fips140/edwards25519 crypto/internal/fips140/edwards25519/field
	crypto/internal/fips140/drbg crypto/internal/fips140/mlkem`)

// test compiles the worker.
func (b *build) test(overlay string) ([]byte, error) {
	arg := []string{"test", "-vet=off", "-overlay", overlay, "-c", "-o", b.worker}
	if b.race {
		arg = append(arg, "-race")
		for _, p := range append(append([]string(nil), blind...), "google.golang.org/...", "xtormsim/...") {
			arg = append(arg, "-gcflags="+p+"=-race=false")
		}
		arg = append(arg, "-gcflags=xtormsim/mark=-race")
	}
	c := b.cmd("go", append(arg, "./worker")...)
	if b.race {
		// the allocator's special cases in packages without instrumentation would not tell the race detector about new memory
		c.Env = append(c.Env, "GOEXPERIMENT=nosizespecializedmalloc,noruntimefreegc")
	}
	return c.CombinedOutput()
}

// env is the environment of a worker process.
func (b *build) env() []string {
	e := append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=1536MiB", "GOTRACEBACK=all", "GODEBUG=asyncpreemptoff=1")
	if b.race {
		log := filepath.Join(b.dir, "race")
		e = append(e, "VSIM_RACE_LOG="+log, "VSIM_BLIND="+strings.Join(blind, " "),
			"GORACE=log_path="+log+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4")
	}
	return e
}

func copyFile(dst, src string) error {
	in, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, in, 0o644)
}

func mkBuild(name, prop string) *build {
	start := time.Now()
	b := &build{dir: filepath.Join(*root, ".build", name), race: prop == "C22"}
	os.RemoveAll(b.dir)
	if err := os.MkdirAll(b.dir, 0o755); err != nil {
		die(2, "%v", err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(b.dir, f), filepath.Join(*root, "sim", f)); err != nil {
			die(2, "%v", err)
		}
	}
	if *repo != "/repo" {
		for _, m := range [][2]string{{"github.com/renthraysk/xtorm", *repo}, {"github.com/renthraysk/xtorm/protobuf", *repo + "/protobuf"}} {
			if o, err := exec.Command("go", "mod", "edit", "-replace="+m[0]+"="+m[1], filepath.Join(b.dir, "go.mod")).CombinedOutput(); err != nil {
				die(2, "%v %s", err, o)
			}
		}
	}
	inst := filepath.Join(b.dir, "instrument")
	if o, err := b.cmd("go", "build", "-o", inst, "./cmd/instrument").CombinedOutput(); err != nil {
		die(2, "building the instrumenter: %v\n%s", err, o)
	}
	levels := []int{2, 1, 0}
	if *level >= 0 {
		levels = []int{*level}
	}
	var last string
	for _, l := range levels {
		ov := filepath.Join(b.dir, fmt.Sprintf("ov%d", l))
		o, err := b.cmd(inst, "-repo", *repo, "-level", strconv.Itoa(l), "-out", ov).CombinedOutput()
		if err == nil {
			b.note = strings.TrimSpace(string(o))
			b.worker = filepath.Join(b.dir, "worker.test")
			o, err = b.test(filepath.Join(ov, "overlay.json"))
			if err == nil {
				b.level = l
				b.took = time.Since(start)
				return b
			}
		}
		last = string(o)
		fmt.Fprintf(os.Stderr, "vsim: instrumentation level %d does not build, trying a lower one\n", l)
	}
	die(2, "building the simulation from %s failed:\n%s", *repo, last)
	return nil
}

// ---- worker processes ----

type run struct {
	mu       sync.Mutex
	prop     string
	b        *build
	stop     context.CancelFunc
	ctx      context.Context
	runs     int
	evals    int
	nontriv  int
	steps    int64
	yields   int64
	sim      float64
	seen     map[uint64]struct{}
	hashes   map[uint64]struct{}
	faults   map[string]int
	faultRun int
	probes   map[string]int
	twice    int
	diff     []uint64
	samples  []any
	cands    []cand
	restarts int
	crashes  []string
	other    map[string]int
}

type cand struct {
	seed uint64
	v    replay.Violation
	kind string // "", "crash", "hang"
	log  string
}

func (r *run) found(c cand) {
	r.mu.Lock()
	r.cands = append(r.cands, c)
	r.mu.Unlock()
	r.stop()
}

func (r *run) line(l *replay.Line) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.runs++
	e := l.Evals[r.prop]
	r.evals += e
	r.steps += int64(l.Steps)
	r.yields += int64(l.Yields)
	r.sim += l.Sim
	r.hashes[l.Hash] = struct{}{}
	if e > 0 {
		r.nontriv++
		r.seen[l.Switch] = struct{}{}
		if len(r.samples) < 3 || (len(r.samples) < 8 && r.runs%1009 == 0) {
			r.samples = append(r.samples, map[string]any{"seed": l.Seed, "run": l.Desc, "steps": l.Steps, "scheduling_points": l.Yields,
				"simulated_s": l.Sim, "oracle_evaluations": e, "hash": fmt.Sprintf("%016x", l.Hash)})
		}
	}
	nf := 0
	for k, n := range l.Faults {
		r.faults[k] += n
		nf += n
	}
	if nf > 0 {
		r.faultRun++
	}
	for k, n := range l.Probes {
		r.probes[k] += n
	}
	if l.Twice {
		r.twice++
		if !l.Same {
			r.diff = append(r.diff, l.Seed)
		}
	}
}

// worker explores seeds seed, seed+stride, ... until the context ends.
func (r *run) worker(seed, stride uint64, end time.Time) {
	for r.ctx.Err() == nil && time.Now().Before(end) {
		next, code, cur, log, hang := r.process(seed, stride, time.Until(end))
		if r.ctx.Err() != nil || (code == 0 && !hang) {
			return
		}
		r.mu.Lock()
		r.restarts++
		many := r.restarts > 20000
		r.mu.Unlock()
		if many {
			return
		}
		if code != 3 || hang {
			kind := "crash"
			if hang {
				kind = "hang"
			}
			r.dead(cur, kind, log)
		}
		seed = next
	}
}

func (r *run) process(seed, stride uint64, left time.Duration) (next uint64, code int, cur uint64, log string, hang bool) {
	c := exec.CommandContext(r.ctx, r.b.worker, "-test.run", "TestWorker", "-test.timeout", "0", "-mode", "run", "-prop", r.prop,
		"-seed0", fmt.Sprint(seed), "-stride", fmt.Sprint(stride), "-seconds", fmt.Sprintf("%.1f", left.Seconds()), "-again", "25")
	c.Env = r.b.env()
	c.Dir = r.b.dir
	var errb tail
	c.Stderr = &errb
	o, err := c.StdoutPipe()
	if err != nil {
		die(2, "%v", err)
	}
	if err := c.Start(); err != nil {
		die(2, "%v", err)
	}
	beat := make(chan struct{}, 1)
	done := make(chan struct{})
	hung := make(chan struct{})
	go func() {
		t := time.NewTimer(hangAfter)
		defer t.Stop()
		for {
			select {
			case <-beat:
				t.Reset(hangAfter)
			case <-t.C:
				close(hung)
				c.Process.Kill()
				return
			case <-done:
				return
			}
		}
	}()
	cur, next = seed, seed
	sc := bufio.NewScanner(o)
	sc.Buffer(make([]byte, 1<<16), 64<<20)
	for sc.Scan() {
		select {
		case beat <- struct{}{}:
		default:
		}
		b := sc.Bytes()
		if len(b) < 3 || b[0] != '@' {
			continue
		}
		switch b[1] {
		case 'S':
			cur, _ = strconv.ParseUint(string(b[3:]), 10, 64)
			next = cur + stride
		case 'V':
			var v replay.Violation
			if json.Unmarshal(b[3:], &v) == nil {
				if v.Prop == r.prop || *all {
					r.found(cand{seed: cur, v: v})
				} else {
					r.mu.Lock()
					r.other[v.Prop+" "+v.Kind]++
					r.mu.Unlock()
				}
			}
		case 'R':
			l := new(replay.Line)
			if json.Unmarshal(b[3:], l) == nil {
				r.line(l)
			}
		}
	}
	close(done)
	err = c.Wait()
	select {
	case <-hung:
		hang = true
	default:
	}
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	} else if err != nil {
		code = -1
	}
	return next, code, cur, errb.String(), hang
}

const hangAfter = 60 * time.Second

// tail keeps the beginning of what is written to it.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if n := 1<<16 - t.b.Len(); n > 0 {
		t.b.Write(p[:min(n, len(p))])
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

var lethal = map[string]string{
	"C12": "no call panics, whatever the server sends",
	"C13": "every send returns once faults have stopped",
	"C07": "closing is safe with sends in flight",
}

// dead deals with a worker process that died or hung in a run.
func (r *run) dead(seed uint64, kind, log string) {
	r.mu.Lock()
	r.crashes = append(r.crashes, fmt.Sprintf("%s at seed %d: %s", kind, seed, first(log)))
	n := len(r.crashes)
	r.mu.Unlock()
	if lethal[r.prop] == "" || n > 10 || strings.Contains(log, "harness panic") {
		return
	}
	f := &replay.File{Prop: r.prop, Seed: seed, Profile: r.prop}
	_, log2, again := r.b.single(f, fmt.Sprintf("dead%d.json", seed), 90*time.Second)
	if again != kind || strings.Contains(log2, "harness panic") {
		return
	}
	if kind == "crash" && !strings.Contains(log2, "panic:") && !strings.Contains(log2, "fatal error:") {
		return
	}
	r.found(cand{seed: seed, kind: kind, log: log2, v: replay.Violation{Prop: r.prop, Kind: "process " + kind,
		Msg: fmt.Sprintf("the process under simulation ends in a %s, twice for the same seed: %s", kind, first(log2))}})
}

func first(log string) string {
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return strings.SplitN(strings.TrimSpace(log), "\n", 2)[0]
}

// single runs one replay file in a process of its own.
func (b *build) single(f *replay.File, name string, limit time.Duration) (res *replay.File, log, end string) {
	path := filepath.Join(b.dir, name)
	if err := f.Write(path); err != nil {
		die(2, "%v", err)
	}
	return b.singleFile(path, limit)
}

func (b *build) singleFile(path string, limit time.Duration) (res *replay.File, log, end string) {
	l, log, end := b.lines(limit, "-mode", "one", "-file", path)
	for _, s := range l {
		if strings.HasPrefix(s, "@F ") {
			f := new(replay.File)
			if json.Unmarshal([]byte(s[3:]), f) == nil {
				res = f
			}
		}
	}
	for _, s := range l {
		if strings.HasPrefix(s, "@V ") && res != nil {
			var v replay.Violation
			if json.Unmarshal([]byte(s[3:]), &v) == nil {
				res.Seen = append(res.Seen, v)
			}
		}
	}
	return res, log, end
}

func (b *build) lines(limit time.Duration, arg ...string) (l []string, log, end string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, b.worker, append([]string{"-test.run", "TestWorker", "-test.timeout", "0"}, arg...)...)
	c.Env = b.env()
	c.Dir = b.dir
	var o bytes.Buffer
	var e tail
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	if ctx.Err() != nil {
		end = "hang"
	} else if x, ok := err.(*exec.ExitError); ok && x.ExitCode() != 3 {
		end = "crash"
	}
	sc := bufio.NewScanner(&o)
	sc.Buffer(make([]byte, 1<<16), 256<<20)
	for sc.Scan() {
		l = append(l, sc.Text())
	}
	return l, e.String(), end
}

// minimise shrinks a failing run and confirms the result in a fresh process.
func (b *build) minimise(c cand, profile string, limit time.Duration) (*replay.File, bool) {
	f := &replay.File{Prop: c.v.Prop, Kind: c.v.Kind, Msg: c.v.Msg, Seed: c.seed, Profile: profile}
	if c.kind != "" {
		f.Shrunk = "not minimised: the process does not survive the run"
		f.Trace = strings.Split(c.log, "\n")
		return f, true
	}
	shows := func(g *replay.File, hash string) *replay.File {
		for i := 0; i < 3; i++ {
			h, _, _ := b.single(g, "confirm.json", 60*time.Second)
			if h == nil {
				continue
			}
			for _, v := range h.Seen {
				if v.Prop == f.Prop && v.Kind == f.Kind && (hash == "" || h.Hash == hash) {
					h.Msg, h.Seen = v.Msg, nil
					return h
				}
			}
		}
		return nil
	}
	plain := shows(f, "")
	if plain == nil {
		return f, false
	}
	path := filepath.Join(b.dir, "shrink.json")
	best := (*replay.File)(nil)
	cur := plain
	end := time.Now().Add(limit)
	for n := 0; n < 50 && time.Until(end) > time.Second; n++ {
		cur.Trace = nil
		if err := cur.Write(path); err != nil {
			die(2, "%v", err)
		}
		l, _, _ := b.lines(time.Until(end)+20*time.Second, "-mode", "shrink", "-file", path, "-seconds", fmt.Sprintf("%.1f", time.Until(end).Seconds()))
		again := false
		var note string
		for _, s := range l {
			if strings.HasPrefix(s, "@F ") {
				g := new(replay.File)
				if json.Unmarshal([]byte(s[3:]), g) == nil {
					best, again = g, true
				}
			}
			if strings.HasPrefix(s, "@N ") {
				note = s[3:]
			}
		}
		if note != `"stuck"` || !again {
			break
		}
		cur = best
	}
	size := func(g *replay.File) string { return fmt.Sprintf("%d choices", len(g.Plan)+len(g.Sched)) }
	if best != nil {
		if g := shows(best, best.Hash); g != nil {
			g.Shrunk = fmt.Sprintf("from %s to %s", size(plain), size(g))
			g.Steps = best.Steps
			return g, true
		}
	}
	return plain, true
}

// ---- known findings ----

type finding struct{ prop, id, text string }

func findings() (l []finding) {
	b, err := os.ReadFile(filepath.Join(*root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		// known: property=C08 KF1 text
		if !strings.HasPrefix(s, "known: property=") {
			continue
		}
		w := strings.SplitN(strings.TrimPrefix(s, "known: property="), " ", 3)
		if len(w) == 3 {
			l = append(l, finding{w[0], w[1], w[2]})
		}
	}
	return l
}

var scenarios = map[string][]string{"C08": {"KF1"}, "C13": {"KF2"}}

func replayPath(prop, kind string, seed uint64) string {
	dir := filepath.Join(*root, "replays")
	os.MkdirAll(dir, 0o755)
	return filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, seed))
}

func main() {
	mode := ""
	if len(os.Args) > 1 {
		mode = os.Args[1]
		flag.CommandLine.Parse(os.Args[2:])
	}
	switch mode {
	case "check":
		check()
	case "replay":
		doReplay()
	case "build":
		b := mkBuild("setup", "")
		fmt.Printf("built in %.1fs: %s\n", b.took.Seconds(), b.note)
	default:
		die(2, "usage: vsim check|replay|build")
	}
}

func doReplay() {
	f, err := replay.Read(*file)
	if err != nil {
		die(2, "%v", err)
	}
	b := mkBuild("replay", f.Prop)
	abs, _ := filepath.Abs(*file)
	g, log, end := b.singleFile(abs, 90*time.Second)
	if end != "" {
		fmt.Printf("the process ended in a %s: %s\n", end, first(log))
		if f.Kind == "process "+end {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, abs)
			os.Exit(1)
		}
		os.Exit(2)
	}
	if g == nil {
		die(2, "no result: %s", log)
	}
	for _, l := range g.Trace {
		fmt.Println(l)
	}
	for _, v := range g.Seen {
		if v.Prop == f.Prop && v.Kind == f.Kind {
			same := "the same execution"
			if g.Hash != f.Hash {
				same = "a different execution: the code has changed since"
			}
			fmt.Printf("%s: %s\nhash %s (%s)\nVIOLATION property=%s replay=%s\n", v.Kind, v.Msg, g.Hash, same, f.Prop, abs)
			os.Exit(1)
		}
	}
	fmt.Printf("replayed, hash %s: the violation does not occur\n", g.Hash)
}

func check() {
	start := time.Now()
	if *prop == "" {
		die(2, "-prop missing")
	}
	vseed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		vseed = 1
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seconds == 0 {
		if s, err := strconv.ParseFloat(os.Getenv("VSIM_SECONDS"), 64); err == nil && s > 0 {
			*seconds = s
		} else if *tier == "thorough" {
			*seconds = 660
		} else {
			*seconds = 60
		}
	}
	if *workers == 0 {
		*workers = max(1, min(runtime.NumCPU(), 32))
	}
	b := mkBuild(*prop, *prop)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s", vseed, *prop)
	base := h.Sum64() >> 8 << 4 // room for consecutive seeds
	r := &run{prop: *prop, b: b, seen: map[uint64]struct{}{}, hashes: map[uint64]struct{}{}, faults: map[string]int{}, probes: map[string]int{}, other: map[string]int{}, crashes: []string{}}

	// recorded findings
	known := []string{}
	viol := 0
	list := findings()
	for _, id := range scenarios[*prop] {
		f := &replay.File{Prop: *prop, Kind: id, Seed: 1, Profile: id}
		g, log, end := b.single(f, id+".json", 60*time.Second)
		if g == nil {
			fmt.Fprintf(os.Stderr, "vsim: scenario %s gave no result (%s): %s\n", id, end, first(log))
			continue
		}
		for _, v := range g.Seen {
			if v.Prop != *prop || v.Kind != id {
				continue
			}
			text := ""
			for _, k := range list {
				if k.prop == *prop && k.id == id {
					text = k.text
				}
			}
			if text != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", *prop, id, text)
				known = append(known, id+": "+v.Msg)
				continue
			}
			g.Msg, g.Seen = v.Msg, nil
			p := replayPath(*prop, id, 1)
			g.Write(p)
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", v.Msg, *prop, p)
			viol++
		}
	}

	explore := time.Now()
	end := explore.Add(time.Duration(*seconds * float64(time.Second)))
	unconfirmed := []string{}
	seed := base
	for viol == 0 && time.Now().Before(end) {
		r.ctx, r.stop = context.WithCancel(context.Background())
		var wg sync.WaitGroup
		for i := 0; i < *workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r.worker(seed+uint64(i), uint64(*workers), end)
			}(i)
		}
		wg.Wait()
		r.stop()
		if len(r.cands) == 0 {
			break
		}
		// the smallest seed found first
		cands := r.cands
		r.cands = nil
		sort.SliceStable(cands, func(i, j int) bool { return cands[i].seed < cands[j].seed })
		for i, c := range cands {
			if i > 3 {
				break
			}
			f, ok := b.minimise(c, *prop, 20*time.Second)
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("seed %d: %s: %s", c.seed, c.v.Kind, c.v.Msg))
				if len(unconfirmed) < 6 || b.race {
					continue
				}
				f.Shrunk = "not minimised: the run differs from process to process"
			}
			p := replayPath(c.v.Prop, f.Kind, c.seed)
			if err := f.Write(p); err != nil {
				die(2, "%v", err)
			}
			fmt.Printf("%s: %s\n", f.Kind, f.Msg)
			if f.Shrunk != "" {
				fmt.Printf("seed %d, minimised %s\n", f.Seed, f.Shrunk)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.v.Prop, p)
			viol++
			break
		}
		seed += 1 << 40
	}
	took := time.Since(explore)
	if viol == 0 && r.runs == 0 {
		die(2, "no run completed: %v", r.crashes)
	}
	if len(r.diff) > 0 {
		fmt.Fprintf(os.Stderr, "vsim: %d of %d runs differed when repeated, e.g. seed %d\n", len(r.diff), r.twice, r.diff[0])
	}
	for _, c := range r.crashes[:min(3, len(r.crashes))] {
		fmt.Fprintln(os.Stderr, "vsim:", c)
	}
	r.evidence(vseed, base, viol, known, unconfirmed, took, time.Since(start))
	fmt.Printf("%s %s: %d runs, %d distinct interleavings, %d oracle evaluations, %.0f simulated s, %d violations, %.1f s\n",
		*prop, *tier, r.runs, len(r.seen), r.evals, r.sim, viol, time.Since(start).Seconds())
	if viol > 0 {
		os.Exit(1)
	}
}

func (r *run) evidence(vseed int64, base uint64, viol int, known, unconfirmed []string, took, wall time.Duration) {
	perHour := 0.0
	if took > 0 {
		perHour = float64(r.runs) / took.Hours()
	}
	if r.samples == nil {
		r.samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         r.runs,
		"distinct_nontrivial": len(r.seen),
		"rule": "One case is one simulated run: a seed draws the workload (clients, builder programs, contexts, transport, mechanism, pool size), every scheduling decision, " +
			"delivery, segmentation and fault. Non-trivial: this property's oracle was evaluated at least once in the run. Distinct: by the hash of the sequence of scheduling decisions " +
			"(which task ran, at which source location it was preempted or blocked, which bytes were delivered).",
		"samples":                        r.samples,
		"oracle_evaluations":             r.evals,
		"runs_with_oracle_evaluated":     r.nontriv,
		"runs_with_faults":               r.faultRun,
		"distinct_histories":             len(r.hashes),
		"runs_per_hour":                  int(perHour),
		"seeds":                          fmt.Sprintf("from %d in steps of 1 over %d processes (VERIF_SEED=%d)", base, *workers, vseed),
		"simulated_seconds":              r.sim,
		"scheduler_steps":                r.steps,
		"scheduling_points":              r.yields,
		"faults_injected":                r.faults,
		"situations_reached":             r.probes,
		"determinism":                    map[string]any{"runs_executed_three_times": r.twice, "differing": len(r.diff)},
		"instrumentation":                r.b.note,
		"violations_of_other_properties": r.other,
		"known_findings":                 known,
		"unconfirmed":                    unconfirmed,
		"worker_restarts":                r.restarts,
		"worker_crashes":                 r.crashes,
		"components": map[string]any{
			"real": "all packages of the root module compiled from the working tree (builder, xproto encoders, netx/connection, netx/connector, authentication mechanisms, netx/pool/fifoch, slice), crypto/tls on both ends, context, bufio, generated protobuf packages",
			"stub": "net.Dialer/TCPConn/UnixConn (simulated network), package sync and channel scheduling (cooperative, seeded), clock (testing/synctest), crypto/rand (seeded), MySQL server (model: sessions, authentication, expectations, transactions, durable log)",
		},
	}
	e := map[string]any{"property": r.prop, "tier": *tier, "seed": vseed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"code between two statements runs without preemption; data races inside one statement are not explored",
			"the simulated network is a reliable ordered byte stream per connection that may stall, split, end or break at any byte, as TCP and Unix sockets are",
			"the server model follows the X Protocol documentation (expectation blocks, one final message per command)",
			"absence of a violation holds for the explored runs only",
		}}
	if r.b.race {
		e["assumptions"].([]string)[0] = "the race detector keeps the last few accesses to a word: a race whose accesses lie far apart may be missed, none is invented"
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		die(2, "%v", err)
	}
	dir := filepath.Join(*root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
}

var _ = io.EOF
