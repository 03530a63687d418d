//go:build race

package worker

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"

	"xtormsim/simrt"
	"xtormsim/world"
)

var (
	raceN   int
	racePos int64
)

// races returns the data races the run just finished has shown.
func races() (l []world.Violation) {
	n := runtime.RaceErrors()
	if n == raceN {
		return nil
	}
	valid := simrt.Races - raceN
	raceN = n
	name := fmt.Sprintf("%s.%d", os.Getenv("VSIM_RACE_LOG"), os.Getpid())
	f, err := os.Open(name)
	if err != nil {
		return nil
	}
	defer f.Close()
	b, err := io.ReadAll(io.NewSectionReader(f, racePos, 64<<20))
	if err != nil {
		return nil
	}
	text := string(b)
	racePos += int64(len(b))
	seen := map[string]bool{}
	for i, r := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if i >= valid {
			break
		}
		var at []string
		isMap := false
		for _, s := range strings.Split(r, "\n\n") {
			h, body, _ := strings.Cut(strings.TrimSpace(s), "\n")
			k := strings.ToLower(h)
			if !strings.Contains(k, "read at 0x") && !strings.Contains(k, "write at 0x") {
				continue
			}
			where, m := place(body)
			isMap = isMap || m
			at = append(at, strings.Join(strings.Fields(strings.SplitN(h, " at ", 2)[0]), " ")+" in "+where)
			if where == "" {
				at = nil
				break
			}
		}
		if len(at) != 2 || seen[at[0]+at[1]] {
			continue
		}
		seen[at[0]+at[1]] = true
		kind := "race"
		if isMap {
			kind = "race on a map"
		}
		l = append(l, world.Violation{Prop: "C22", Kind: kind, Msg: fmt.Sprintf("two calls access the same memory and nothing orders them: %s; %s", at[0], at[1])})
	}
	return l
}

// place finds the function of the code under test that made an access; none if it was not its doing.
func place(body string) (where string, isMap bool) {
	lines := strings.Split(body, "\n")
	data := false // the simulated network touching bytes the code under test gave it
	for i := 0; i+1 < len(lines); i += 2 {
		f := strings.TrimSpace(lines[i])
		first, _, _ := strings.Cut(f, "/")
		switch {
		case strings.HasPrefix(f, "runtime.map"):
			isMap = true
		case strings.HasPrefix(f, "xtormsim/simrt.ReadRange"), strings.HasPrefix(f, "xtormsim/simrt.WriteRange"):
			data = true
		case strings.HasPrefix(f, "xtormsim/mark."):
			if !data {
				return "", false
			}
		case strings.HasPrefix(f, "github.com/renthraysk/xtorm"):
			file, _, _ := strings.Cut(strings.TrimSpace(lines[i+1]), " ")
			return f + " " + file, isMap
		case strings.HasPrefix(f, "runtime."), strings.HasPrefix(f, "xtormsim/simrt."):
		case data:
		case strings.HasPrefix(f, "xtormsim/"), strings.Contains(first, ".") && strings.Contains(f, "/"), blind[pkg(f)]:
			return "", false
		}
	}
	return "", false
}

// blind are the packages of the standard library compiled without instrumentation: what is seen of them is only what the
// runtime reports of maps and slices, not how they synchronise.
var blind = func() map[string]bool {
	m := map[string]bool{}
	for _, p := range strings.Fields(os.Getenv("VSIM_BLIND")) {
		m[p] = true
	}
	return m
}()

// pkg is the package of a function in a report.
func pkg(f string) string {
	i := strings.LastIndex(f, "/") + 1
	if j := strings.IndexByte(f[i:], '.'); j >= 0 {
		return f[:i+j]
	}
	return f
}
