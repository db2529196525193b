package main

// vharness searches for concrete inputs of /repo's code that break a property.
// It is a bounded stand-in and a replayer: nothing it reports counts as proved.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"time"
)

type section struct {
	name  string
	props []string
	// run returns "" when the case passes, and the failing case otherwise.
	run func(r *rand.Rand, idx int, st *stats) string
}

type stats struct {
	nontrivial int
	sample     string
}

var sections []section

func sec(name string, run func(*rand.Rand, int, *stats) string, props ...string) {
	sections = append(sections, section{name, props, run})
}

type failure struct {
	Property string `json:"property"`
	Section  string `json:"section"`
	Seed     int64  `json:"seed"`
	Index    int    `json:"index"`
	Failing  string `json:"failing_case"`
	Replay   string `json:"replay_cmd"`
}

type report struct {
	Property   string         `json:"property"`
	Seed       int64          `json:"seed"`
	Cases      int            `json:"cases"`
	Nontrivial int            `json:"nontrivial"`
	BySection  map[string]int `json:"by_section"`
	Samples    []string       `json:"samples"`
	Wall       float64        `json:"wall_s"`
	Fail       *failure       `json:"fail,omitempty"`
	Known      []string       `json:"known,omitempty"`
}

func rng(seed int64, name string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, name, idx)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func runCase(s *section, seed int64, idx int, st *stats) (fail string) {
	defer func() {
		if p := recover(); p != nil {
			fail = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return s.run(rng(seed, s.name, idx), idx, st)
}

// runCaseT bounds the time and the memory of one case: code that no longer
// terminates is reported.
func runCaseT(s *section, seed int64, idx int, st *stats) string {
	ch := make(chan string, 1)
	go func() { ch <- runCase(s, seed, idx, st) }()
	for i := 0; i < 80; i++ {
		select {
		case f := <-ch:
			return f
		case <-time.After(500 * time.Millisecond):
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				return "the code under test used over 3 GB of memory"
			}
		}
	}
	return "the code under test did not return within 40 s"
}

func main() {
	if m := os.Getenv("VH_SOLVER"); m != "" {
		fakeSolver(m)
		return
	}
	prop := flag.String("prop", "", "property id")
	budget := flag.Float64("budget", 10, "seconds")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "report file")
	rs := flag.String("section", "", "replay: section")
	ri := flag.Int("idx", -1, "replay: index")
	worker := flag.Int("worker", -1, "internal")
	nproc := flag.Int("nproc", 6, "processes")
	known := flag.Bool("known", false, "demonstrate the recorded findings of the property")
	flag.Parse()
	debug.SetGCPercent(400)
	defer cleanup()
	rep := report{Property: *prop, Seed: *seed, BySection: map[string]int{}}
	if *known {
		for _, k := range knownFindings {
			if k.prop == *prop {
				if msg := k.run(); msg != "" {
					fmt.Printf("KNOWN %s: %s\n", k.id, msg)
					rep.Known = append(rep.Known, k.id)
				}
			}
		}
		return
	}
	if *rs != "" {
		for i := range sections {
			if sections[i].name == *rs {
				f := runCaseT(&sections[i], *seed, *ri, &stats{})
				if f != "" {
					fmt.Println("FAILS:", f)
					cleanup()
					os.Exit(1)
				}
				fmt.Println("passes")
				return
			}
		}
		fmt.Println("unknown section")
		os.Exit(2)
	}
	start := time.Now()
	if *worker < 0 {
		os.Exit(parent(*prop, *budget, *seed, *out, *nproc, &rep, start))
	}
	var mine []*section
	for i := range sections {
		for _, p := range sections[i].props {
			if p == *prop {
				mine = append(mine, &sections[i])
			}
		}
	}
	var st stats
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
loop:
	for i := *worker; len(mine) > 0; i += *nproc {
		for _, s := range mine {
			if time.Now().After(deadline) {
				break loop
			}
			rep.Cases++
			rep.BySection[s.name]++
			f := runCaseT(s, *seed, i, &st)
			if st.sample != "" && len(rep.Samples) < 4 {
				rep.Samples = append(rep.Samples, s.name+": "+st.sample)
			}
			st.sample = ""
			if f != "" {
				rep.Fail = &failure{*prop, s.name, *seed, i, f,
					fmt.Sprintf("cd /verif && ./check.sh replay %s %d %d", s.name, *seed, i)}
				break loop
			}
		}
	}
	rep.Nontrivial = st.nontrivial
	rep.Wall = time.Since(start).Seconds()
	writeReport(&rep, *out)
	cleanup()
	if rep.Fail != nil {
		os.Exit(1)
	}
}

func writeReport(rep *report, out string) {
	b, _ := json.MarshalIndent(rep, "", " ")
	if out != "" {
		os.WriteFile(out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// parent runs the workers in processes of their own, so that neither a crash
// of the code under test nor its global state can disturb another worker.
func parent(prop string, budget float64, seed int64, out string, n int, rep *report, start time.Time) int {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := scratchDir()
	defer cleanup()
	type res struct {
		w   int
		err error
		msg string
	}
	ch := make(chan res)
	for w := 0; w < n; w++ {
		go func(w int) {
			cmd := exec.Command(self, "-prop", prop, "-budget", fmt.Sprint(budget), "-seed", fmt.Sprint(seed),
				"-worker", fmt.Sprint(w), "-nproc", fmt.Sprint(n), "-out", fmt.Sprintf("%s/w%d.json", dir, w))
			o, err := cmd.CombinedOutput()
			if len(o) > 3000 {
				o = o[:3000]
			}
			ch <- res{w, err, string(o)}
		}(w)
	}
	for i := 0; i < n; i++ {
		r := <-ch
		b, err := os.ReadFile(fmt.Sprintf("%s/w%d.json", dir, r.w))
		var c report
		if err != nil || json.Unmarshal(b, &c) != nil {
			if rep.Fail == nil {
				rep.Fail = &failure{prop, "process", seed, r.w, fmt.Sprintf("the process running the code under test died: %v\n%s", r.err, r.msg),
					fmt.Sprintf("cd /verif && ./check.sh %s", prop)}
			}
			continue
		}
		rep.Cases += c.Cases
		rep.Nontrivial += c.Nontrivial
		for k, v := range c.BySection {
			rep.BySection[k] += v
		}
		if len(rep.Samples) < 8 {
			rep.Samples = append(rep.Samples, c.Samples...)
		}
		if c.Fail != nil && (rep.Fail == nil || rep.Fail.Section == "process" || c.Fail.Index < rep.Fail.Index) {
			rep.Fail = c.Fail
		}
	}
	rep.Wall = time.Since(start).Seconds()
	writeReport(rep, out)
	cleanup()
	if rep.Fail != nil {
		return 1
	}
	return 0
}
