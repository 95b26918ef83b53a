package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type vioJSON struct {
	Section string   `json:"section"`
	Case    string   `json:"case"`
	Msg     string   `json:"msg"`
	Kind    string   `json:"kind"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
	Race    bool     `json:"race"`
}

type reportJSON struct {
	Section     string    `json:"section"`
	Shard       int       `json:"shard"`
	States      int64     `json:"states"`
	Transitions int64     `json:"transitions"`
	Traces      int64     `json:"traces"`
	Complete    int64     `json:"complete"`
	Samples     []string  `json:"samples"`
	Bounds      []string  `json:"bounds"`
	Exhaustive  bool      `json:"exhaustive"`
	Violations  []vioJSON `json:"violations"`
	WallS       float64   `json:"wall_s"`
	Note        string    `json:"note,omitempty"`
	Outcomes    int       `json:"outcomes"`
	MaxDepth    int       `json:"max_depth"`
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var progressCtr int64

// watchdog ends a process whose running thread never reaches a scheduling
// point again.
func watchdog(stuck func(why string)) {
	last, since, cpu0 := int64(-1), time.Now(), cpuTime()
	for {
		time.Sleep(200 * time.Millisecond)
		n := atomic.LoadInt64(&progressCtr)
		if n != last {
			last, since, cpu0 = n, time.Now(), cpuTime()
			continue
		}
		if cpuTime()-cpu0 > 20*time.Second {
			stuck("hang")
		}
		if time.Since(since) > 60*time.Second && cpuTime()-cpu0 < time.Second {
			stuck("blocked")
		}
	}
}

// Main explores the scenario that the command line names.
func Main(mk func(thorough bool) []*Scenario) {
	list := flag.Bool("list", false, "")
	run := flag.String("run", "", "")
	out := flag.String("out", "/dev/stdout", "")
	tier := flag.String("tier", "quick", "")
	secs := flag.Float64("seconds", 60, "")
	bound := flag.Int("bound", -1, "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	debug.SetGCPercent(400)
	scs := mk(*tier == "thorough")
	if *list {
		type row struct {
			Name string `json:"name"`
		}
		var rows []row
		for _, s := range scs {
			rows = append(rows, row{s.Name})
		}
		b, _ := json.Marshal(rows)
		fmt.Println(string(b))
		return
	}
	var sc *Scenario
	for _, s := range scs {
		if s.Name == *run {
			sc = s
		}
	}
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no such scenario")
		os.Exit(2)
	}
	start := time.Now()
	rep := &reportJSON{Section: sc.Name, Samples: []string{}, Bounds: []string{}, Violations: []vioJSON{}}
	finish := func() {
		rep.WallS = time.Since(start).Seconds()
		b, _ := json.Marshal(rep)
		os.WriteFile(*out, b, 0644)
	}
	addVio := func(v *Violation, choices []int, trace []string) {
		cs := make([]string, len(choices))
		for i, c := range choices {
			cs[i] = strconv.Itoa(c)
		}
		rep.Violations = append(rep.Violations, vioJSON{Section: sc.Name, Case: v.Kind + ":" + firstLine(v.Msg), Msg: v.Msg, Kind: v.Kind, Choices: choices, Trace: trace, Race: raceOn})
	}
	cfg := &Config{MaxSteps: 4000, Bound: *bound}
	end := start.Add(time.Duration(*secs * float64(time.Second)))
	limit := end
	cfg.Split = func(n int) {
		limit = end
		if n > 1 {
			limit = time.Now().Add(time.Until(end) * 4 / 10)
		}
	}
	var ms runtime.MemStats
	n := 0
	cfg.Deadline = func() bool {
		n++
		if n&0x3ff == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2500<<20 {
				return true
			}
		}
		return n&0xf == 0 && time.Now().After(limit)
	}
	go watchdog(func(why string) {
		if why == "blocked" {
			rep.Note = "no answer: a thread blocks outside of the controlled scheduler"
			rep.Bounds = append(rep.Bounds, "aborted")
			finish()
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(0)
		}
		var ch []int
		if s := sch; s != nil {
			ch = s.currentChoices()
			if s.replay {
				ch = s.choices
			}
		}
		addVio(&Violation{"hang", "a thread computes for ever without reaching a scheduling point"}, ch, nil)
		finish()
		os.Exit(0)
	})
	if *replay != "" {
		var choices []int
		if *replay != "-" {
			for _, f := range strings.Split(*replay, ",") {
				x, _ := strconv.Atoi(f)
				choices = append(choices, x)
			}
		}
		r := Replay(sc, cfg, choices, &progressCtr)
		if r.Vio != nil {
			addVio(r.Vio, choices, r.Trace)
		}
		rep.Samples = r.Trace
		rep.Note = r.Diverged
		finish()
		return
	}
	if pf := os.Getenv("MC_PROFILE"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
	}
	r := Explore(sc, cfg, &progressCtr)
	pprof.StopCPUProfile()
	st := &r.Stats
	rep.States, rep.Transitions, rep.Traces, rep.Complete = st.States, st.Steps, st.Execs, st.Complete
	if n := len(st.Bounds); n > 1 {
		st.Bounds = []string{st.Bounds[n-2] + ", " + st.Bounds[n-1]}
	}
	rep.Bounds, rep.Exhaustive, rep.Outcomes, rep.MaxDepth = st.Bounds, st.Exhaustive, len(st.Outcomes), st.MaxDepth
	if r.Diverged != "" {
		rep.Note = r.Diverged
	}
	if r.Vio != nil {
		addVio(r.Vio, r.Choices, nil)
		if r.Vio.Kind != "datarace" {
			rr := Replay(sc, cfg, r.Choices, &progressCtr)
			rep.Violations[0].Trace = rr.Trace
			if rr.Vio == nil || rr.Vio.Kind != r.Vio.Kind {
				rep.Note = "the replay did not confirm the violation: " + rr.Diverged
				rep.Violations = nil
			}
		}
	} else {
		for o := range st.Outcomes {
			if o != "" && len(rep.Samples) < 2 {
				if len(o) > 160 {
					o = o[:160]
				}
				rep.Samples = append(rep.Samples, sc.Name+": "+o)
			}
		}
	}
	finish()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
