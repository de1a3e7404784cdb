// Package core enumerates finite spaces of executions, case by case, and
// records what was covered and which cases break the property.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
)

// Space is a finite, indexable set of cases.
type Space struct {
	Name     string
	N        int64
	Thorough bool // only explored by the thorough tier
	// Builds says in which builds the space is explored in the quick tier:
	// "" = assembly and portable, "amd64" = assembly only.
	Builds string
	// Portable thins the space in the portable (386) build of the quick tier:
	// only every Portable-th case is explored there (0 = all).
	Portable int64
	Run      func(t *T, i int64)
}

// T collects the outcome of cases.
type T struct {
	Tier       string
	space      string
	index      int64
	evals      int64
	nontrivial int64
	states     int64
	trans      int64
	traces     int64
	failed     string
	samples    []string
	verbose    bool
}

// Eval counts one comparison of the implementation with the model.
func (t *T) Eval(nontrivial bool) {
	t.evals++
	if nontrivial {
		t.nontrivial++
	}
}

// EvalN counts n of them.
func (t *T) EvalN(n int64) { t.evals += n; t.nontrivial += n }

// State, Trans and Trace count model states, transitions and traces replayed
// on the implementation.
func (t *T) State(n int64) { t.states += n }
func (t *T) Trans(n int64) { t.trans += n }
func (t *T) Trace(n int64) { t.traces += n }

// Sample records a case in words (only a few per space are kept).
func (t *T) Sample(format string, a ...interface{}) {
	if len(t.samples) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		t.samples = append(t.samples, t.space+": "+s)
	}
}

// WantSample tells whether a sample would be kept.
func (t *T) WantSample() bool { return len(t.samples) < 2 }

type failure struct{ msg string }

// Failf ends the case: the property is broken.
func (t *T) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Thorough tells the tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Violation is one broken case.
type Violation struct {
	Space string `json:"space"`
	Index int64  `json:"index"`
	Msg   string `json:"msg"`
}

// SpaceResult says what was covered of a space.
type SpaceResult struct {
	Name       string  `json:"name"`
	Total      int64   `json:"total"`
	Mine       int64   `json:"mine"`
	Done       int64   `json:"done"`
	Evals      int64   `json:"evals"`
	Nontrivial int64   `json:"nontrivial"`
	States     int64   `json:"states"`
	Trans      int64   `json:"trans"`
	Traces     int64   `json:"traces"`
	Seconds    float64 `json:"seconds"`
}

// Result is what one shard reports.
type Result struct {
	Spaces     []SpaceResult `json:"spaces"`
	Violations []Violation   `json:"violations"`
	Samples    []string      `json:"samples"`
	Complete   bool          `json:"complete"`
	Arch       string        `json:"arch"`
}

func runCase(s *Space, t *T, i int64) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack())))
		}
	}()
	t.index = i
	s.Run(t, i)
	return ""
}

func trim(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// Property maps ids to their spaces.
var Property = map[string]func(tier string) []Space{}

// Register adds a property.
func Register(id string, f func(tier string) []Space) { Property[id] = f }

// Main is the shard process.
func Main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int64("shard", 0, "shard number")
	shards := flag.Int64("shards", 1, "number of shards")
	deadline := flag.Float64("deadline", 40, "seconds")
	out := flag.String("out", "", "result file")
	only := flag.String("space", "", "run only this space")
	index := flag.Int64("index", -1, "run only this case")
	upto := flag.Int64("upto", -1, "with -space: run this shard up to this case of the space and stop there")
	hang := flag.Float64("hang", 120, "a case that takes longer does not terminate")
	list := flag.Bool("list", false, "list spaces")
	skips := flag.String("skip", "", "comma separated spaces to skip")
	flag.Parse()
	f := Property[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	spaces := f(*tier)
	portable := Portable()
	if *list {
		for _, s := range spaces {
			fmt.Println(s.Name, s.N, s.Thorough, s.Builds)
		}
		return
	}
	skip := map[string]bool{}
	for _, n := range splitComma(*skips) {
		skip[n] = true
	}
	res := Result{Complete: true, Arch: arch()}
	write := func() {
		if *out == "" {
			b, _ := json.MarshalIndent(res, "", " ")
			fmt.Println(string(b))
			return
		}
		b, _ := json.Marshal(res)
		os.WriteFile(*out+".tmp", b, 0o644)
		os.Rename(*out+".tmp", *out)
	}
	start := time.Now()
	var caseStart atomic.Int64
	var curSpace atomic.Value
	var curIndex atomic.Int64
	curSpace.Store("")
	go func() {
		var seen int64
		var cpu0 float64
		for {
			time.Sleep(500 * time.Millisecond)
			cs := caseStart.Load()
			if cs == 0 || cs != seen {
				seen, cpu0 = cs, cpuSeconds()
				continue
			}
			// processor time, so that a busy machine does not look like a hang
			wall := time.Since(time.Unix(0, cs)).Seconds()
			if wall > *hang && (cpuSeconds()-cpu0 > *hang || wall > 3**hang) {
				b, _ := json.Marshal(Violation{curSpace.Load().(string), curIndex.Load(), fmt.Sprintf("no result after %.0f s", *hang)})
				fmt.Fprintf(os.Stderr, "HANG %s\n", b)
				os.Exit(4)
			}
		}
	}()
	syncProgress := *out != "" && os.Getenv("VERIF_SYNC_PROGRESS") != ""
	if *out != "" && !syncProgress {
		// which case is running, for the orchestrator, in case this process dies
		go func() {
			for {
				time.Sleep(50 * time.Millisecond)
				_ = os.WriteFile(*out+".progress", []byte(fmt.Sprintf("%s %d", curSpace.Load().(string), curIndex.Load())), 0o644)
			}
		}()
	}
	for k := range spaces {
		s := &spaces[k]
		if *only != "" && *upto < 0 && s.Name != *only {
			continue
		}
		if skip[s.Name] {
			continue
		}
		if s.Thorough && *tier != "thorough" {
			continue
		}
		if portable && s.Builds == "amd64" {
			continue
		}
		t := &T{Tier: *tier, space: s.Name}
		sr := SpaceResult{Name: s.Name, Total: s.N}
		st := time.Now()
		step := *shards
		// interleave the shards differently in each space
		first := (*shard + int64(k)) % *shards
		bad := 0
		for i := first; i < s.N; i += step {
			if *index >= 0 && *upto < 0 {
				i = *index
			}
			if portable && *tier == "quick" && s.Portable > 1 && (i/step)%s.Portable != 0 && *index < 0 {
				continue
			}
			sr.Mine++
			if time.Since(start).Seconds() > *deadline {
				res.Complete = false
				continue
			}
			curSpace.Store(s.Name)
			curIndex.Store(i)
			if syncProgress {
				_ = os.WriteFile(*out+".progress", []byte(fmt.Sprintf("%s %d", s.Name, i)), 0o644)
			}
			caseStart.Store(time.Now().UnixNano())
			e0, s0, tr0, tc0 := t.evals, t.states, t.trans, t.traces
			msg := runCase(s, t, i)
			// a case that does not count by itself is one initial state, from
			// which each compared operation is one transition, and one trace
			if t.states == s0 {
				t.states++
			}
			if t.trans == tr0 {
				t.trans += t.evals - e0
			}
			if t.traces == tc0 {
				t.traces++
			}
			caseStart.Store(0)
			sr.Done++
			if msg != "" {
				res.Violations = append(res.Violations, Violation{s.Name, i, msg})
				bad++
				if bad >= 3 {
					res.Complete = false
					break
				}
			}
			if *index >= 0 && *upto < 0 {
				break
			}
			if *upto >= 0 && s.Name == *only && i >= *upto {
				break
			}
		}
		sr.Evals, sr.Nontrivial = t.evals, t.nontrivial
		sr.States, sr.Trans, sr.Traces = t.states, t.trans, t.traces
		sr.Seconds = time.Since(st).Seconds()
		res.Spaces = append(res.Spaces, sr)
		res.Samples = append(res.Samples, t.samples...)
		if *upto >= 0 && s.Name == *only {
			break
		}
		if len(res.Violations) >= 12 {
			res.Complete = false
			break
		}
	}
	write()
	if len(res.Violations) > 0 {
		os.Exit(1)
	}
}

func splitComma(s string) (out []string) {
	cur := ""
	for _, c := range s {
		if c == ',' {
			out = append(out, cur)
			cur = ""
		} else {
			cur += string(c)
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return
}

// cpuSeconds is the processor time this process has used.
func cpuSeconds() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec) + float64(u.Utime.Usec)/1e6 + float64(u.Stime.Sec) + float64(u.Stime.Usec)/1e6
}
