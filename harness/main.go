package main

// Bounded search for failing inputs (never counted as proof): builds APK files, runs the compiled repository on them
// and compares with an independent reading of the formats.

import (
	"encoding/json"
	"flag"
	"fmt"
	mrand "math/rand"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type harness struct {
	prop     string
	r        *mrand.Rand
	seed     int64
	deadline time.Time
	outFile  string

	evals    int
	distinct map[string]int
	samples  []string
	found    bool
	rules    map[string]bool
}

type replay struct {
	Property string      `json:"property"`
	What     string      `json:"what"`
	Case     string      `json:"case"`
	Input    interface{} `json:"input,omitempty"`
	Stack    string      `json:"stack,omitempty"`
	Seed     int64       `json:"seed"`
}

func (h *harness) time() bool { return time.Now().Before(h.deadline) && !h.found }

// fail records the failing input, if it concerns the property this run decides.
func (h *harness) fail(prop, label, what string, input interface{}, stack string) {
	if prop != h.prop || h.found {
		return
	}
	h.found = true
	b, _ := json.MarshalIndent(replay{prop, what, label, input, stack, h.seed}, "", " ")
	must(os.WriteFile(h.outFile, b, 0644))
	fmt.Printf("FAILING INPUT for %s: %s: %s\n", prop, label, what)
}

func (h *harness) note(label, outcome string) {
	h.evals++
	k := label + " => " + outcome
	h.distinct[k]++
	if h.distinct[k] == 1 && len(h.samples) < 12 {
		h.samples = append(h.samples, k)
	}
}

// guard runs f; a panic is reported for the given property
func (h *harness) guard(prop, label string, input interface{}, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, isS := e.(string); isS && len(s) > 8 && s[:8] == "harness:" {
				panic(e)
			}
			h.fail(prop, label, fmt.Sprintf("panic: %v", e), input, string(debug.Stack()))
			h.note(label, "panic")
		}
	}()
	f()
	return true
}

var groups = map[string]func(h *harness){}

func register(f func(h *harness), props ...string) {
	for _, p := range props {
		groups[p] = f
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 30, "seconds")
	out := flag.String("out", "replay.json", "replay file")
	stats := flag.String("stats", "", "statistics file")
	verbose := flag.Bool("v", false, "print outcomes")
	flag.Parse()
	f := groups[*prop]
	if f == nil {
		fmt.Println("no harness for", *prop)
		os.Exit(4)
	}
	debug.SetMaxStack(64 << 20)
	initKeys()
	h := &harness{prop: *prop, seed: *seed, r: mrand.New(mrand.NewSource(*seed)), outFile: *out,
		deadline: time.Now().Add(time.Duration(*budget * float64(time.Second))), distinct: map[string]int{}}
	f(h)
	if *verbose {
		var ks []string
		for k, n := range h.distinct {
			ks = append(ks, fmt.Sprintf("%6d %s", n, k))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	}
	if *stats != "" {
		b, _ := json.Marshal(map[string]interface{}{
			"evaluations": h.evals, "distinct": len(h.distinct), "samples": h.samples,
			"rule": "distinct pairs of generated case and outcome",
		})
		must(os.WriteFile(*stats, b, 0644))
	}
	fmt.Printf("%d evaluations, %d distinct cases\n", h.evals, len(h.distinct))
	if h.found {
		os.Exit(1)
	}
}
