// Package eng enumerates finite, indexable spaces of executions of the code under test and checks
// each one, in worker processes that a supervising parent watches for crashes and hangs.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Out is the result of one case.
type Out struct {
	Key   string           // canonical observation; distinct keys are counted
	Triv  bool             // the case does not count as non-trivial
	Viol  string           // non-empty: the property is violated, and how
	Extra map[string]int64 // further measured counts, summed
	Keys  []string         // further observations
}

// V makes a violation.
func V(f string, a ...any) Out { return Out{Viol: fmt.Sprintf(f, a...)} }

// K makes a passing result.
func K(f string, a ...any) Out { return Out{Key: fmt.Sprintf(f, a...)} }

// Space is a finite indexable space of cases.
type Space struct {
	Name  string
	N     int64
	Chunk int64 // cases handed out at a time
	Run   func(i int64) Out
	Desc  func(i int64) string
	Env   bool // the outcome can depend on the environment: a violation must reproduce
	Limit int  // seconds a case may take before it counts as hung
	Ser   bool // run by worker 0 only
	// Bin names a second build of the checker (the file <checker>.<Bin>) that runs this space.
	Bin string
	// Procs is the GOMAXPROCS of the workers (default 1); it applies to all spaces of a Bin.
	Procs int
}

// Prop is a property with its spaces.
type Prop struct {
	ID, Level   string
	Rule        string
	Assumptions []string
	Spaces      func(tier string) []*Space
	Bounds      map[string]string // bounds text, by tier
	// Final derives coverage fields from the summed extras (may be nil).
	Final func(cov map[string]any, extra map[string]int64)
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { props[p.ID] = p }

func ids() []string {
	var s []string
	for k := range props {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// safeRun runs a case, turning a panic on this goroutine into a violation.
func safeRun(s *Space, i int64) (o Out) {
	defer func() {
		if r := recover(); r != nil {
			o = Out{Viol: fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))}
		}
	}()
	return s.Run(i)
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Replay identifies a case.
type Replay struct {
	Property string     `json:"property"`
	Tier     string     `json:"tier"`
	Space    string     `json:"space"`
	Index    int64      `json:"index"`
	Case     string     `json:"case"`
	What     string     `json:"what"`
	Repro    string     `json:"reproduced"`
	History  [][3]int64 `json:"history,omitempty"` // [space, from, to) run before in the same process
	Howto    string     `json:"howto"`
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Space    string `json:"space"`
	Case     string `json:"case"` // exact description of the failing case
	What     string `json:"what"`
	Line     string `json:"line,omitempty"`
}

func loadFindings() []Finding {
	b, err := os.ReadFile(root() + "/known_findings.json")
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
	}
	return f.Findings
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Main is the entry point of a checker binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID TIER | worker ... | one ... | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "list":
		for _, id := range ids() {
			for _, t := range []string{"quick", "thorough"} {
				for _, s := range props[id].Spaces(t) {
					fmt.Printf("%s %-8s %-40s %d\n", id, t, s.Name, s.N)
				}
			}
		}
	default:
		os.Exit(2)
	}
}

func find(id, tier, space string) (*Prop, *Space) {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		os.Exit(2)
	}
	for _, s := range p.Spaces(tier) {
		if s.Name == space {
			return p, s
		}
	}
	return p, nil
}
