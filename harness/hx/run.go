package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Tier is the tier the check runs in.
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return Tier() == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// Infra ends the process because the environment failed, which says nothing about the property.
func Infra(format string, a ...interface{}) {
	fmt.Printf("VERIF-INFRA: "+format+"\n", a...)
	os.Exit(3)
}

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Steps       int            `json:"steps"`

	mu   sync.Mutex
	seen map[uint64]struct{}
}

// Case records what one generated case was.
type Case struct {
	rt      *rapid.T
	nt      bool
	classes map[string]bool
	trace   []string
	steps   int
	quiet   bool
}

// Class counts the case under a label (once per case).
func (c *Case) Class(label string) { c.classes[label] = true }

// Has tells whether the case was counted under a label.
func (c *Case) Has(label string) bool { return c.classes[label] }

// ClassIf counts the case under a label when cond holds.
func (c *Case) ClassIf(cond bool, label string) {
	if cond {
		c.classes[label] = true
	}
}

// NonTrivial marks the case as non-trivial by the check's rule.
func (c *Case) NonTrivial() { c.nt = true }

// NonTrivialIf marks the case as non-trivial when cond holds.
func (c *Case) NonTrivialIf(cond bool) {
	if cond {
		c.nt = true
	}
}

// Step appends to the written form of the case, which identifies it and is what samples show.
func (c *Case) Step(format string, a ...interface{}) {
	c.steps++
	c.trace = append(c.trace, fmt.Sprintf(format, a...))
}

// Trace is the written form of the case so far.
func (c *Case) Trace() string { return strings.Join(c.trace, "; ") }

// N is the number of cases for each tier.
type N struct{ Quick, Thorough int }

// Run checks a property with rapid, keeping count of the cases.
func Run(t *testing.T, n N, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	count := n.Quick
	if Thorough() {
		count = n.Thorough
		if count == 0 {
			count = 4 * n.Quick
		}
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			count = int(float64(count)*f) + 1
		}
	}
	if f := flag.Lookup("rapid.checks"); f != nil && os.Getenv("VERIF_KEEP_CHECKS") == "" {
		_ = flag.Set("rapid.checks", strconv.Itoa(count))
	}
	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]struct{}{}}
	defer st.write()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{rt: rt, classes: map[string]bool{}}
		defer st.add(c)
		defer watch(t.Name(), c)()
		dropKept()
		prop(rt, c)
		if d := keptProblem(); d != "" {
			rt.Fatalf("%s\nhistory: %s", d, c.Trace())
		}
	})
}

// caseLimit is how many seconds one case may take; all take far less than a tenth of it.
const caseLimit = 150

// watch ends the process with a violation when a case does not end: the code under test hangs.
// It counts ticks, so that a process which does not get to run does not count as hanging.
func watch(test string, c *Case) (stop func()) {
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for n := 0; n < caseLimit; n++ {
			select {
			case <-done:
				return
			case <-tick.C:
			}
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), "github.com/zhiqiangxu/mondis") {
			Infra("%s: a case does not end, and the code under test does not run\n%s", test, buf)
		}
		fmt.Printf("VERIF-VIOLATION: %s: a case does not end within %d s\n%s\nhistory: %s\n", test, caseLimit, buf, c.Trace())
		os.Exit(1)
	}()
	return func() { close(done) }
}

func (s *stats) add(c *Case) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evaluations++
	s.Steps += c.steps
	for l := range c.classes {
		s.Classes[l]++
	}
	tr := c.Trace()
	if c.nt {
		s.NonTrivial++
		h := fnv.New64a()
		h.Write([]byte(tr))
		k := h.Sum64()
		if _, dup := s.seen[k]; !dup {
			s.seen[k] = struct{}{}
			s.Distinct++
		}
	}
	if n := s.Evaluations; (c.nt && len(s.Samples) < 3 && n >= 3) || (n > 20 && c.nt && n&(n-1) == 0 && len(s.Samples) < 6) {
		if len(tr) > 700 {
			tr = tr[:700] + "..."
		}
		s.Samples = append(s.Samples, tr)
	}
}

func (s *stats) write() {
	dir := os.Getenv("VERIF_STATS_DIR")
	if dir == "" {
		if testing.Verbose() {
			keys := make([]string, 0, len(s.Classes))
			for k := range s.Classes {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			fmt.Printf("%s: %d cases, %d nontrivial (%d distinct), %d steps\n", s.Test, s.Evaluations, s.NonTrivial, s.Distinct, s.Steps)
			for _, k := range keys {
				fmt.Printf("   %6d %s\n", s.Classes[k], k)
			}
			for _, k := range s.Samples {
				fmt.Printf("   e.g. %s\n", k)
			}
		}
		return
	}
	b, _ := json.Marshal(s)
	name := strings.NewReplacer("/", "_").Replace(s.Test) + ".json"
	_ = os.WriteFile(filepath.Join(dir, name), b, 0o644)
}

// Scratch returns a fresh scratch directory below the check's own temporary directory.
func Scratch(t testing.TB, name string) string {
	d, err := os.MkdirTemp("", "verif-"+name+"-")
	if err != nil {
		Infra("scratch: %v", err)
	}
	return d
}
