// Package vt holds the machinery shared by the property checks: the case
// runner and its statistics, a fault-injecting block store, independent
// reference models and the generators.
package vt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C is the record of one generated case.
type C struct {
	RT     *rapid.T
	trace  []string
	labels map[string]bool
	nontr  bool
	key    uint64
	over   int
}

const maxTrace = 400

// Logf adds a line to the description of the case. All that identifies a case
// has to be logged: two cases with the same description count as one.
func (c *C) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], c.key)
	h.Write(b[:])
	h.Write([]byte(s))
	c.key = h.Sum64()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	if len(c.trace) < maxTrace {
		c.trace = append(c.trace, s)
	} else {
		c.over++
	}
}

// Label classifies the case.
func (c *C) Label(l string) { c.labels[l] = true }

// LabelIf classifies the case if cond holds.
func (c *C) LabelIf(cond bool, l string) {
	if cond {
		c.labels[l] = true
	}
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (c *C) NonTrivial() { c.nontr = true }

// Has tells whether the case has the label.
func (c *C) Has(l string) bool { return c.labels[l] }

// Fatalf reports a violation of the property.
func (c *C) Fatalf(format string, a ...interface{}) {
	c.RT.Helper()
	c.failing(format, a...)
	c.RT.Fatalf(format, a...)
}

var failingOnce sync.Once

// failing tells the driver of the first failure, in case it takes too long to
// shrink it.
func (c *C) failing(format string, a ...interface{}) {
	failingOnce.Do(func() {
		if dir := os.Getenv("VERIF_OUT"); dir != "" {
			_ = os.WriteFile(dir+"/failing", []byte(fmt.Sprintf(format, a...)+"\n"+c.describe()+"\n"), 0o644)
		}
	})
}

// Helper marks the caller as a helper.
func (c *C) Helper() { c.RT.Helper() }

// NoErr fails on an unexpected error.
func (c *C) NoErr(err error, what string, a ...interface{}) {
	if err != nil {
		c.RT.Helper()
		c.Fatalf("%s: unexpected error: %v", fmt.Sprintf(what, a...), err)
	}
}

func (c *C) describe() string {
	s := strings.Join(c.trace, "\n")
	if c.over > 0 {
		s += fmt.Sprintf("\n(%d more lines)", c.over)
	}
	return s
}

type sample struct {
	Case   string   `json:"case"`
	Labels []string `json:"labels"`
}

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Skipped     int            `json:"skipped"`
	Labels      map[string]int `json:"labels"`
	Samples     []sample       `json:"samples"`
	Keys        []uint64       `json:"-"`
}

var beatFile *os.File
var beats uint64

// Beat tells the driver that the process makes progress.
func Beat() {
	if beatFile == nil {
		return
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], atomic.AddUint64(&beats, 1))
	beatFile.WriteAt(b[:], 0)
}

func init() {
	if p := os.Getenv("VERIF_BEAT"); p != "" {
		f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			panic(err)
		}
		beatFile = f
	}
}

var capture *func(rt *rapid.T, c *C)

// Captured gives the property checked by a test, in a form that takes its
// random choices from bytes found by the coverage-guided fuzzer. A case that
// does not end is a panic.
func Captured(test func(t *testing.T), limit time.Duration) func(rt *rapid.T) {
	var prop func(rt *rapid.T, c *C)
	capture = &prop
	test(nil)
	capture = nil
	return func(rt *rapid.T) {
		Beat()
		c := &C{RT: rt, labels: map[string]bool{}}
		w := time.AfterFunc(limit, func() {
			buf := make([]byte, 1<<20)
			panic(fmt.Sprintf("the case does not end (%v)\n%s", limit, buf[:runtime.Stack(buf, true)]))
		})
		defer w.Stop()
		done := false
		defer func() {
			if !done && rt.Failed() {
				rt.Logf("case so far:\n%s", c.describe())
			}
		}()
		prop(rt, c)
		done = true
	}
}

// Check runs a generated-input search of prop. The rule says what makes a case
// non-trivial.
func Check(t *testing.T, rule string, prop func(rt *rapid.T, c *C)) {
	if capture != nil {
		*capture = prop
		return
	}
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}}
	keys := map[uint64]bool{}
	defer func() { st.write(t, keys) }()
	rapid.Check(t, func(rt *rapid.T) {
		Beat()
		c := &C{RT: rt, labels: map[string]bool{}}
		done := false
		defer func() {
			if !done {
				st.Skipped++
				if rt.Failed() || len(c.trace) > 0 {
					rt.Logf("case so far:\n%s", c.describe())
				}
			}
		}()
		prop(rt, c)
		done = true
		st.Evaluations++
		var ls []string
		for l := range c.labels {
			st.Labels[l]++
			ls = append(ls, l)
		}
		sort.Strings(ls)
		if c.nontr {
			st.NonTrivial++
			if !keys[c.key] && len(keys) < 1<<20 {
				keys[c.key] = true
				n := len(keys)
				if len(st.Samples) < 2 || (n&(n-1) == 0 && len(st.Samples) < 12) {
					d := c.describe()
					if len(d) > 3000 {
						d = d[:3000] + "..."
					}
					st.Samples = append(st.Samples, sample{d, ls})
				}
			}
		}
	})
}

func (st *stats) write(t *testing.T, keys map[uint64]bool) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		t.Logf("%d cases, %d non-trivial (%d distinct), %d skipped, labels %v", st.Evaluations, st.NonTrivial, len(keys), st.Skipped, st.Labels)
		return
	}
	b, _ := json.Marshal(st)
	if err := os.WriteFile(dir+"/stats.json", b, 0o644); err != nil {
		t.Fatal(err)
	}
	kb := make([]byte, 0, 8*len(keys))
	for k := range keys {
		kb = binary.LittleEndian.AppendUint64(kb, k)
	}
	if err := os.WriteFile(dir+"/keys.bin", kb, 0o644); err != nil {
		t.Fatal(err)
	}
}
