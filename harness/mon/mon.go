// Package mon is the runtime-monitoring harness: it drives the code under
// test through deterministic streams of cases, watches for violations
// (reported by monitors, panics, fatal crashes, unbounded executions), counts
// what the monitors observed, and writes the evidence.
package mon

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sort"
	"sync"
)

// A Check decides one property.
type Check struct {
	ID          string
	Rule        string   // How cases are made, and what makes one non-trivial.
	Assumptions []string // What the verdict relies on.
	Streams     []Stream
	// Serial makes the runner use a single worker (the cases use all cores).
	Serial bool
	// Required events: a run that did not observe each of them at least once
	// decided nothing and is inconclusive.
	Required []string
	// MemGB is the address-space limit; 0 means 16.
	MemGB int
	// CPUSec is the per-case CPU budget; 0 means 60.
	CPUSec int
}

// A Stream is a sequence of cases, each determined by (seed, property,
// stream name, index) alone.
type Stream struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *Case)
}

// A Case is one execution under observation.
type Case struct {
	R      *rand.Rand
	Index  int
	Stream string
	Tier   string
	w      *worker
	desc   string
}

// Thorough reports whether this is the thorough tier.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

type violation struct {
	Stream string `json:"stream"`
	Index  int    `json:"index"`
	Msg    string `json:"message"`
	Desc   string `json:"case"`
}

// stop is thrown to end a case after a violation.
type stop struct{}

// Fail reports a violation and ends the case.
func (c *Case) Fail(format string, args ...any) {
	c.Report(format, args...)
	panic(stop{})
}

// Report reports a violation and goes on.
func (c *Case) Report(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.w.run.addViolation(violation{c.Stream, c.Index, msg, c.desc})
}

// Describe sets the description of the case, shown with a violation.
func (c *Case) Describe(format string, args ...any) {
	c.desc = fmt.Sprintf(format, args...)
	if len(c.desc) > 6000 {
		c.desc = c.desc[:6000] + "..."
	}
}

// Event counts n observations of the named kind.
func (c *Case) Event(name string, n int) { c.w.events[name] += int64(n) }

// Seen records an observed state under a kind; distinct states are counted.
func (c *Case) Seen(kind string, state uint64) {
	m := c.w.seen[kind]
	if m == nil {
		m = map[uint64]struct{}{}
		c.w.seen[kind] = m
	}
	if len(m) < 1<<20 {
		m[state] = struct{}{}
	}
}

// Nontrivial records the case as non-trivial, with a key telling it from others.
func (c *Case) Nontrivial(key uint64) {
	if len(c.w.distinct) < 4<<20 {
		c.w.distinct[key] = struct{}{}
	}
}

// Sample offers a case description for the evidence's samples.
func (c *Case) Sample(format string, args ...any) {
	if len(c.w.samples[c.Stream]) < 1 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.samples[c.Stream] = append(c.w.samples[c.Stream], s)
	}
}

// Eval counts an evaluation of an oracle beyond the one each case counts as.
func (c *Case) Eval(n int) { c.w.evals += int64(n) }

// Hash hashes a mixed list of values.
func Hash(vs ...any) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		switch v := v.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			h.Write(b[:])
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	return h.Sum64()
}

var (
	regMu    sync.Mutex
	registry = map[string]*Check{}
)

// Register makes a check known to the runner.
func Register(c *Check) {
	regMu.Lock()
	defer regMu.Unlock()
	if registry[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

func ids() []string {
	var s []string
	for k := range registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func caseRand(seed uint64, prop, stream string, index int) *rand.Rand {
	a := Hash(prop, "/", stream, "/", index, "/", seed)
	b := Hash("second", seed, index, stream, prop)
	return rand.New(rand.NewPCG(a, b))
}
