package main

// The exploration kernel: cases are enumerated in a fixed order, numbered, and
// dealt out to single-threaded shard processes by index. A case is always the
// same (part, index) pair, so (part, index) is the replay token.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Failure is one case on which the property does not hold.
type Failure struct {
	Part      string `json:"part"`
	Index     int64  `json:"index"`
	Case      string `json:"case"`
	Why       string `json:"why"`
	Confirmed int    `json:"confirmed_of_5"`
}

type PartStat struct {
	Name       string  `json:"name"`
	What       string  `json:"what"`
	Evals      int64   `json:"evaluations"`
	Skipped    int64   `json:"out_of_scope"`
	Exhaustive bool    `json:"exhaustive"`
	Secs       float64 `json:"secs"`
}

// ShardResult is what a shard process hands to the parent.
type ShardResult struct {
	Parts    []PartStat       `json:"parts"`
	Fails    []Failure        `json:"fails"`
	Known    map[string]int64 `json:"known"`
	KnownEx  map[string]string
	Samples  []string `json:"samples"`
	Evals    int64    `json:"evals"`
	Traces   int64    `json:"traces"`
	Notes    map[string]int64
	Outcomes []uint64 `json:"-"`
	States   []uint64 `json:"-"`
	Trans    []uint64 `json:"-"`
	SetsFull bool     `json:"sets_full"`
}

// Ctx is handed to every part of a check.
type Ctx struct {
	Prop     string
	Thorough bool
	shard    int64
	nshards  int64
	deadline time.Time

	part    *PartStat
	idx     int64
	onlyIdx int64 // replay: run this index only (-1: all)
	trace   *os.File

	res      ShardResult
	outcomes map[uint64]struct{}
	states   map[uint64]struct{}
	trans    map[uint64]struct{}
	partFail int
	stopped  bool

	// judge, when set, decides the cases of a generator instead of the
	// comparison with the reference model
	judge func(c *Ctx, ops []Op) error

	known *KnownFile
	tick  int64 // cases begun, for the watchdog
	cur   atomic.Value
}

const (
	setCap      = 3000000
	failsPerCtx = 5
)

type Part struct {
	Name string
	What string
	Run  func(c *Ctx)
}

type Prop struct {
	ID    string
	Level string
	Rule  string
	Parts func(thorough bool) []Part
	// Extra assumptions for the evidence file.
	Assumptions []string
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (c *Ctx) Outcome(s string) {
	if len(c.outcomes) < setCap {
		c.outcomes[hash64(s)] = struct{}{}
	} else {
		c.res.SetsFull = true
	}
}
func (c *Ctx) State(s string) {
	if len(c.states) < setCap {
		c.states[hash64(s)] = struct{}{}
	} else {
		c.res.SetsFull = true
	}
}
func (c *Ctx) Trans(s, op string) {
	if len(c.trans) < setCap {
		c.trans[hash64(s, op)] = struct{}{}
	} else {
		c.res.SetsFull = true
	}
}
func (c *Ctx) Sample(s string) {
	if len(c.res.Samples) < 6 {
		c.res.Samples = append(c.res.Samples, c.part.Name+": "+s)
	}
}
func (c *Ctx) Note(k string, n int64) { c.res.Notes[k] += n }

// Stop reports whether the part should give up early (enough failures or the
// internal deadline passed).
func (c *Ctx) Stop() bool { return c.stopped }

// Take advances the case counter and reports whether this shard owns the case.
func (c *Ctx) Take() bool {
	i := c.idx
	c.idx++
	if c.stopped {
		return false
	}
	if c.onlyIdx >= 0 {
		return i == c.onlyIdx
	}
	if i%c.nshards != c.shard {
		return false
	}
	if i&0x3ff == 0 || c.nshards > 1 && (i/c.nshards)&0x3ff == 0 {
		if time.Now().After(c.deadline) {
			c.stopped = true
			c.part.Exhaustive = false
			return false
		}
	}
	return true
}

func safely(body func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return body()
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "xmlwriter.") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, " | ")
}

// errSkip is returned by a case body when the case is outside the property's
// scope; it is counted, not judged.
var errSkip = fmt.Errorf("out of scope")

// knownErr is returned when the case fails in a way that is listed as a known
// finding under key.
type knownErr struct {
	key string
	err error
}

func (k knownErr) Error() string { return k.key + ": " + k.err.Error() }

// Run runs one owned case (call Take first).
func (c *Ctx) Run(desc func() string, body func() error) {
	idx := c.idx - 1
	c.part.Evals++
	c.res.Evals++
	atomic.AddInt64(&c.tick, 1)
	if c.trace != nil {
		c.trace.WriteAt([]byte(fmt.Sprintf("%-40s %20d %s\n", c.part.Name, idx, desc())), 0)
	}
	c.cur.Store(curCase{c.part.Name, idx, desc})
	err := safely(body)
	if err == nil {
		return
	}
	if err == errSkip {
		c.part.Evals--
		c.res.Evals--
		c.part.Skipped++
		return
	}
	if k, ok := err.(knownErr); ok {
		if c.known.Has(c.Prop, k.key) {
			c.res.Known[k.key]++
			if c.res.KnownEx[k.key] == "" {
				c.res.KnownEx[k.key] = desc() + " -> " + k.err.Error()
			}
			return
		}
	}
	conf := 1
	for i := 0; i < 4; i++ {
		if safely(body) != nil {
			conf++
		}
	}
	c.res.Fails = append(c.res.Fails, Failure{c.part.Name, idx, desc(), err.Error(), conf})
	c.partFail++
	if c.partFail >= failsPerCtx {
		c.stopped = true
		c.part.Exhaustive = false
	}
}

// Case is Take+Run.
func (c *Ctx) Case(desc func() string, body func() error) {
	if c.Take() {
		c.Run(desc, body)
	}
}

type curCase struct {
	part string
	idx  int64
	desc func() string
}

func newCtx(p *Prop, thorough bool, shard, n int64, only int64, deadline time.Time) *Ctx {
	c := &Ctx{
		Prop: p.ID, Thorough: thorough, shard: shard, nshards: n, onlyIdx: only,
		outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, trans: map[uint64]struct{}{},
		deadline: deadline, known: loadKnown(),
	}
	c.res.Known = map[string]int64{}
	c.res.KnownEx = map[string]string{}
	c.res.Notes = map[string]int64{}
	return c
}

func (c *Ctx) runPart(p Part) {
	c.res.Parts = append(c.res.Parts, PartStat{Name: p.Name, What: p.What, Exhaustive: true})
	c.part = &c.res.Parts[len(c.res.Parts)-1]
	c.idx, c.partFail, c.stopped = 0, 0, false
	t := time.Now()
	c.judge = nil
	switch c.Prop {
	case "C04":
		rec = c
	}
	p.Run(c)
	c.part.Secs = time.Since(t).Seconds()
}

func (c *Ctx) watchdog(limit time.Duration) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(2 * time.Second)
			n := atomic.LoadInt64(&c.tick)
			if n != last {
				last, since = n, time.Now()
				continue
			}
			if time.Since(since) > limit {
				d := "?"
				if cc, ok := c.cur.Load().(curCase); ok {
					d = fmt.Sprintf("%s #%d %s", cc.part, cc.idx, cc.desc())
				}
				fmt.Fprintf(os.Stderr, "HANG %s\n", d)
				os.Exit(7)
			}
		}
	}()
}

func setToSlice(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func writeHashes(path string, m map[uint64]struct{}) error {
	f := setToSlice(m)
	b := make([]byte, 8*len(f))
	for i, v := range f {
		binary.LittleEndian.PutUint64(b[8*i:], v)
	}
	return os.WriteFile(path, b, 0o644)
}

func readHashes(path string, into map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func (c *Ctx) save(base string) error {
	if err := writeHashes(base+".out", c.outcomes); err != nil {
		return err
	}
	if err := writeHashes(base+".st", c.states); err != nil {
		return err
	}
	if err := writeHashes(base+".tr", c.trans); err != nil {
		return err
	}
	b, err := json.Marshal(c.res)
	if err != nil {
		return err
	}
	return os.WriteFile(base+".json", b, 0o644)
}

// KnownFile is /verif/known_findings.json.
type KnownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	// Ranges of code points, for findings identified by a set of inputs.
	Runes  string `json:"runes,omitempty"`
	ranges [][2]rune
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() *KnownFile {
	k := &KnownFile{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, k); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	return k
}

func (k *KnownFile) Get(prop, key string) *KnownFinding {
	for i := range k.Findings {
		if k.Findings[i].Property == prop && k.Findings[i].Key == key {
			return &k.Findings[i]
		}
	}
	return nil
}
func (k *KnownFile) Has(prop, key string) bool { return k.Get(prop, key) != nil }

// HasRune reports whether r lies in the finding's rune ranges.
func (f *KnownFinding) HasRune(r rune) bool {
	if f == nil {
		return false
	}
	if f.ranges == nil {
		f.ranges = [][2]rune{}
		for _, part := range strings.Split(f.Runes, ",") {
			var lo, hi rune
			part = strings.TrimSpace(part)
			if n, _ := fmt.Sscanf(part, "%x-%x", &lo, &hi); n == 1 {
				hi = lo
			} else if n == 0 {
				continue
			}
			f.ranges = append(f.ranges, [2]rune{lo, hi})
		}
	}
	for _, x := range f.ranges {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}
