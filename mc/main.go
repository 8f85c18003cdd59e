package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | mc replay FILE | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "parts":
		// the enumerated spaces of every property, as Markdown
		for _, p := range props {
			fmt.Printf("\n**%s** (%s). Oracle/rule: %s.\n", p.ID, p.Level, p.Rule)
			th := p.Parts(true)
			for i, q := range p.Parts(false) {
				fmt.Printf("- `%s`: %s", q.Name, q.What)
				if i < len(th) && th[i].Name == q.Name && th[i].What != q.What {
					fmt.Printf(" — thorough: %s", th[i].What)
				}
				fmt.Println()
			}
			for _, a := range p.Assumptions {
				fmt.Printf("- assumes: %s\n", a)
			}
		}
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "shard":
		os.Exit(cmdShard(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "dump":
		os.Exit(cmdDump(os.Args[2:]))
	default:
		if f, ok := subcommands[os.Args[1]]; ok {
			os.Exit(f(os.Args[2:]))
		}
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// subcommands used internally by single properties (child processes).
var subcommands = map[string]func(args []string) int{}

func tierThorough(t string) bool { return t == "thorough" }

func cmdShard(args []string) int {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int64("shard", 0, "")
	n := fs.Int64("n", 1, "")
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 600, "")
	trace := fs.String("trace", "", "")
	partsRe := fs.String("parts", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	p := findProp(*id)
	c := newCtx(p, tierThorough(*tier), *shard, *n, -1, time.Now().Add(time.Duration(*secs*float64(time.Second))))
	if *trace != "" {
		f, err := os.Create(*trace)
		if err != nil {
			return 2
		}
		c.trace = f
	}
	c.watchdog(120 * time.Second)
	for _, part := range p.Parts(c.Thorough) {
		if *partsRe != "" && !strings.Contains(part.Name, *partsRe) {
			continue
		}
		c.runPart(part)
	}
	if err := c.save(*out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

type replayFile struct {
	Property string  `json:"property"`
	Tier     string  `json:"tier"`
	Failure  Failure `json:"failure"`
	How      string  `json:"how"`
	Others   []Failure
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "")
	jobs := fs.Int("j", 0, "")
	partsRe := fs.String("parts", "", "")
	verbose := fs.Bool("v", false, "")
	if len(args) < 1 {
		return 2
	}
	id := args[0]
	fs.Parse(args[1:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	p := findProp(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	n := *jobs
	if n <= 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if n < 1 {
			n = 1
		}
	}
	secs := 300.0
	if *tier == "thorough" {
		secs = 3600
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()

	type outcome struct {
		res  *ShardResult
		fail *Failure
		// the exploring process died without the library being involved
		infra *Failure
		note  string
	}
	results := make([]outcome, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			base := filepath.Join(tmp, fmt.Sprint("s", i))
			mk := func(extra ...string) *exec.Cmd {
				a := []string{"shard", "-prop", id, "-tier", *tier, "-shard", fmt.Sprint(i), "-n", fmt.Sprint(n),
					"-out", base, "-secs", fmt.Sprint(secs), "-parts", *partsRe}
				return exec.Command(exe, append(a, extra...)...)
			}
			out, err := mk().CombinedOutput()
			if *verbose && len(out) > 0 {
				os.Stderr.Write(out)
			}
			if err != nil {
				// The process died (stack overflow, fatal runtime error, hang):
				// run it once more recording each case to name the culprit.
				tr := base + ".trace"
				out2, err2 := mk("-trace", tr).CombinedOutput()
				tb, _ := os.ReadFile(tr)
				f := &Failure{Part: "process", Index: int64(i)}
				f.Case = strings.TrimSpace(strings.SplitN(string(tb), "\n", 2)[0])
				f.Confirmed = 1
				f.Why = "exploring process died: " + err.Error() + ": " + firstLines(string(out), 12)
				if err2 != nil {
					f.Confirmed = 2
					f.Why += "\nsecond run: " + firstLines(string(out2), 12)
					if all := string(out) + string(out2); !strings.Contains(all, "shabbyrobe/xmlwriter") && !strings.Contains(all, "HANG") {
						results[i] = outcome{infra: f}
						return
					}
					results[i] = outcome{fail: f}
					return
				}
				// died once only (for instance killed for memory): use the
				// second run's results.
				results[i].note = "shard restarted once: " + err.Error()
			}
			b, err := os.ReadFile(base + ".json")
			if err != nil {
				results[i] = outcome{fail: &Failure{Part: "process", Case: "shard", Why: err.Error()}}
				return
			}
			r := &ShardResult{}
			if err := json.Unmarshal(b, r); err != nil {
				results[i] = outcome{fail: &Failure{Part: "process", Case: "shard", Why: err.Error()}}
				return
			}
			results[i].res = r
		}(i)
	}
	wg.Wait()

	outSet, stSet, trSet := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	var fails []Failure
	parts := map[string]*PartStat{}
	var order []string
	known := map[string]int64{}
	knownEx := map[string]string{}
	notes := map[string]int64{}
	var samples []string
	var evals, traces int64
	setsFull := false
	for i, o := range results {
		if o.infra != nil {
			fmt.Fprintf(os.Stderr, "harness error: %s\n%s\n", o.infra.Case, o.infra.Why)
			return 2
		}
		if o.fail != nil {
			fails = append(fails, *o.fail)
		}
		if o.res == nil {
			continue
		}
		base := filepath.Join(tmp, fmt.Sprint("s", i))
		readHashes(base+".out", outSet)
		readHashes(base+".st", stSet)
		readHashes(base+".tr", trSet)
		fails = append(fails, o.res.Fails...)
		evals += o.res.Evals
		traces += o.res.Traces
		setsFull = setsFull || o.res.SetsFull
		for k, v := range o.res.Known {
			known[k] += v
			if knownEx[k] == "" {
				knownEx[k] = o.res.KnownEx[k]
			}
		}
		for k, v := range o.res.Notes {
			notes[k] += v
		}
		for _, s := range o.res.Samples {
			if len(samples) < 12 && len(s) < 600 {
				samples = append(samples, s)
			}
		}
		for _, ps := range o.res.Parts {
			q := parts[ps.Name]
			if q == nil {
				c := ps
				parts[ps.Name] = &c
				order = append(order, ps.Name)
				continue
			}
			q.Evals += ps.Evals
			q.Skipped += ps.Skipped
			q.Exhaustive = q.Exhaustive && ps.Exhaustive
			if ps.Secs > q.Secs {
				q.Secs = ps.Secs
			}
		}
	}
	exhaustive := true
	var plist []PartStat
	for _, n := range order {
		plist = append(plist, *parts[n])
		exhaustive = exhaustive && parts[n].Exhaustive
	}
	if len(fails) > 0 {
		exhaustive = false
	}
	pidx := map[string]int{}
	for i, n := range order {
		pidx[n] = i
	}
	sort.SliceStable(fails, func(i, j int) bool {
		a, b := fails[i], fails[j]
		if pidx[a.Part] != pidx[b.Part] {
			return pidx[a.Part] < pidx[b.Part]
		}
		return a.Index < b.Index
	})

	if len(samples) == 0 {
		samples = append(samples, "(no sample recorded)")
	}
	cov := map[string]interface{}{
		"cases":      evals,
		"rule":       p.Rule,
		"samples":    samples,
		"exhaustive": exhaustive,
		"parts":      plist,
	}
	if p.Level == "model_checking" {
		cov["distinct_outcomes"] = len(outSet)
		cov["states"] = len(stSet)
		cov["transitions"] = len(trSet)
		cov["traces_validated_against_impl"] = traces
	} else {
		// a case may consist of several executions
		n := traces
		if evals > n {
			n = evals
		}
		cov["evaluations"] = n
		cov["distinct_nontrivial"] = len(outSet)
	}
	if setsFull {
		cov["set_cap_hit"] = "distinct counts are lower bounds: a shard's hash set reached its cap"
	}
	if len(notes) > 0 {
		cov["counters"] = notes
	}
	kf := loadKnown()
	var knownList []string
	for k := range known {
		knownList = append(knownList, k)
	}
	sort.Strings(knownList)
	if len(knownList) > 0 {
		m := map[string]int64{}
		for _, k := range knownList {
			m[k] = known[k]
		}
		cov["known_findings_hit"] = m
	}
	ev := evidence{Property: id, Tier: *tier, Seed: seed, Level: p.Level, Coverage: cov,
		Assumptions: append([]string{}, p.Assumptions...), WallS: time.Since(start).Seconds(), Violations: len(fails)}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range knownList {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times, e.g. %s)\n", id, oneLine(kf.Get(id, k).What, 300), known[k], oneLine(knownEx[k], 200))
	}
	for _, ps := range plist {
		fmt.Printf("  %-34s %10d cases  %8d out of scope  exhaustive=%v  %.1fs\n", ps.Name, ps.Evals, ps.Skipped, ps.Exhaustive, ps.Secs)
	}
	fmt.Printf("%s %s: %d cases, %d distinct outcomes, %d states, %d transitions, %d traces, %.1fs\n", id, *tier, evals, len(outSet), len(stSet), len(trSet), traces, time.Since(start).Seconds())
	if len(fails) > 0 {
		rd := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, id+".json")
		others := fails[1:]
		if len(others) > 20 {
			others = others[:20]
		}
		rb, _ := json.MarshalIndent(replayFile{id, *tier, fails[0], "bash /verif/run.sh replay " + rp, others}, "", " ")
		os.WriteFile(rp, append(rb, '\n'), 0o644)
		fmt.Printf("case: %s\n", oneLine(fails[0].Case, 1500))
		fmt.Printf("why:  %s\n", firstLines(fails[0].Why, 20))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

func oneLine(s string, n int) string {
	s = strings.Replace(s, "\n", "\\n", -1)
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	s = strings.Join(l, "\n")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := findProp(rf.Property)
	if p == nil {
		return 2
	}
	c := newCtx(p, tierThorough(rf.Tier), 0, 1, rf.Failure.Index, time.Now().Add(time.Hour))
	for _, part := range p.Parts(c.Thorough) {
		if part.Name == rf.Failure.Part {
			c.runPart(part)
		}
	}
	if len(c.res.Fails) == 0 {
		fmt.Println("replay: the case passes on this tree")
		return 0
	}
	f := c.res.Fails[0]
	fmt.Printf("case: %s\nwhy: %s\nconfirmed %d/5\n", f.Case, f.Why, f.Confirmed)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}

func cmdDump(args []string) int { return 0 }
