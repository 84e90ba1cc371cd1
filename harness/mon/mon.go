// Package mon is the monitoring runtime: it runs the cases of a check on a worker pool, gives each case its own
// deterministic random source, collects what monitors observe and which violations they raise, and survives
// crashes of the code under test (the cases run in a child process that the parent supervises).
package mon

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check decides one property.
type Check struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Level string

	// Quick and Thorough give the number of cases per tier.
	Quick, Thorough int

	// Case runs one case.
	Case func(c *Ctx)

	// Fixed runs once, before the cases: directed scenarios and known findings.
	Fixed func(c *Ctx)

	// Need lists counters and their minimum: a run that observed less is inconclusive (exit 3), never a pass.
	Need map[string]int

	// Rare are counters of tolerated deviations (of the trusted dependency) that may only be a fraction of another counter.
	Rare []Rare

	Assumptions []string

	// Serial disables the worker pool (for checks that manage concurrency themselves).
	Serial bool
	// Races makes a race anywhere in the process a violation: goroutines share nothing but what the code under test shares.
	Races bool
}

// Rare bounds a tolerated deviation.
type Rare struct {
	Counter, Of string
	OneOf       int // at most one of so many
	What        string
}

// Run is the state of one check run.
type Run struct {
	Check *Check
	Tier  string
	Seed  int64
	N     int

	mu         sync.Mutex
	counters   map[string]int
	distinct   map[uint64]struct{}
	violations []Violation
	known      map[string]string
	samples    []interface{}
	evals      int
	findings   []Finding
}

// Violation is a broken property instance.
type Violation struct {
	Case   int         `json:"case"`
	What   string      `json:"what"`
	Detail interface{} `json:"detail,omitempty"`
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// Ctx is handed to a case.
type Ctx struct {
	R    *rand.Rand
	Idx  int
	Tier string
	Seed int64
	run  *Run
	sig  string
	triv bool
}

// Count adds n to a named observation counter.
func (c *Ctx) Count(name string, n int) {
	c.run.mu.Lock()
	c.run.counters[name] += n
	c.run.mu.Unlock()
}

// Max keeps the maximum of an observation.
func (c *Ctx) Max(name string, n int) {
	c.run.mu.Lock()
	if c.run.counters[name] < n {
		c.run.counters[name] = n
	}
	c.run.mu.Unlock()
}

// Eval records one evaluated case instance with its signature; trivial ones do not count as distinct.
func (c *Ctx) Eval(sig string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(sig))

	c.run.mu.Lock()
	c.run.evals++
	if nontrivial {
		c.run.distinct[h.Sum64()] = struct{}{}
	}
	c.run.mu.Unlock()
}

// Sample keeps up to 4 sample cases for the evidence.
func (c *Ctx) Sample(s interface{}) {
	c.run.mu.Lock()
	if len(c.run.samples) < 4 {
		c.run.samples = append(c.run.samples, s)
	}
	c.run.mu.Unlock()
}

// WantSample tells if samples are still collected.
func (c *Ctx) WantSample() bool {
	c.run.mu.Lock()
	defer c.run.mu.Unlock()

	return len(c.run.samples) < 4
}

// Violate records a violation.
func (c *Ctx) Violate(what string, detail interface{}) {
	c.run.mu.Lock()
	if len(c.run.violations) < 200 {
		c.run.violations = append(c.run.violations, Violation{Case: c.Idx, What: what, Detail: detail})
	}
	c.run.counters["violations_raised"]++
	c.run.mu.Unlock()
}

// Known reports the outcome of a directed scenario that reproduces a listed finding: when the scenario fails and the
// known-findings file lists its key, it is printed as KNOWN-FINDING; a failure that is not listed is a violation.
func (c *Ctx) Known(key string, failed bool, what string, detail interface{}) {
	if !failed {
		return
	}

	for _, f := range c.run.findings {
		if f.Property == c.run.Check.ID && f.Key == key && f.Status == "known" {
			c.run.mu.Lock()
			c.run.known[key] = f.What
			c.run.mu.Unlock()

			return
		}
	}

	c.Violate("["+key+"] "+what, detail)
}

// IsKnown tells if a finding key is listed.
func (c *Ctx) IsKnown(key string) bool {
	for _, f := range c.run.findings {
		if f.Property == c.run.Check.ID && f.Key == key && f.Status == "known" {
			return true
		}
	}

	return false
}

// Guard runs f and turns a panic into a violation. It reports whether f returned normally.
func (c *Ctx) Guard(what string, detail interface{}, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Violate("panic in "+what+": "+fmt.Sprint(r), map[string]interface{}{"input": detail, "stack": trim(st, 4000)})

			ok = false
		}
	}()

	f()

	return true
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}

	return s
}

// JSON encodes for messages.
func JSON(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)

	if err := e.Encode(v); err != nil {
		return "ERR " + err.Error()
	}

	return strings.TrimSpace(b.String())
}

func seedOf(prop string, seed int64, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)

	return int64(h.Sum64() & 0x7fffffffffffffff)
}

type childResult struct {
	Counters   map[string]int    `json:"counters"`
	Evals      int               `json:"evals"`
	Distinct   int               `json:"distinct"`
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
	Samples    []interface{}     `json:"samples"`
	Done       bool              `json:"done"`
}

// Main runs the check named on the command line.
func Main(checks []*Check) {
	var (
		prop    = flag.String("prop", "", "property")
		root    = flag.String("root", "/verif", "verification root")
		tier    = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
		one     = flag.Int("case", -2, "run a single case (-1: the directed scenarios)")
		child   = flag.String("child", "", "internal: result file")
		n       = flag.Int("n", 0, "override number of cases")
		verbose = flag.Bool("v", false, "verbose")
	)
	flag.Parse()

	if *tier != "thorough" {
		*tier = "quick"
	}

	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}

	var ck *Check
	for _, k := range checks {
		if k.ID == *prop {
			ck = k
		}
	}

	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}

	num := ck.Quick
	if *tier == "thorough" {
		num = ck.Thorough
	}

	if *n > 0 {
		num = *n
	}

	if *child != "" {
		runChild(ck, *root, *tier, seed, num, *one, *child)

		return
	}

	supervise(ck, *root, *tier, seed, num, *one, *verbose)
}

func loadFindings(root string) []Finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}

	var f struct {
		Findings []Finding `json:"findings"`
	}

	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}

	return f.Findings
}

func runChild(ck *Check, root, tier string, seed int64, num, one int, resFile string) {
	debug.SetMaxStack(128 << 20)

	r := &Run{
		Check: ck, Tier: tier, Seed: seed, N: num, counters: map[string]int{}, distinct: map[uint64]struct{}{},
		known: map[string]string{}, findings: loadFindings(root),
	}

	inflight, _ := os.OpenFile(resFile+".inflight", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)

	workers := runtime.GOMAXPROCS(0)
	if ck.Serial {
		workers = 1
	}

	started := make([]int64, workers+1) // unix nanos of the case start per worker, 0 when idle.

	runCase := func(w, idx int, f func(*Ctx)) {
		c := &Ctx{R: rand.New(rand.NewSource(seedOf(ck.ID, seed, idx))), Idx: idx, Tier: tier, Seed: seed, run: r}
		_, _ = inflight.WriteAt([]byte(fmt.Sprintf("%-10d\n", idx)), int64(w*11))
		atomic.StoreInt64(&started[w], time.Now().UnixNano())
		c.Guard("case", map[string]int{"case": idx}, func() { f(c) })
		atomic.StoreInt64(&started[w], 0)
		_, _ = inflight.WriteAt([]byte(fmt.Sprintf("%-10d\n", -9)), int64(w*11))
	}

	// A case normally takes milliseconds. One that is still running after 200 s does not terminate.
	go func() {
		for {
			time.Sleep(time.Second)

			for w := range started {
				if t := atomic.LoadInt64(&started[w]); t != 0 && time.Now().UnixNano()-t > int64(200*time.Second) {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					_, _ = os.Stderr.WriteString("MON-STUCK worker " + strconv.Itoa(w) + "\n")
					_, _ = os.Stderr.Write(buf)
					os.Exit(77)
				}
			}
		}
	}()

	if ck.Fixed != nil && one <= -1 {
		runCase(workers, -1, ck.Fixed)
	}

	if ck.Case != nil && one != -1 {
		if one >= 0 {
			runCase(0, one, ck.Case)
		} else {
			var (
				wg   sync.WaitGroup
				next int64 = -1
			)

			for w := 0; w < workers; w++ {
				w := w

				wg.Add(1)

				go func() {
					defer wg.Done()

					for {
						i := int(atomic.AddInt64(&next, 1))
						if i >= num {
							return
						}

						runCase(w, i, ck.Case)

						r.mu.Lock()
						stop := len(r.violations) >= 100
						r.mu.Unlock()

						if stop {
							return
						}
					}
				}()
			}

			wg.Wait()
		}
	}

	sort.SliceStable(r.violations, func(i, j int) bool { return r.violations[i].Case < r.violations[j].Case })

	b, err := json.Marshal(childResult{
		Counters: r.counters, Evals: r.evals, Distinct: len(r.distinct), Violations: r.violations,
		Known: r.known, Samples: r.samples, Done: true,
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(2)
	}

	if err := os.WriteFile(resFile, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(2)
	}
}

var frameRe = regexp.MustCompile(`github\.com/swaggest/openapi-go[./]`)

func supervise(ck *Check, root, tier string, seed int64, num, one int, verbose bool) {
	start := time.Now()

	tmp, err := os.MkdirTemp("", "mon-"+ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)

	resFile := filepath.Join(tmp, "result.json")
	args := []string{"-prop", ck.ID, "-root", root, "-tier", tier, "-child", resFile, "-n", strconv.Itoa(num), "-case", strconv.Itoa(one)}

	var stderr bytes.Buffer

	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stderr
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 history_size=3", "VERIF_SEED="+strconv.FormatInt(seed, 10), "GOTRACEBACK=all")
	runErr := cmd.Run()

	res := childResult{Counters: map[string]int{}}

	if b, err := os.ReadFile(resFile); err == nil {
		_ = json.Unmarshal(b, &res)
	}

	errText := stderr.String()

	races := splitRaces(errText)
	for _, rc := range races {
		if frameRe.MatchString(rc) {
			res.Violations = append(res.Violations, Violation{Case: -1, What: "data race in code under test", Detail: trim(rc, 6000)})
		} else if ck.Races {
			res.Violations = append(res.Violations, Violation{Case: -1, What: "data race between goroutines that use reflectors or documents of their own", Detail: trim(rc, 6000)})
		} else {
			fmt.Fprintln(os.Stderr, "race outside of the code under test:\n"+rc)
			os.Exit(3)
		}
	}

	if !res.Done {
		inflight, _ := os.ReadFile(resFile + ".inflight")
		if frameRe.MatchString(errText) {
			what := "process crashed in code under test"
			if strings.Contains(errText, "MON-STUCK") {
				what = "code under test does not terminate"
			}

			res.Violations = append(res.Violations, Violation{
				Case: firstCase(string(inflight)), What: what,
				Detail: map[string]interface{}{"cases_in_flight": strings.Fields(string(inflight)), "stderr": trim(errText, 6000)},
			})
		} else {
			fmt.Fprintln(os.Stderr, "check process failed:", runErr, trim(errText, 8000))
			os.Exit(3)
		}
	} else if errText != "" && len(races) == 0 {
		fmt.Fprint(os.Stderr, trim(errText, 4000))
	}

	wall := time.Since(start).Seconds()

	missing := []string{}
	if one == -2 {
		for k, min := range ck.Need {
			if res.Counters[k] < min {
				missing = append(missing, fmt.Sprintf("%s: observed %d, need %d", k, res.Counters[k], min))
			}
		}
	}

	sort.Strings(missing)

	for _, rr := range ck.Rare {
		if n := res.Counters[rr.Counter]; one == -2 && n > 3 && n*rr.OneOf > res.Counters[rr.Of] {
			res.Violations = append(res.Violations, Violation{Case: -2, What: fmt.Sprintf("%s: %d of %d %s", rr.What, n, res.Counters[rr.Of], rr.Of)})
		}
	}

	if one == -2 {
		writeEvidence(ck, root, tier, seed, res, wall, num)
	}

	keys := []string{}
	for k := range res.Known {
		keys = append(keys, k)
	}

	sort.Strings(keys)

	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.ID, k, res.Known[k])
	}

	if len(res.Violations) > 0 {
		dir := filepath.Join(root, "replay")
		_ = os.MkdirAll(dir, 0o755)

		shown := 0

		for i, v := range res.Violations {
			if i >= 3 && !verbose {
				break
			}

			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", ck.ID, tier, seed, i))
			rerun := fmt.Sprintf("VERIF_SEED=%d bash run.sh %s %s -case %d", seed, ck.ID, tier, v.Case)
			b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.ID, "seed": seed, "tier": tier, "case": v.Case, "rerun": rerun, "what": v.What, "detail": v.Detail}, "", " ")
			_ = os.WriteFile(p, b, 0o644)

			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
			fmt.Printf("  case %d: %s\n", v.Case, trim(v.What, 1500))

			if verbose {
				fmt.Printf("  detail: %s\n", trim(JSON(v.Detail), 3000))
			}

			shown++
		}

		fmt.Printf("%s: %d violation(s) in %d evaluations\n", ck.ID, len(res.Violations), res.Evals)
		os.RemoveAll(tmp)
		os.Exit(1)
	}

	if len(missing) > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive, monitors observed too little:", strings.Join(missing, "; "))
		os.RemoveAll(tmp)
		os.Exit(3)
	}

	fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial), %.1fs\n", ck.ID, res.Evals, res.Distinct, wall)
}

func firstCase(s string) int {
	for _, f := range strings.Fields(s) {
		if n, err := strconv.Atoi(f); err == nil && n >= -1 {
			return n
		}
	}

	return -1
}

func splitRaces(s string) []string {
	var out []string

	for _, p := range strings.Split(s, "==================") {
		if strings.Contains(p, "WARNING: DATA RACE") {
			out = append(out, p)
		}
	}

	return out
}

func writeEvidence(ck *Check, root, tier string, seed int64, res childResult, wall float64, num int) {
	level := ck.Level
	if level == "" {
		level = "exploration"
	}

	samples := res.Samples
	if samples == nil {
		samples = []interface{}{}
	}

	cov := map[string]interface{}{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                ck.Rule,
		"samples":             samples,
		"observed":            res.Counters,
		"cases_planned":       num,
		"known_findings_seen": len(res.Known),
	}

	if ck.Assumptions == nil {
		ck.Assumptions = []string{}
	}

	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": wall, "violations": len(res.Violations),
	}

	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}

	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)

	if err := os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}
