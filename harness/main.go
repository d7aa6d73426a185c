// Command harness decides the properties of sha1cd on generated cases.
//
// One process runs one property in one build configuration: first the
// enumerated cases of its shard, then cases generated (and, on failure, shrunk)
// by rapid. It always exits 0 and writes what it found to -out; any other ending
// is a crash, attributed to the case in -cur.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fOut     = flag.String("out", "", "result file")
	fCur     = flag.String("cur", "", "file holding the case being run")
	fReplay  = flag.String("replay", "", "run the case in this file only")
	fRecord  = flag.String("record", "", "write cases and transcripts here (C12)")
	fVerify  = flag.String("verify", "", "run the recorded cases and compare transcripts (C12)")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fChecks  = flag.Int("checks", 100, "number of generated cases")
	fShard   = flag.Int("shard", 0, "shard index")
	fShards  = flag.Int("shards", 1, "number of shards")
	fFixed   = flag.Int("fixed", 1, "1: run every enumerated case, k: every k-th, 0: none")
	fBudget  = flag.Float64("budget", 0, "stop generating after so many seconds")
	fBig     = flag.Bool("big", true, "include the large cases")
	fThor    = flag.Bool("thorough", false, "deeper enumerations")
	fSlow    = flag.Bool("slow", false, "emulated: smaller cases")
	fShrink  = flag.Float64("shrink", 20, "seconds spent shrinking")
	fCold    = flag.String("cold", "", "one case as the first use of the packages; the tables that are live: - or g, c")
	fSamples = flag.Int("samples", 3, "sample cases to report")
)

// stat collects what a case was about.
type stat struct {
	nontrivial bool
	labels     []string
}

func (s *stat) label(l string) { s.labels = append(s.labels, l) }
func (s *stat) labelIf(c bool, l string) {
	if c {
		s.label(l)
	}
}

// prop is a property: enumerated and generated cases and their check.
type prop struct {
	id, rule string
	gen      func(t *rapid.T) any
	decode   func(b []byte) (any, error)
	check    func(c any, st *stat) error
	fixed    func() []any
}

var props = map[string]*prop{}

func register[C any](id, rule string, gen func(*rapid.T) C, check func(*C, *stat) error, fixed func() []C) {
	p := &prop{id: id, rule: rule}
	if gen != nil {
		p.gen = func(t *rapid.T) any { c := gen(t); return &c }
	}
	p.decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return &c, err
	}
	p.check = func(c any, st *stat) error { return check(c.(*C), st) }
	p.fixed = func() (out []any) {
		if fixed != nil {
			for _, c := range fixed() {
				out = append(out, &c)
			}
		}
		return out
	}
	props[id] = p
}

type failure struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
	Want  []string        `json:"want,omitempty"`  // C12: what the reference build observed
	Fresh []uint64        `json:"fresh,omitempty"` // words the case may refer to, see special
	Cold  string          `json:"cold,omitempty"`  // the case is the first use of the packages
	Order int             `json:"order,omitempty"` // of the implementations
}

type result struct {
	Prop     string            `json:"prop"`
	Rule     string            `json:"rule"`
	Evals    int               `json:"evaluations"`
	Enum     int               `json:"enumerated"`
	NonTriv  int               `json:"nontrivial"`
	Labels   map[string]int    `json:"labels"`
	Samples  []json.RawMessage `json:"samples"`
	Fail     *failure          `json:"fail"`
	Internal string            `json:"internal"`
	Budget   bool              `json:"budget_hit"`
	Env      map[string]any    `json:"env"`
	Hashes   []string          `json:"hashes"`
}

var (
	res     result
	seen    = map[uint64]bool{}
	curFile *os.File
	order   int
)

// errStop ends generation when the time budget is used up.
var errStop = errors.New("budget")

func saveCur(b []byte) {
	if curFile == nil {
		return
	}
	curFile.WriteAt(b, 0)
	curFile.Truncate(int64(len(b)))
}

// exec runs one case. Panics and faults in the code under test are failures.
func exec(p *prop, c any, st *stat) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				res.Internal = s
				err = nil
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return p.check(c, st)
}

// run executes a case and accounts for it.
func run(p *prop, c any, count bool) error {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	saveCur(b)
	var st stat
	err = exec(p, c, &st)
	if count {
		res.Evals++
		for _, l := range st.labels {
			res.Labels[l]++
		}
		if st.nontrivial {
			h := fnv.New64a()
			h.Write(b)
			if !seen[h.Sum64()] {
				seen[h.Sum64()] = true
				n := len(res.Samples)
				if len(b) < 4000 && (n < *fSamples || (n < 2**fSamples && res.Evals > *fChecks/2)) {
					res.Samples = append(res.Samples, b)
				}
			}
		}
	}
	if err != nil && strings.HasPrefix(err.Error(), "harness:") {
		res.Internal = err.Error()
		return nil
	}
	if err != nil {
		res.Fail = &failure{Case: b, Error: err.Error(), Fresh: hints.Fresh, Cold: *fCold, Order: order}
	}
	return err
}

type tb struct {
	testing.TB
	failed bool
	logs   []string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return *fProp }
func (t *tb) Log(a ...any)              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *tb) Logf(f string, a ...any)   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) Cleanup(f func())          {}

func main() {
	testing.Init()
	flag.Parse()
	debug.SetPanicOnFault(true)
	if *fCur != "" {
		f, err := os.OpenFile(*fCur, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err != nil {
			fatal(err)
		}
		curFile = f
	}
	p := props[*fProp]
	if p == nil {
		fatal(fmt.Errorf("no property %q", *fProp))
	}
	res.Prop, res.Rule, res.Labels = p.id, p.rule, map[string]int{}
	saveCur([]byte(`{"canary":true}`))
	if p.id == "C16" && *fCold == "" {
		if err := coldStart(); err != nil {
			res.Fail = &failure{Case: []byte(`{"canary":true}`), Error: err.Error()}
		}
	}
	loadHints()
	var again failure
	if *fReplay != "" {
		again = readFailure()
		*fCold, order = again.Cold, again.Order
	} else if *fCold != "" {
		order = *fShard % len(impls)
	}
	impls = append(impls[order:len(impls):len(impls)], impls[:order]...)
	if *fCold == "" {
		probe()
	} else {
		assume(*fCold)
	}
	res.Env = map[string]any{"goos": runtime.GOOS, "goarch": runtime.GOARCH, "table_live_go": env.goLive,
		"table_live_c": env.cLive, "c_hooks": haveCHooks, "block_hook": haveBlockHook, "cgo": haveCgo, "hwcap_cleared": hwcapCleared()}

	switch {
	case res.Fail != nil:
	case *fReplay != "":
		replay(p, again)
	case *fCold != "":
		cold(p)
	case *fVerify != "":
		verify(p)
	default:
		search(p)
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, strconv.FormatUint(h, 36))
	}
	res.NonTriv = len(seen)
	b, err := json.Marshal(&res)
	if err != nil {
		fatal(err)
	}
	if *fOut == "" {
		res.Hashes = nil
		b, _ = json.MarshalIndent(&res, "", " ")
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(*fOut, b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

func readFailure() (f failure) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(err)
	}
	return f
}

// cold runs a single case.
func cold(p *prop) {
	fixed := p.fixed()
	if *fShard%2 == 1 && len(fixed) > 0 || p.gen == nil {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%d", *fSeed, *fShard)
		if len(fixed) > 0 {
			run(p, fixed[h.Sum64()>>8%uint64(len(fixed))], true)
		}
		return
	}
	*fFixed, *fChecks, *fShrink = 0, 1, 0
	search(p)
}

func replay(p *prop, f failure) {
	c, err := p.decode(f.Case)
	if err != nil {
		fatal(err)
	}
	wantTr = f.Want
	hints = hintSet{Fresh: f.Fresh}
	loadHints()
	run(p, c, true)
}

func search(p *prop) {
	start := time.Now()
	over := func() bool { return *fBudget > 0 && time.Since(start).Seconds() > *fBudget }
	if *fFixed > 0 {
		for i, c := range p.fixed() {
			if i%*fShards != *fShard || (i / *fShards)%*fFixed != 0 {
				continue
			}
			if over() {
				res.Budget = true
				break
			}
			if run(p, c, true) != nil {
				return
			}
			res.Enum++
		}
	}
	if p.gen == nil || *fChecks == 0 {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", *fSeed, p.id, *fShard)
	seed := h.Sum64()>>1 | 1
	for k, v := range map[string]string{"rapid.seed": strconv.FormatUint(seed, 10), "rapid.checks": strconv.Itoa(*fChecks),
		"rapid.nofailfile": "true", "rapid.shrinktime": fmt.Sprintf("%gs", *fShrink)} {
		if err := flag.Set(k, v); err != nil {
			fatal(err)
		}
	}
	rec := newRecorder(*fRecord)
	t := &tb{}
	done := make(chan bool)
	failing := false
	go func() {
		defer close(done)
		debug.SetPanicOnFault(true)
		rapid.Check(t, func(rt *rapid.T) {
			if over() {
				res.Budget = true
				if !failing {
					return
				}
			}
			c := p.gen(rt)
			transcript = transcript[:0]
			if err := run(p, c, !failing); err != nil {
				failing = true
				rt.Fatalf("property violated")
			}
			rec.add(c)
		})
	}()
	<-done
	rec.close()
	if res.Fail == nil && t.failed {
		res.Internal = fmt.Sprint(t.logs)
	}
}
