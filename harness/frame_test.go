package zzverif

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/zzverif/rapid"
)

// Input is one generated case. It is plain data, so that a failing case can be
// saved as JSON and checked again without the generator.
type Input struct {
	Prop    string            `json:"property"`
	Sub     string            `json:"sub"`
	Dialect string            `json:"dialect,omitempty"`
	A       string            `json:"a,omitempty"`
	B       string            `json:"b,omitempty"`
	C       string            `json:"c,omitempty"`
	Raw     []byte            `json:"raw,omitempty"` // base64, for byte-level inputs
	M1      *Schema           `json:"m1,omitempty"`
	M2      *Schema           `json:"m2,omitempty"`
	Strs    []string          `json:"strs,omitempty"`
	Kv      map[string]string `json:"kv,omitempty"`
	N       int               `json:"n,omitempty"`
	Any     json.RawMessage   `json:"any,omitempty"`
}

// Result is the verdict on one case.
type Result struct {
	Fail       string   // non-empty: the property is broken
	Nontrivial bool     // by the sub-property's stated rule
	Classes    []string // what kind of case it was
	Excluded   string   // the case belongs to a recorded known finding: not judged
}

func failf(f string, a ...any) *Result { return &Result{Fail: fmt.Sprintf(f, a...)} }

// Sub is one executable statement of (a part of) a property.
type Sub struct {
	Prop, Name string
	Rule       string // what makes a case non-trivial
	Quick      int    // number of cases over all shards
	Thorough   int
	External   bool // runs other processes
	Gen        func(t *rapid.T) *Input
	Check      func(in *Input) *Result
}

var subs []*Sub

func register(s *Sub) { subs = append(subs, s) }

// harnessError marks a defect of the harness itself: no verdict.
type harnessError struct{ msg string }

func harnessf(f string, a ...any) { panic(harnessError{fmt.Sprintf(f, a...)}) }

func fatalHarness(msg string) {
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR: "+msg)
	writeStats()
	os.Exit(2)
}

// judge runs the check; a panic that comes out of the code under test is a
// violation, one that comes out of the harness is an error of the harness.
func judge(s *Sub, in *Input) (res *Result) {
	current.Store(&currentCase{s, in, time.Now()})
	defer current.Store(nil)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		stack := string(debug.Stack())
		if he, ok := r.(harnessError); ok {
			b, _ := json.Marshal(in)
			fatalHarness(he.msg + "\n" + string(b))
		}
		if blameHarness(stack) {
			b, _ := json.Marshal(in)
			fatalHarness(fmt.Sprintf("panic in harness: %v\n%s\n%s", r, b, stack))
		}
		res = failf("panic: %v%s", r, panicSite(stack))
		res.Nontrivial = true
	}()
	return s.Check(in)
}

func stackFuncs(stack string) []string {
	var fs []string
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			fs = nil
			continue
		}
		if seenPanic && !strings.HasPrefix(l, "\t") && strings.Contains(l, "(") {
			fs = append(fs, l)
		}
	}
	return fs
}

func blameHarness(stack string) bool {
	for _, f := range stackFuncs(stack) {
		if strings.Contains(f, "kunitsucom/ddlctl/pkg/zzverif") {
			return true
		}
		if strings.Contains(f, "kunitsucom/ddlctl/") {
			return false
		}
	}
	return true
}

func panicSite(stack string) string {
	for _, f := range stackFuncs(stack) {
		if strings.Contains(f, "kunitsucom/ddlctl/") {
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			return " in " + f[strings.LastIndexByte(f, '/')+1:]
		}
	}
	return ""
}

type currentCase struct {
	s     *Sub
	in    *Input
	start time.Time
}

var current atomic.Pointer[currentCase]

// watchdog turns an endless loop or unbounded allocation of the code under
// test into a recorded failing case.
func watchdog() {
	limit := 60 * time.Second
	for {
		time.Sleep(100 * time.Millisecond)
		c := current.Load()
		if c == nil {
			continue
		}
		why := ""
		if time.Since(c.start) > limit {
			why = fmt.Sprintf("no answer within %v", limit)
		} else if time.Since(c.start) > 500*time.Millisecond {
			heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			metrics.Read(heap)
			if heap[0].Value.Uint64() > 3<<29 {
				why = "no answer and more than 1.5 GiB of memory used"
			}
		}
		if why != "" && current.Load() == c {
			if os.Getenv("ZZ_REPLAY") != "" {
				fmt.Printf("REPLAY-FAIL %s\n", why)
				os.Exit(0)
			}
			saveFailure(c.s, c.in, why)
			writeStats()
			os.Exit(0)
		}
	}
}

// --- statistics --------------------------------------------------------------

type subStats struct {
	Prop       string         `json:"property"`
	Sub        string         `json:"sub"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evaluations"`
	Nontrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct"`
	Excluded   map[string]int `json:"excluded,omitempty"`
	Classes    map[string]int `json:"classes"`
	Samples    []*Input       `json:"samples"`
	Failed     bool           `json:"failed"`
	Skipped    int            `json:"skipped,omitempty"` // for want of time
	hashes     map[uint64]bool
}

var (
	statsMu  sync.Mutex
	allStats []*subStats
	outDir   = os.Getenv("ZZ_OUT")
	shard, _ = strconv.Atoi(os.Getenv("ZZ_SHARD"))
	nshards  = atoiDefault(os.Getenv("ZZ_SHARDS"), 1)
)

func atoiDefault(s string, d int) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return d
	}
	return n
}

func writeStats() {
	statsMu.Lock()
	defer statsMu.Unlock()
	if outDir == "" {
		return
	}
	for _, s := range allStats {
		s.Distinct = len(s.hashes)
	}
	b, _ := json.Marshal(allStats)
	_ = os.WriteFile(fmt.Sprintf("%s/stats.%d.json", outDir, shard), b, 0o644)
	var hb []byte
	for _, s := range allStats {
		hs := make([]uint64, 0, len(s.hashes))
		for h := range s.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		for _, h := range hs {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
	}
	_ = os.WriteFile(fmt.Sprintf("%s/hashes.%d.bin", outDir, shard), hb, 0o644)
}

func saveFailure(s *Sub, in *Input, msg string) {
	b, err := json.MarshalIndent(map[string]any{"input": in, "message": msg}, "", " ")
	if err != nil {
		fatalHarness(err.Error())
	}
	if outDir != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/fail.%s.%d.json", outDir, s.Name, shard), b, 0o644)
	}
	fmt.Printf("FAIL %s/%s: %s\n", s.Prop, s.Name, msg)
}

// currentFile holds the case being judged, for the runner to pick up should
// the process die in a way that cannot be caught (stack overflow, for one).
var currentFile []byte

func openCurrentFile() {
	if outDir == "" {
		return
	}
	f, err := os.Create(fmt.Sprintf("%s/current.%d.json", outDir, shard))
	if err != nil {
		fatalHarness(err.Error())
	}
	defer f.Close()
	const size = 8 << 20
	if err := f.Truncate(size); err != nil {
		fatalHarness(err.Error())
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalHarness(err.Error())
	}
	currentFile = m
}

func noteCurrent(b []byte) {
	if len(b) < len(currentFile) {
		copy(currentFile, b)
		currentFile[len(b)] = 0
	}
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

// --- driver ------------------------------------------------------------------

func runSub(t *testing.T, s *Sub, seed uint64, checks int) {
	st := &subStats{Prop: s.Prop, Sub: s.Name, Rule: s.Rule, Classes: map[string]int{}, Excluded: map[string]int{}, hashes: map[uint64]bool{}}
	statsMu.Lock()
	allStats = append(allStats, st)
	statsMu.Unlock()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fatalHarness(err.Error())
		}
	}
	set("rapid.checks", strconv.Itoa(checks))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "20s")
	var last *Input
	var lastMsg string
	failed := false
	t.Run(s.Name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if outOfTime() {
				if !failed {
					st.Skipped++
				}
				return
			}
			in := s.Gen(rt)
			in.Prop, in.Sub = s.Prop, s.Name
			raw, _ := json.Marshal(in)
			noteCurrent(raw)
			res := judge(s, in)
			if !failed {
				st.Evals++
				if res.Excluded != "" {
					st.Excluded[res.Excluded]++
				} else {
					for _, c := range res.Classes {
						st.Classes[c]++
					}
					if res.Nontrivial {
						st.Nontrivial++
						h := hashBytes(raw)
						if !st.hashes[h] {
							st.hashes[h] = true
							n := len(st.hashes)
							if n <= 2 || (n&(n-1)) == 0 && len(st.Samples) < 8 {
								st.Samples = append(st.Samples, in)
							}
						}
					}
				}
			}
			if res.Fail != "" {
				failed = true
				last, lastMsg = in, res.Fail
				rt.Fatalf("property broken")
			}
		})
	})
	if last != nil {
		st.Failed = true
		// confirm without the generator
		b, _ := json.Marshal(last)
		in2 := &Input{}
		if err := json.Unmarshal(b, in2); err != nil {
			fatalHarness(err.Error())
		}
		repeats := false
		for i := 0; i < 30 && !repeats; i++ {
			repeats = judge(s, in2).Fail != ""
		}
		if !repeats {
			if s.External {
				fatalHarness(fmt.Sprintf("%s/%s: a failure did not repeat: %s\n%s", s.Prop, s.Name, lastMsg, b))
			}
			// The harness is a pure function of the case: the tool is not.
			lastMsg = "(intermittent: the same case gives different answers) " + lastMsg
		}
		nfailed++
		saveFailure(s, last, lastMsg)
	}
}

var nfailed int

var processStart = time.Now()

// outOfTime ends a quick run that takes unusually long (a broken tool may wait
// and retry in every case): what is not explored is counted as skipped.
func outOfTime() bool {
	return os.Getenv("ZZ_TIER") == "quick" && time.Since(processStart) > 360*time.Second
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// TestProp runs every sub-property of ZZ_PROP.
func TestProp(t *testing.T) {
	prop := os.Getenv("ZZ_PROP")
	if prop == "" {
		t.Skip("ZZ_PROP is not set")
	}
	debug.SetMaxStack(256 << 20)
	openCurrentFile()
	go watchdog()
	seed, _ := strconv.ParseUint(os.Getenv("ZZ_SEED"), 10, 64)
	thorough := os.Getenv("ZZ_TIER") == "thorough"
	scale := 1.0
	if f, err := strconv.ParseFloat(os.Getenv("ZZ_SCALE"), 64); err == nil {
		scale = f
	}
	only := os.Getenv("ZZ_SUB")
	start := time.Now()
	found := false
	for _, s := range subs {
		if s.Prop != prop || only != "" && s.Name != only {
			continue
		}
		found = true
		if nfailed > 0 && time.Since(start) > 100*time.Second {
			continue // enough is known
		}
		n := s.Quick
		if thorough {
			n = s.Thorough
		}
		n = int(float64(n)*scale)/nshards + 1
		sd := mix(mix(mix(seed)+hashBytes([]byte(s.Prop+"/"+s.Name))) + uint64(shard))
		runSub(t, s, sd, n)
	}
	writeStats()
	if !found {
		fatalHarness("no sub-property for " + prop)
	}
}

// TestReplay judges one saved case and prints the verdict.
func TestReplay(t *testing.T) {
	f := os.Getenv("ZZ_REPLAY")
	if f == "" {
		t.Skip("ZZ_REPLAY is not set")
	}
	debug.SetMaxStack(256 << 20)
	go watchdog()
	b, err := os.ReadFile(f)
	if err != nil {
		fatalHarness(err.Error())
	}
	var w struct {
		Input *Input `json:"input"`
	}
	if err := json.Unmarshal(b, &w); err != nil || w.Input == nil {
		fatalHarness(fmt.Sprintf("bad replay file %s: %v", f, err))
	}
	for _, s := range subs {
		if s.Prop == w.Input.Prop && s.Name == w.Input.Sub {
			res := judge(s, w.Input)
			if res.Fail != "" {
				fmt.Printf("REPLAY-FAIL %s\n", res.Fail)
			} else {
				fmt.Printf("REPLAY-PASS\n")
			}
			return
		}
	}
	fatalHarness(fmt.Sprintf("no sub-property %s/%s", w.Input.Prop, w.Input.Sub))
}

// TestMake writes a case built from two DDL texts (ZZ_A, ZZ_B) to ZZ_MAKE.
func TestMake(t *testing.T) {
	f := os.Getenv("ZZ_MAKE")
	if f == "" {
		t.Skip("ZZ_MAKE is not set")
	}
	in := &Input{Prop: os.Getenv("ZZ_PROP"), Sub: os.Getenv("ZZ_SUB"), Dialect: os.Getenv("ZZ_DIALECT"), A: os.Getenv("ZZ_A"), B: os.Getenv("ZZ_B"), C: os.Getenv("ZZ_C")}
	fmt.Sscan(os.Getenv("ZZ_N"), &in.N)
	for i, text := range []string{in.A, in.B} {
		m, err := readSchema(in.Dialect, text)
		if err != nil {
			fatalHarness(err.Error())
		}
		if i == 0 {
			in.M1 = m
		} else {
			in.M2 = m
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"input": in}, "", " ")
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		fatalHarness(err.Error())
	}
}

// TestList prints the registered sub-properties.
func TestList(t *testing.T) {
	if os.Getenv("ZZ_LIST") == "" {
		t.Skip()
	}
	for _, s := range subs {
		fmt.Printf("%s\t%s\t%d\t%d\n", s.Prop, s.Name, s.Quick, s.Thorough)
	}
}

// mix is splitmix64: distinct seeds give unrelated streams, never 0.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	x ^= x >> 31
	if x>>1 == 0 {
		x = 12345
	}
	return x >> 1
}
