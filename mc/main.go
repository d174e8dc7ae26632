package mc

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// slot is a crash-proof record of the case a worker is executing.
type slot struct {
	b []byte // [4 active][4 count][64 name][choices uint16...]
}

const slotSize = 16384
const slotMax = (slotSize - 72) / 2

func (s *slot) begin(name string) {
	if s == nil || s.b == nil {
		return
	}
	binary.LittleEndian.PutUint32(s.b[4:], 0)
	n := copy(s.b[8:72], name)
	for i := n; i < 64; i++ {
		s.b[8+i] = 0
	}
	binary.LittleEndian.PutUint32(s.b[0:], 1)
}

func (s *slot) put(i, v int) {
	if s == nil || s.b == nil || i >= slotMax {
		return
	}
	binary.LittleEndian.PutUint16(s.b[72+2*i:], uint16(v))
	binary.LittleEndian.PutUint32(s.b[4:], uint32(i+1))
}

func (s *slot) end() {
	if s == nil || s.b == nil {
		return
	}
	binary.LittleEndian.PutUint32(s.b[0:], 0)
}

func mapSlots(path string, n int) []*slot {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	out := make([]*slot, n)
	if err != nil {
		for i := range out {
			out[i] = &slot{}
		}
		return out
	}
	defer f.Close()
	f.Truncate(int64(n * slotSize))
	m, err := syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	for i := range out {
		out[i] = &slot{}
		if err == nil {
			out[i].b = m[i*slotSize : (i+1)*slotSize]
		}
	}
	return out
}

var allocSamplePool = sync.Pool{New: func() interface{} {
	s := make([]metrics.Sample, 1)
	s[0].Name = "/gc/heap/allocs:bytes"
	return s
}}

func allocBytes() uint64 {
	s := allocSamplePool.Get().([]metrics.Sample)
	metrics.Read(s)
	v := s[0].Value.Uint64()
	allocSamplePool.Put(s)
	return v
}

// Replay is the file format of a counterexample.
type Replay struct {
	Property    string   `json:"property"`
	Exploration string   `json:"exploration"`
	Tier        string   `json:"tier"`
	Choices     []int    `json:"choices"`
	Kind        string   `json:"kind"`
	Key         string   `json:"key,omitempty"`
	Msg         string   `json:"msg"`
	Trace       []string `json:"trace,omitempty"`
	HowTo       string   `json:"how_to_replay"`
}

type childResult struct {
	Stats []Stats
	Fail  *Failure
	// Hang names a case that did not finish.
	Hang *Failure
}

// Property is one property's check: the explorations that decide it.
type Property struct {
	ID    string
	Level string
	// Build returns the explorations for a tier.
	Build       func(tier string) []Exploration
	Assumptions []string
	Explain     string
	// Deadline seconds per tier (defaults 120 / 800)
	QuickS, ThoroughS float64
	// HangS is the number of seconds after which one execution counts as hung.
	HangS   float64
	Workers int
	NoLimit bool // no address-space limit (race builds)
}

var known = map[string]string{} // key -> what

// Main runs one property check.
func Main(props []Property) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	evid := flag.String("evidence", "", "evidence file")
	repdir := flag.String("replays", "replays", "replay directory")
	knownf := flag.String("known", "", "known findings file")
	replay := flag.String("replay", "", "replay file")
	child := flag.String("child", "", "internal: result file")
	slotf := flag.String("slots", "", "internal: slot file")
	onecase := flag.String("case", "", "internal: run one case EXPLORATION:c1,c2,...")
	deadline := flag.Float64("deadline", 0, "internal")
	only := flag.String("only", "", "run only explorations whose name contains this")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	loadKnown(*knownf, *prop)
	var p *Property
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*prop = r.Property
		*tier = r.Tier
		p = find(props, *prop)
		f := runCase(p, *tier, r.Exploration, r.Choices, true)
		if f == nil {
			fmt.Println("replay: the execution does not violate the property")
			os.Exit(0)
		}
		for _, l := range f.Trace {
			fmt.Println(l)
		}
		fmt.Printf("replay: %s: %s\n", f.Kind, f.Msg)
		os.Exit(1)
	}
	p = find(props, *prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *onecase != "" {
		i := strings.LastIndex(*onecase, ":")
		var ch []int
		for _, s := range strings.Split((*onecase)[i+1:], ",") {
			if s != "" {
				n, _ := strconv.Atoi(s)
				ch = append(ch, n)
			}
		}
		f := runCase(p, *tier, (*onecase)[:i], ch, true)
		b, _ := json.Marshal(f)
		os.WriteFile(*child, b, 0644)
		os.Exit(0)
	}
	if *child != "" {
		runChild(p, *tier, *child, *slotf, *deadline, *only)
		return
	}
	parent(p, *tier, *evid, *repdir, *knownf, *only)
}

func find(props []Property, id string) *Property {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}

func runCase(p *Property, tier, name string, ch []int, tracing bool) *Failure {
	for _, ex := range p.Build(tier) {
		if strings.HasPrefix(ex.Name, name) && (len(name) >= 60 || ex.Name == name) {
			a0 := allocBytes()
			c, f, div, _ := runOnce(&ex, tier, ch, nil, tracing)
			a1 := allocBytes()
			if div != "" {
				fmt.Println("diverged:", div)
			}
			if f == nil && ex.AllocLimit != 0 && a1-a0 > ex.AllocLimit {
				f = &Failure{Key: "alloc", Kind: "alloc", Exploration: ex.Name, Choices: ch, Trace: c.trace,
					Msg: fmt.Sprintf("one execution allocated %d bytes (limit %d)", a1-a0, ex.AllocLimit)}
			}
			if f != nil {
				f.Exploration = ex.Name
			}
			return f
		}
	}
	fmt.Println("no exploration named", name)
	return nil
}

func nworkers(p *Property) int {
	if p.Workers > 0 {
		return p.Workers
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func runChild(p *Property, tier, out, slotf string, deadline float64, only string) {
	debug.SetMaxStack(512 << 20)
	nw := nworkers(p)
	slots := mapSlots(slotf, nw)
	var res childResult
	var mu sync.Mutex
	var curWorkers []*worker
	hang := p.HangS
	if hang == 0 {
		hang = 25
	}
	write := func() {
		b, _ := json.Marshal(res)
		os.WriteFile(out+".tmp", b, 0644)
		os.Rename(out+".tmp", out)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			for _, w := range curWorkers {
				t := atomic.LoadInt64(&w.caseStart)
				if t != 0 && time.Since(time.Unix(0, t)).Seconds() > hang {
					os.Exit(97) // the parent reads the slots
				}
			}
			mu.Unlock()
		}
	}()
	end := time.Now().Add(time.Duration(deadline * float64(time.Second)))
	exs := p.Build(tier)
	for i := range exs {
		ex := &exs[i]
		if only != "" && !strings.Contains(ex.Name, only) {
			continue
		}
		left := time.Until(end)
		dl := time.Now().Add(left)
		if i < len(exs)-1 {
			dl = time.Now().Add(left * 6 / 10)
		}
		kn := map[string]bool{}
		for k := range known {
			kn[k] = true
		}
		st, f := explore(ex, tier, nw, slots, dl, kn, func(ws []*worker) {
			mu.Lock()
			curWorkers = ws
			mu.Unlock()
		})
		res.Stats = append(res.Stats, st)
		if f != nil {
			res.Fail = f
			break
		}
		write()
	}
	write()
	os.Exit(0)
}

func loadKnown(path, prop string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var kf struct {
		Findings []struct{ Property, Key, What string }
	}
	if json.Unmarshal(b, &kf) == nil {
		for _, f := range kf.Findings {
			if f.Property == prop {
				known[f.Key] = f.What
			}
		}
	}
}

func limitCmd(p *Property, args ...string) *exec.Cmd {
	self, _ := os.Executable()
	if p.NoLimit {
		return exec.Command(self, args...)
	}
	q := make([]string, len(args))
	for i, a := range args {
		q[i] = "'" + strings.ReplaceAll(a, "'", `'\''`) + "'"
	}
	return exec.Command("/bin/sh", "-c", "ulimit -v 12000000; exec '"+self+"' "+strings.Join(q, " "))
}

func parent(p *Property, tier, evid, repdir, knownf, only string) {
	t0 := time.Now()
	dl := p.QuickS
	if dl == 0 {
		dl = 120
	}
	if tier == "thorough" {
		dl = p.ThoroughS
		if dl == 0 {
			dl = 780
		}
	}
	tmp, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Println("mktemp:", err)
		tmp = "."
	}
	defer os.RemoveAll(tmp)
	base := []string{"-prop", p.ID, "-tier", tier, "-known", knownf}
	resf := filepath.Join(tmp, "result.json")
	slotf := filepath.Join(tmp, "slots")
	cmd := limitCmd(p, append(base, "-child", resf, "-slots", slotf, "-deadline", fmt.Sprint(dl), "-only", only)...)
	var stderr tail
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", gorace)
	rerr := cmd.Run()
	var res childResult
	if b, err := os.ReadFile(resf); err == nil {
		json.Unmarshal(b, &res)
	}
	note := ""
	if rerr != nil && res.Fail == nil {
		// the child died: find the case that kills a fresh process too
		res.Fail = diagnose(p, base, tmp, slotf, stderr.String(), rerr)
		if res.Fail == nil {
			note = "the exploring process ended early (" + rerr.Error() + ") and no single case reproduces it: " + lastLines(stderr.String(), 12)
			fmt.Println("NOTE:", note)
		}
	}
	code := 0
	if res.Fail != nil {
		os.MkdirAll(repdir, 0755)
		path := filepath.Join(repdir, fmt.Sprintf("%s-%s.json", p.ID, time.Now().Format("150405.000")))
		r := Replay{Property: p.ID, Exploration: res.Fail.Exploration, Tier: tier, Choices: res.Fail.Choices, Kind: res.Fail.Kind,
			Key: res.Fail.Key, Msg: res.Fail.Msg, Trace: res.Fail.Trace, HowTo: "./run.sh " + p.ID + " -replay " + path}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(path, b, 0644)
		for _, l := range res.Fail.Trace {
			fmt.Println("  ", l)
		}
		fmt.Printf("%s in exploration %q key=%q: %s\n", res.Fail.Kind, res.Fail.Exploration, res.Fail.Key, firstN(res.Fail.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	hits := map[string]int{}
	for _, s := range res.Stats {
		for k, n := range s.Known {
			hits[k] += n
		}
	}
	var keys []string
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if hits[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s, %d executions]\n", p.ID, known[k], k, hits[k])
		}
	}
	writeEvidence(p, tier, evid, &res, time.Since(t0).Seconds(), code, note, hits)
	for _, s := range res.Stats {
		fmt.Printf("%s %-34s executions=%d states=%d transitions=%d outcomes=%d validated=%d pruned=%d exhaustive=%v %.1fs\n", p.ID, s.Name, s.Executions, s.States, s.Transitions, s.Outcomes, s.Validated, s.Pruned, s.Exhaustive, s.WallS)
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

// a race report ends the process, so that it is tied to the case in flight
const gorace = "GORACE=halt_on_error=1 exitcode=66"

func diagnose(p *Property, base []string, tmp, slotf, log string, rerr error) *Failure {
	b, err := os.ReadFile(slotf)
	if err != nil {
		return nil
	}
	var first *Failure
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := b[i : i+slotSize]
		if binary.LittleEndian.Uint32(s) != 1 {
			continue
		}
		n := int(binary.LittleEndian.Uint32(s[4:]))
		if n > slotMax {
			n = slotMax
		}
		name := strings.TrimRight(string(s[8:72]), "\x00")
		var ch []int
		var parts []string
		for j := 0; j < n; j++ {
			v := int(binary.LittleEndian.Uint16(s[72+2*j:]))
			ch = append(ch, v)
			parts = append(parts, strconv.Itoa(v))
		}
		out := filepath.Join(tmp, "case.json")
		os.Remove(out)
		cmd := limitCmd(p, append(base, "-child", out, "-case", name+":"+strings.Join(parts, ","))...)
		var t tail
		cmd.Stdout, cmd.Stderr = &t, &t
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single", gorace)
		if cmd.Start() != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil {
				f := &Failure{Exploration: name, Choices: ch, Kind: "crash", Key: "crash", Msg: "the process died: " + err.Error() + "\n" + lastLines(firstN(t.String(), 6000), 60)}
				if known["crash"] != "" {
					continue
				}
				return f
			}
			if bb, err := os.ReadFile(out); err == nil {
				var f *Failure
				if json.Unmarshal(bb, &f) == nil && f != nil && (f.Key == "" || known[f.Key] == "") {
					return f
				}
			}
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			return &Failure{Exploration: name, Choices: ch, Kind: "hang", Key: "hang", Msg: "the execution did not finish within 60 s in a fresh process"}
		}
		first = &Failure{Exploration: name, Choices: ch}
	}
	// no case alone does it, but the report itself is proof
	for _, w := range []string{"WARNING: DATA RACE", "fatal error: concurrent map", "\npanic: "} {
		if i := strings.Index("\n"+log, w); first != nil && i >= 0 && strings.Contains(log, "joy5") {
			first.Kind, first.Key = "crash", "crash"
			first.Msg = "the process died (this case was in flight): " + firstN(("\n" + log)[i:], 5000)
			return first
		}
	}
	return nil
}

func writeEvidence(p *Property, tier, path string, res *childResult, wall float64, code int, note string, hits map[string]int) {
	if path == "" {
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{}
	var execs, steps, validated, choices, div int64
	var states, outs int
	ex := note == "" && len(res.Stats) > 0
	var samples []interface{}
	var rules []string
	for _, s := range res.Stats {
		execs += s.Executions - s.Pruned
		steps += s.Transitions
		validated += s.Validated
		choices += s.Choices
		states += s.States
		outs += s.Outcomes
		div += s.Diverged
		if !s.Exhaustive {
			ex = false
		}
		for i, x := range s.Samples {
			if i < 3 {
				samples = append(samples, s.Name+": "+x)
			}
		}
		rules = append(rules, s.Name+": "+s.Rule)
	}
	if len(samples) == 0 {
		samples = []interface{}{"(no sample recorded)"}
	}
	cov["exhaustive"] = ex
	cov["samples"] = samples
	cov["explorations"] = res.Stats
	cov["evaluations"] = execs
	cov["distinct_nontrivial"] = outs
	cov["rule"] = "every execution is a distinct choice sequence; non-trivial = distinct observed outcome (hash of everything the implementation returned). " + strings.Join(rules, " | ")
	if p.Level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = validated
	}
	cov["choice_points"] = choices
	if note != "" {
		cov["note"] = note
	}
	if len(hits) > 0 {
		cov["known_findings_hit"] = hits
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "wall_s": wall, "violations": code,
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, append(b, '\n'), 0644)
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
