package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop lists the machinery of one property.
type Prop struct {
	ID      string
	Tasks   []Task
	Replay  []Replay // concrete searches on the real code
	Assume  []string // assumptions specific to this property
	Bounded []string // parts that are only checked up to a bound
}

// Replay is a concrete search for a failing input on the real code: a Go test put next to the
// package through an overlay.
type Replay struct {
	Pkg   string // sign, src
	Run   string // test name
	Files []string
	Dir   string // directory of the driver below /verif/replay; default Pkg
}

type taskOut struct {
	Task     Task
	Unsup    string
	Obls     []*Obl
	Covers   []string
	Funcs    map[string]int
	Contract map[string]int
	Trusted  map[string]int
	Assumed  map[string]int
	Loops    map[string]int
	Secs     float64
	SolverS  float64
	Queries  int
	Paths    int
	Err      string
}

var verifDir = "/verif"
var repoDir = "/repo"

func init() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
}

// taskMain runs one task and prints its result as JSON
func taskMain(arg string) {
	var t Task
	if err := json.Unmarshal([]byte(arg), &t); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	out := &taskOut{Task: t}
	p, err := loadRepo(repoDir, taskOverlay(t))
	if err != nil {
		out.Err = err.Error()
	} else {
		r := p.run(t)
		out.Unsup = r.Unsup
		out.Obls = r.Obls
		for k := range r.Covers {
			out.Covers = append(out.Covers, k)
		}
		sort.Strings(out.Covers)
		out.Funcs, out.Contract, out.Trusted, out.Assumed, out.Loops = r.X.funcs, r.X.usedContracts, r.X.trusted, r.X.assumed, r.X.loops
		out.Secs = r.Dur.Seconds()
		out.SolverS = r.X.s.st.SolverSec
		out.Queries = r.X.s.st.Queries
		out.Paths = r.Paths
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

// taskOverlay: the specification files a task needs
func taskOverlay(t Task) map[string][]byte {
	all := readOverlay(repoDir, filepath.Join(verifDir, "specs"))
	m := map[string][]byte{}
	for f, b := range all {
		n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "zz_verif_"), ".go")
		dir, _ := filepath.Rel(repoDir, filepath.Dir(f))
		if dir != t.Pkg {
			continue
		}
		if n == "intrin" || n == "lib" {
			m[f] = b
		}
		for _, w := range t.Files {
			if w == n {
				m[f] = b
			}
		}
	}
	return m
}

func runTask(t Task) *taskOut {
	b, _ := json.Marshal(t)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "task", string(b))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
	if err := cmd.Start(); err != nil {
		return &taskOut{Task: t, Err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(t.budget() + 60*time.Second):
		cmd.Process.Kill()
		<-done
		return &taskOut{Task: t, Unsup: "time budget exhausted"}
	}
	var o taskOut
	i := bytes.IndexByte(so.Bytes(), '{')
	if i < 0 || json.Unmarshal(so.Bytes()[i:], &o) != nil {
		return &taskOut{Task: t, Err: fmt.Sprintf("verifier ended: %v %s", err, trunc(se.String(), 2000))}
	}
	return &o
}

func (t Task) budget() time.Duration {
	if t.Budget == 0 {
		return 150 * time.Second
	}
	return t.Budget
}

type replayOut struct {
	R        Replay
	Failing  []string // failing inputs
	Cases    int
	Distinct int
	Samples  []string
	Rules    []string
	Err      string // could not run
	Log      string
}

var (
	reFail   = regexp.MustCompile(`(?m)^\s*(?:\S+\.go:\d+: )?FAILING-INPUT: (.*)$`)
	reCases  = regexp.MustCompile(`(?m)CASES: (\d+) DISTINCT: (\d+)`)
	reSample = regexp.MustCompile(`(?m)SAMPLE: (.*)$`)
	reRule   = regexp.MustCompile(`(?m)RULE: (.*)$`)
)

func runReplay(r Replay, tier, seed string, secs int) *replayOut {
	out := &replayOut{R: r}
	tmp, err := os.MkdirTemp("", "govc-replay-")
	if err != nil {
		out.Err = err.Error()
		return out
	}
	defer os.RemoveAll(tmp)
	dir := r.Dir
	if dir == "" {
		dir = r.Pkg
	}
	rep := map[string]string{}
	for _, f := range r.Files {
		name := "zz_replay_" + f + "_test.go"
		rep[filepath.Join(repoDir, r.Pkg, name)] = filepath.Join(verifDir, "replay", dir, name)
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0600)
	bin := filepath.Join(tmp, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+r.Pkg)
	cmd.Dir = repoDir
	b, err := cmd.CombinedOutput()
	if err != nil {
		out.Err = "driver does not build: " + trunc(string(b), 3000)
		return out
	}
	work := filepath.Join(tmp, "work")
	os.Mkdir(work, 0755)
	cmd = exec.Command(bin, "-test.run", "^"+r.Run+"$", "-test.v", fmt.Sprintf("-test.timeout=%ds", secs))
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "VERIF_SEED="+seed, "TMPDIR="+work, "HOME="+work, "VERIF_REPO="+repoDir)
	b, err = cmd.CombinedOutput()
	out.Log = string(b)
	for _, m := range reFail.FindAllStringSubmatch(out.Log, -1) {
		out.Failing = append(out.Failing, m[1])
	}
	for _, m := range reCases.FindAllStringSubmatch(out.Log, -1) {
		c, _ := strconv.Atoi(m[1])
		d, _ := strconv.Atoi(m[2])
		out.Cases += c
		out.Distinct += d
	}
	for _, m := range reSample.FindAllStringSubmatch(out.Log, -1) {
		out.Samples = append(out.Samples, trunc(m[1], 300))
	}
	for _, m := range reRule.FindAllStringSubmatch(out.Log, -1) {
		out.Rules = append(out.Rules, m[1])
	}
	if err != nil && len(out.Failing) == 0 {
		if i := strings.Index(out.Log, "panic: "); i >= 0 && !strings.Contains(out.Log, "panic: test timed out") {
			out.Failing = append(out.Failing, "the code crashed: "+trunc(out.Log[i:], 600))
		} else {
			out.Err = fmt.Sprintf("driver ended: %v %s", err, trunc(out.Log, 2000))
		}
	}
	return out
}

func checkMain(id, tier string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	var tasks []Task
	for _, t := range p.Tasks {
		if t.Thorough && tier != "thorough" {
			continue
		}
		if tier == "thorough" && t.Budget == 0 {
			t.Budget = 400 * time.Second
		}
		tasks = append(tasks, t)
	}
	// long tasks first
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].Weight > tasks[j].Weight })
	outs := make([]*taskOut, len(tasks))
	var reps []*replayOut
	var wg sync.WaitGroup
	slots := make(chan bool, runtime.NumCPU())
	for i := range tasks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			outs[i] = runTask(tasks[i])
			<-slots
		}(i)
	}
	secs := 240
	if tier == "thorough" {
		secs = 600
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, r := range p.Replay {
			reps = append(reps, runReplay(r, tier, seed, secs))
		}
	}()
	wg.Wait()
	// the contracts the bodies of other functions were replaced by are proved as well
	provedBy := map[string][]string{}
	for done := false; !done; {
		done = true
		have := map[string]bool{}
		for _, t := range tasks {
			have[t.Pkg+"."+t.Fn] = true
		}
		n := len(tasks)
		for _, o := range outs[:n] {
			for c := range o.Contract {
				var by []string
				for _, t := range proofs[c] {
					nm := t.Pkg + "." + t.Fn
					by = append(by, nm)
					if have[nm] {
						continue
					}
					have[nm], done = true, false
					if tier == "thorough" && t.Budget == 0 {
						t.Budget = 400 * time.Second
					}
					tasks = append(tasks, t)
				}
				if by != nil {
					provedBy[c] = by
				}
			}
		}
		outs = append(outs, make([]*taskOut, len(tasks)-n)...)
		for i := n; i < len(tasks); i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				slots <- true
				outs[i] = runTask(tasks[i])
				<-slots
			}(i)
		}
		wg.Wait()
	}

	// judge
	type viol struct {
		key, text string
		input     string
	}
	var vs []viol
	obl, inst, disch := 0, 0, 0
	by := map[string]int{}
	funcs, contracts, trusted, assumed, loops := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	var solver, wall float64
	queries, paths := 0, 0
	type row struct {
		Spec   string  `json:"specification"`
		Obl    int     `json:"obligations"`
		Inst   int     `json:"instances"`
		Secs   float64 `json:"seconds"`
		Solver float64 `json:"solver_seconds"`
		Paths  int     `json:"paths"`
	}
	var rows []row
	for i, o := range outs {
		t := tasks[i]
		nm := t.Pkg + "." + t.Fn
		solver += o.SolverS
		wall += o.Secs
		queries += o.Queries
		paths += o.Paths
		for _, m := range []struct{ a, b map[string]int }{{funcs, o.Funcs}, {contracts, o.Contract}, {trusted, o.Trusted}, {assumed, o.Assumed}, {loops, o.Loops}} {
			for k, v := range m.b {
				m.a[k] += v
			}
		}
		rows = append(rows, row{nm, len(o.Obls), 0, o.Secs, o.SolverS, o.Paths})
		for _, b := range o.Obls {
			obl++
			inst += b.N
			rows[len(rows)-1].Inst += b.N
			if b.Failed {
				vs = append(vs, viol{key: b.Name, text: fmt.Sprintf("obligation %s (%s) not discharged\n%s\n%s", b.Name, b.Pos, b.Fail, b.Model)})
				continue
			}
			disch++
			for k, v := range b.By {
				by[k] += v
			}
		}
		if o.Err != "" {
			obl++
			vs = append(vs, viol{key: nm + "/run", text: "specification " + nm + " could not be checked: " + o.Err})
			continue
		}
		if o.Unsup != "" {
			obl++
			vs = append(vs, viol{key: nm + "/complete", text: "specification " + nm + " not decided: " + o.Unsup})
			continue
		}
		// vacuity
		have := map[string]bool{}
		for _, c := range o.Covers {
			have[c] = true
		}
		for _, c := range t.Cover {
			obl++
			if !have[c] {
				vs = append(vs, viol{key: nm + "/cover " + c, text: "specification " + nm + " is vacuous: point \"" + c + "\" is not reachable"})
			} else {
				disch++
			}
		}
		if len(o.Obls) == 0 {
			obl++
			vs = append(vs, viol{key: nm + "/nonempty", text: "specification " + nm + " generated no obligations"})
		}
	}
	var bcases, bdist int
	var samples, rules, repnotes []string
	for _, r := range reps {
		bcases += r.Cases
		bdist += r.Distinct
		samples = append(samples, r.Samples...)
		rules = append(rules, r.Rules...)
		if r.Err != "" {
			repnotes = append(repnotes, r.R.Run+": "+r.Err)
		}
		for _, f := range r.Failing {
			vs = append(vs, viol{key: "replay " + r.R.Run, text: "driver " + r.R.Run + " on the real code: " + f, input: f})
		}
	}
	// known findings
	known := readKnown(id)
	var left []viol
	nk := map[string]bool{}
	for _, v := range vs {
		k := ""
		for _, kf := range known {
			if strings.Contains(v.key, kf.key) && strings.Contains(v.text, kf.match) {
				k = kf.what
			}
		}
		if k != "" {
			if !nk[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				nk[k] = true
			}
			continue
		}
		left = append(left, v)
	}
	vs = left

	var fl []string
	for k := range funcs {
		fl = append(fl, k)
	}
	sort.Strings(fl)
	keys := func(m map[string]int) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	cov := map[string]interface{}{
		"obligations":               obl,
		"discharged":                disch,
		"obligation_instances":      inst,
		"instances_by_back_end":     by,
		"checker_cmd":               "/verif/check.sh " + id + " " + tier,
		"trusted_base":              append([]string{"golang.org/x/tools/go/ssa (Go front end)", "govc (/verif/govc): symbolic executor, simplifier and invariant inference", "z3 4.8 / z3-new", "Go gc toolchain"}, prefixAll("contract of dependency: ", keys(trusted))...),
		"functions_verified":        fl,
		"contracts_used_for_bodies": keys(contracts),
		"contracts_proved_here_by":  provedBy,
		"loops_with_invariants":     loops,
		"specifications":            rows,
		"paths":                     paths,
		"solver_queries":            queries,
		"solver_seconds":            solver,
		"verifier_seconds":          wall,
	}
	if len(p.Bounded) > 0 {
		cov["bounded_not_proved"] = p.Bounded
	}
	if len(p.Replay) > 0 {
		cov["replay_on_real_code"] = map[string]interface{}{
			"what":        "bounded cross-check and replay search on the compiled code; never counted as proved",
			"evaluations": bcases, "distinct_nontrivial": bdist, "rule": strings.Join(rules, "; "),
			"samples": head(samples, 8), "notes": repnotes,
		}
	}
	as := append([]string{}, globalAssumptions...)
	as = append(as, p.Assume...)
	for _, k := range keys(assumed) {
		as = append(as, k)
	}
	sd, _ := strconv.Atoi(seed)
	lev := "proof"
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": sd, "level": lev, "coverage": cov, "assumptions": as,
		"wall_s": time.Since(t0).Seconds(), "violations": len(vs),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0644)

	if len(vs) == 0 {
		fmt.Printf("OK property=%s tier=%s: %d obligations (%d instances) discharged, %d functions, %d replay cases, %.1fs\n", id, tier, disch, inst, len(fl), bcases, time.Since(t0).Seconds())
		for _, n := range repnotes {
			fmt.Println("note:", trunc(n, 500))
		}
		return 0
	}
	rf := filepath.Join(verifDir, "evidence", "replay-"+id+".txt")
	var sb strings.Builder
	inputs := 0
	fmt.Fprintf(&sb, "property %s, tier %s, seed %s\nrun again: VERIF_SEED=%s %s\n\n", id, tier, seed, seed, "/verif/check.sh "+id+" "+tier)
	for _, v := range vs {
		if v.input != "" {
			inputs++
			fmt.Fprintf(&sb, "FAILING INPUT (real code): %s\n\n", v.text)
		}
	}
	for _, v := range vs {
		if v.input == "" {
			fmt.Fprintf(&sb, "FAILED OBLIGATION %s\n%s\n\n", v.key, trunc(v.text, 6000))
		}
	}
	for _, n := range repnotes {
		fmt.Fprintf(&sb, "NOTE: replay driver %s\n", n)
	}
	os.WriteFile(rf, []byte(sb.String()), 0644)
	for i, v := range vs {
		if i < 12 {
			fmt.Println("  " + trunc(strings.SplitN(v.text, "\n", 2)[0], 300))
		}
	}
	sfx := ""
	if inputs == 0 {
		sfx = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, rf, sfx)
	return 1
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func prefixAll(p string, s []string) []string {
	var r []string
	for _, x := range s {
		r = append(r, p+x)
	}
	return r
}

type knownFinding struct{ key, match, what string }

// known_findings.txt: lines "known: property=<id> key=<obligation> match=<text> | <what fails>"
func readKnown(id string) []knownFinding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var r []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) key=(.*?) match=(.*?) \| (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == id {
			r = append(r, knownFinding{m[2], m[3], m[4]})
		}
	}
	return r
}

var globalAssumptions = []string{
	"ideal cryptography: AES-GCM, Ed25519, SHA-2, HMAC, HKDF, scrypt and X25519 are uninterpreted injective functions with their functional correctness equations; an AEAD ciphertext that was not produced under that key and nonce does not open, an Ed25519 signature that was not produced by the key does not verify (cryptographic strength itself is out of scope)",
	"the contracts of the standard library and third party functions listed in trusted_base (entries 'contract of dependency') are assumed",
	"64-bit platform; byte sequences are shorter than 2^48 bytes and loops run fewer than 2^62 iterations",
	"machine integers are modelled exactly (wrap-around included) by linear/modular integer arithmetic; no aliasing of caller buffers other than through the objects passed in",
	"the debug() tracing facility is off; memory exhaustion is not modelled; single goroutine",
}
