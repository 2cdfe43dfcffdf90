package main

// The registered checks: `gov check -prop C05 -tier quick`.
//
// The deciding step is the verification of the contracts on /repo's current
// source. The oracle (generated Go tests on the real package) runs beside it: it
// replays a failing obligation on the real code, that is it looks for an input
// on which the property fails, and it is a bounded cross-check of the contracts.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type oracleCfg struct {
	pkg  string // package directory below the repository ("" = root)
	dir  string // directory of the test files below /verif/oracles
	env  []string
	name string
}

func oracleOf(prop string) *oracleCfg {
	n, _ := strconv.Atoi(strings.TrimPrefix(prop, "C"))
	switch {
	case n >= 1 && n <= 14:
		return &oracleCfg{pkg: "", dir: "psd"}
	case n == 15 || n == 16:
		return &oracleCfg{pkg: "color", dir: "color"}
	case n >= 17 && n <= 22:
		return &oracleCfg{pkg: "blend", dir: "blend"}
	case n >= 23 && n <= 25:
		return &oracleCfg{pkg: "composite", dir: "composite"}
	case n == 26:
		return &oracleCfg{pkg: "", dir: "js"}
	}
	return nil
}

func packagesOf(prop string) []string {
	n, _ := strconv.Atoi(strings.TrimPrefix(prop, "C"))
	switch {
	case n <= 14 || n == 26:
		return []string{modPath, modPath + "/color"}
	case n == 15 || n == 16:
		return []string{modPath + "/color"}
	case n >= 17 && n <= 22:
		return []string{modPath + "/blend"}
	}
	return []string{modPath, modPath + "/color", modPath + "/blend", modPath + "/composite"}
}

type oracleResult struct {
	ran      bool
	note     string
	fails    []string // VFAIL payloads
	count    int
	kinds    map[string]int
	crash    string
	dur      time.Duration
	programs int
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOSUMDB=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
}

// buildOracle compiles the oracle of a property into a scratch directory.
func buildOracle(o *oracleCfg, scratch string) (string, error) {
	files, _ := filepath.Glob(filepath.Join(verifDir, "oracles", o.dir, "*_test.go"))
	if len(files) == 0 {
		return "", fmt.Errorf("no oracle")
	}
	mod := filepath.Join(scratch, "go.mod")
	b, err := os.ReadFile(filepath.Join(verifDir, "gomod", "go.mod"))
	if err != nil {
		return "", err
	}
	if o.pkg == "composite" {
		b, err = os.ReadFile(filepath.Join(verifDir, "gomod", "composite.mod"))
		if err != nil {
			return "", err
		}
		b = bytes.ReplaceAll(b, []byte("VERIF"), []byte(verifDir))
	}
	os.WriteFile(mod, b, 0o644)
	rep := map[string]string{
		filepath.Join(repoDir, "go.mod"): mod,
		filepath.Join(repoDir, "go.sum"): filepath.Join(verifDir, "gomod", "go.sum"),
	}
	pd := filepath.Join(repoDir, o.pkg)
	old, _ := filepath.Glob(filepath.Join(pd, "*_test.go"))
	for _, f := range old {
		rep[f] = ""
	}
	for _, f := range files {
		rep[filepath.Join(pd, filepath.Base(f))] = f
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ov, j, 0o644)
	bin := filepath.Join(scratch, "oracle.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-o", bin, "-overlay", ov, "./"+o.pkg)
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), o.env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, tail(string(out), 2000))
	}
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var countRe = regexp.MustCompile(`(?m)^VFCOUNT (\S+) (\d+)`)

// runOracle runs n processes with different seeds for the given time.
func runOracle(bin, prop string, seed int64, n int, budget time.Duration, limit time.Duration) oracleResult {
	t0 := time.Now()
	res := oracleResult{ran: true, kinds: map[string]int{}, programs: n}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(bin, "-test.run", "^TestVF_"+prop+"$", "-test.count=1", "-test.timeout", (limit + 30*time.Second).String())
			cmd.Env = append(os.Environ(), "VF_PROP="+prop, fmt.Sprintf("VF_BUDGET=%.1f", budget.Seconds()), fmt.Sprintf("VERIF_SEED=%d", seed*64+int64(i)), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
			cmd.Dir = repoDir
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Start(); err != nil {
				mu.Lock()
				res.note = err.Error()
				res.ran = false
				mu.Unlock()
				return
			}
			timedOut := false
			tm := time.AfterFunc(limit, func() {
				timedOut = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			})
			err := cmd.Wait()
			tm.Stop()
			s := out.String()
			mu.Lock()
			defer mu.Unlock()
			sc := bufio.NewScanner(strings.NewReader(s))
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			found := false
			for sc.Scan() {
				l := sc.Text()
				if strings.HasPrefix(l, "VFAIL ") {
					res.fails = append(res.fails, strings.TrimPrefix(l, "VFAIL "))
					found = true
				}
			}
			for _, m := range countRe.FindAllStringSubmatch(s, -1) {
				k, _ := strconv.Atoi(m[2])
				res.count += k
				res.kinds[m[1]] += k
			}
			if err != nil && !found {
				if timedOut {
					res.note = "time limit reached"
				} else if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
					// a panic in another goroutine of the code under test ends the process
					if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate") || strings.Contains(s, "signal: killed") {
						res.note = "oracle ended: " + tail(s, 300)
					} else {
						res.crash = fmt.Sprintf("seed %d: %s", seed*64+int64(i), tail(s, 4000))
					}
				} else {
					res.note = "oracle ended: " + tail(s, 300) + " " + err.Error()
				}
			}
		}()
	}
	wg.Wait()
	res.dur = time.Since(t0)
	return res
}

type knownFinding struct {
	prop, obligation, text string
}

func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) obligation=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

type failure struct {
	name string
	text string
}

func checkMain(prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	thorough := tier == "thorough"
	scratch, err := os.MkdirTemp("", "gov")
	if err != nil {
		fmt.Println("scratch:", err)
		return 2
	}
	defer os.RemoveAll(scratch)

	budget, procs := 12*time.Second, 3
	quick, full := 3*time.Second, 30*time.Second
	if thorough {
		budget, procs = 180*time.Second, 7
		quick, full = 5*time.Second, 120*time.Second
	}
	run := &Run{prop: prop, quick: quick, full: full}
	oc := oracleOf(prop)
	orc := make(chan oracleResult, 1)
	var bin string
	go func() {
		if oc == nil {
			orc <- oracleResult{note: "no oracle"}
			return
		}
		b, err := buildOracle(oc, scratch)
		if err != nil {
			orc <- oracleResult{note: "oracle not built: " + err.Error()}
			return
		}
		bin = b
		res := runOracle(b, prop, seed, procs, budget, budget+60*time.Second)
		if len(res.fails) > 0 || res.crash != "" {
			run.input.Store(true)
		}
		orc <- res
	}()

	var fails []failure
	loadErr := func() (e string) {
		defer func() {
			if p := recover(); p != nil {
				e = fmt.Sprint("internal: ", p)
			}
		}()
		ld := NewLoader(repoDir)
		if prop == "C26" {
			ld.ctx.GOOS, ld.ctx.GOARCH = "js", "wasm"
		}
		if err := ld.Build(packagesOf(prop)...); err != nil {
			return fmt.Sprint(err, " ", strings.Join(ld.errs, "; "))
		}
		pr := NewProj(ld)
		if err := pr.LoadContracts(filepath.Join(verifDir, "contracts")); err != nil {
			return err.Error()
		}
		run.pr, run.ld = pr, ld
		run.deadline = t0.Add(400 * time.Second)
		if thorough {
			run.deadline = t0.Add(800 * time.Second)
		}
		run.verifyAll()
		return ""
	}()
	if loadErr != "" {
		fails = append(fails, failure{"load", "the source could not be loaded by the verifier: " + loadErr})
	}
	obligations, discharged := 0, 0
	backends := map[string]int{}
	var solverTime time.Duration
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var functions, slow []string
	var samples []string
	loops := []string{}
	for _, u := range run.units {
		functions = append(functions, u.c.name)
		for a := range u.assumed {
			assumed[a] = true
		}
		for a := range u.inlined {
			inl[a] = true
		}
		loops = append(loops, u.loopInfo...)
		if u.err != "" {
			obligations++
			fails = append(fails, failure{u.c.name + ":supported", "the function is outside the supported subset or a contract no longer fits: " + u.err})
		}
		if u.vacuous {
			obligations++
			fails = append(fails, failure{u.c.name + ":reachable", "no normal return of the function is reachable under its precondition"})
		}
		for _, o := range u.obls {
			obligations++
			solverTime += o.res.dur
			if o.res.status == "unsat" {
				discharged++
				backends[o.res.solver]++
				if len(samples) < 4 && obligations%7 == 1 {
					samples = append(samples, o.name+": "+o.desc)
				}
				if o.res.dur > 5*time.Second {
					slow = append(slow, fmt.Sprintf("%s %.1fs", o.name, o.res.dur.Seconds()))
				}
				continue
			}
			fails = append(fails, failure{o.name, fmt.Sprintf("%s\n  at %s:%d\n  solver: %s %s after %v\n%s", o.desc, o.pos.Filename, o.pos.Line, o.res.solver, o.res.status, o.res.dur.Round(time.Millisecond), tail(o.res.out, 6000))})
		}
	}
	if run.cut && len(fails) == 0 {
		fails = append(fails, failure{"time", "the time of the check ran out before every function was verified"})
	}
	for _, m := range run.missing {
		obligations++
		fails = append(fails, failure{m + ":present", "a function under contract for this property is missing"})
	}
	if loadErr == "" && obligations == 0 {
		fails = append(fails, failure{"obligations", "no obligation was generated"})
	}
	or := <-orc

	known := loadKnown()
	var open []failure
	for _, f := range fails {
		ok := false
		for _, k := range known {
			if k.prop == prop && k.obligation == f.name {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, f.name, k.text)
				ok = true
			}
		}
		if !ok {
			open = append(open, f)
		}
	}
	// a failed obligation without an input so far: look longer for one
	if len(open) > 0 && len(or.fails) == 0 && or.crash == "" && bin != "" {
		b2 := 60 * time.Second
		if thorough {
			b2 = 200 * time.Second
		}
		r2 := runOracle(bin, prop, seed+1000, 8, b2, b2+60*time.Second)
		r2.count += or.count
		r2.dur += or.dur
		r2.programs += or.programs
		or = r2
	}
	level := "proof"
	violations := 0
	replay := ""
	if len(open) > 0 || len(or.fails) > 0 || or.crash != "" {
		violations = len(open) + len(or.fails)
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		replay = filepath.Join(dir, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		for _, f := range open {
			fmt.Fprintf(&sb, "failed obligation %s\n  %s\n\n", f.name, f.text)
		}
		for _, f := range or.fails {
			fmt.Fprintf(&sb, "failing input on the real code (oracle %s): %s\n\n", prop, f)
		}
		if or.crash != "" {
			fmt.Fprintf(&sb, "the real code crashed under the oracle %s: %s\n\n", prop, or.crash)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, f := range open {
			if i < 12 {
				fmt.Printf("failed obligation %s: %s\n", f.name, tail(f.text, 300))
			}
		}
		for i, f := range or.fails {
			if i < 2 {
				fmt.Printf("failing input: %s\n", tail(f, 600))
			}
		}
		if or.crash != "" {
			fmt.Printf("crash: %s\n", tail(or.crash, 800))
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": sortedKeys(assumed),
		"coverage": map[string]interface{}{
			"obligations": obligations, "discharged": discharged,
			"checker_cmd":                   fmt.Sprintf("bash /verif/run.sh %s %s", prop, tier),
			"trusted_base":                  trustedBase(run),
			"functions_under_contract":      functions,
			"functions_inlined":             sortedKeys(inl),
			"back_ends":                     backends,
			"solver_seconds":                solverTime.Seconds(),
			"loop_invariants":               loops,
			"slow_obligations":              slow,
			"samples":                       samples,
			"bounded_cross_check_cases":     or.count,
			"bounded_cross_check_wall_s":    or.dur.Seconds(),
			"bounded_cross_check_note":      or.note,
			"bounded_cross_check_rule":      "random documents/images built by an independent model of the property, run on the real package; labelled bounded and not counted as proved",
			"bounded_cross_check_processes": or.programs,
		},
	}
	writeEvidence(prop, ev)
	switch {
	case len(or.fails) > 0 || or.crash != "":
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	case len(open) > 0:
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		return 1
	}
	fmt.Printf("ok property=%s units=%d obligations=%d discharged=%d cross-check=%d wall=%.1fs %s\n", prop, len(run.units), obligations, discharged, or.count, time.Since(t0).Seconds(), or.note)
	return 0
}

func trustedBase(r *Run) []string {
	base := []string{"gov verifier (/verif/gov): SSA construction by golang.org/x/tools/go/ssa, obligation generation, term simplifier", "z3 / cvc5",
		"int and int64 arithmetic is treated as mathematical (no overflow); narrower and unsigned types are modular",
		"readers behave as io.Reader documents; goroutines started by the code are executed one after the other"}
	if r.pr != nil {
		for _, c := range r.pr.contractList {
			if c.trusted {
				base = append(base, "assumed contract: "+c.name)
			}
		}
	}
	sort.Strings(base[4:])
	return base
}

func writeEvidence(prop string, ev map[string]interface{}) {
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

// pkgLoaded: the package a contract name belongs to is part of this run.
func (pr *Proj) pkgLoaded(name string) bool {
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return false
	}
	p := name[:i]
	path := modPath + strings.TrimPrefix(p, "psd")
	_, ok := pr.ld.files[path]
	return ok
}
