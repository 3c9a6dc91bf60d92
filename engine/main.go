package main

// symgo: solver-based checking of mearaj/bips by symbolic execution of its go/ssa form.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = envOr("VERIF_REPO", "/repo")
var verifDir = envOr("VERIF_DIR", "/verif")

const goBin = "/opt/veriftools/go1.23.12/bin"

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	return append(os.Environ(), "PATH="+goBin+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

type hInfo struct {
	name     string
	prop     string
	thorough bool
	orders   []string
	budget   int
	tbudget  int
	unroll   int
	query    int
}

var fnRe = regexp.MustCompile(`(?m)^func ((P\d\d)_\w+)\(\)\s*\{`)

func listHarness() ([]*hInfo, map[string][]byte) {
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*.go"))
	sort.Strings(files)
	src := map[string][]byte{}
	var hs []*hInfo
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		src[filepath.Base(f)] = b
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			m := fnRe.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			h := &hInfo{name: m[1], prop: m[2], orders: []string{"fwd"}}
			for j := i - 1; j >= 0 && strings.HasPrefix(lines[j], "//"); j-- {
				d := strings.TrimPrefix(lines[j], "//")
				if !strings.HasPrefix(d, "verif:") {
					continue
				}
				w := strings.Fields(strings.TrimPrefix(d, "verif:"))
				num := func() int { n, _ := strconv.Atoi(w[1]); return n }
				switch w[0] {
				case "order":
					h.orders = strings.Split(w[1], ",")
				case "thorough":
					h.thorough = true
				case "budget":
					h.budget = num()
				case "tbudget":
					h.tbudget = num()
				case "unroll":
					h.unroll = num()
				case "query":
					h.query = num()
				}
			}
			hs = append(hs, h)
		}
	}
	var reg strings.Builder
	reg.WriteString("package main\n\nvar harnesses = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&reg, "\t%q: %s,\n", h.name, h.name)
	}
	reg.WriteString("}\n")
	src["zz_reg.go"] = []byte(reg.String())
	return hs, src
}

func loadProg(src map[string][]byte) (*ssa.Program, *ssa.Package, error) {
	ov := map[string][]byte{}
	for f, b := range src {
		ov[filepath.Join(repoDir, "zzverif", f)] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedEmbedFiles, Dir: repoDir, BuildFlags: []string{"-tags=purego,math_big_pure_go"}, Env: goEnv(), Overlay: ov}
	ps, err := packages.Load(cfg, "./zzverif")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	bad := ""
	packages.Visit(ps, nil, func(p *packages.Package) {
		if len(p.Errors) > 0 && isRepo(p.PkgPath) && bad == "" {
			bad = p.Errors[0].Error()
		}
		if isRepo(p.PkgPath) {
			findEmbeds(p)
		}
	})
	if bad != "" {
		return nil, nil, fmt.Errorf("%s", bad)
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, pkgs[0], nil
}

// embeds has the files of the variables under a go:embed directive.
var embeds = map[string][]string{}

func findEmbeds(p *packages.Package) {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				doc := v.Doc
				if doc == nil {
					doc = g.Doc
				}
				if doc == nil {
					continue
				}
				for _, c := range doc.List {
					if !strings.HasPrefix(c.Text, "//go:embed ") {
						continue
					}
					k := p.PkgPath + "." + v.Names[0].Name
					for _, pat := range strings.Fields(c.Text)[1:] {
						for _, e := range p.EmbedFiles {
							if ok, _ := filepath.Match(pat, filepath.Base(e)); ok {
								embeds[k] = append(embeds[k], e)
							}
						}
					}
				}
			}
		}
	}
}

func buildNative(src map[string][]byte, dir string) (string, error) {
	hd := filepath.Join(dir, "h")
	os.MkdirAll(hd, 0o755)
	rep := map[string]string{}
	for f, b := range src {
		p := filepath.Join(hd, f)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return "", err
		}
		rep[filepath.Join(repoDir, "zzverif", f)] = p
	}
	bin := filepath.Join(dir, "native")
	build := func(rep map[string]string, out string) error {
		oj, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		of := out + "-overlay.json"
		os.WriteFile(of, oj, 0o644)
		cmd := exec.Command(filepath.Join(goBin, "go"), "build", "-overlay", of, "-o", out, "./zzverif")
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		if err := cmd.Run(); err != nil {
			return fmt.Errorf("%v: %s", err, eb.String())
		}
		return nil
	}
	if err := build(rep, bin); err != nil {
		return "", err
	}
	// the same with the keyed hash behind bip32 replaced by a table
	if stub, err := os.ReadFile(filepath.Join(verifDir, "harness", "stub", "hmac.go")); err == nil {
		sp := filepath.Join(hd, "stubhmac.go")
		os.WriteFile(sp, stub, 0o644)
		rep2 := map[string]string{filepath.Join(repoDir, "zzverif", "stubhmac", "hmac.go"): sp}
		swap := func(b []byte) []byte {
			b = bytes.ReplaceAll(b, []byte(`"crypto/hmac"`), []byte(`hmac "github.com/mearaj/bips/zzverif/stubhmac"`))
			return bytes.ReplaceAll(b, []byte(`hmac hmac "`), []byte(`hmac "`))
		}
		for k, v := range rep {
			rep2[k] = v
			if b, err := os.ReadFile(v); err == nil && bytes.Contains(b, []byte(`"crypto/hmac"`)) {
				p := filepath.Join(hd, "stub_"+filepath.Base(k))
				os.WriteFile(p, swap(b), 0o644)
				rep2[k] = p
			}
		}
		for _, pk := range []string{"bip32", "bip39", "util"} {
			fs, _ := filepath.Glob(filepath.Join(repoDir, pk, "*.go"))
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				b, err := os.ReadFile(f)
				if err != nil || !bytes.Contains(b, []byte(`"crypto/hmac"`)) {
					continue
				}
				b = swap(b)
				p := filepath.Join(hd, "stub_"+pk+"_"+filepath.Base(f))
				os.WriteFile(p, b, 0o644)
				rep2[f] = p
			}
		}
		if err := build(rep2, bin+"-stub"); err != nil {
			fmt.Fprintln(os.Stderr, "note: the build with a stand-in for crypto/hmac failed:", err)
			return bin, nil
		}
	}
	return bin, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|run|list|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		runCmd(os.Args[2:])
	case "check":
		checkCmd(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "list":
		hs, _ := listHarness()
		for _, h := range hs {
			fmt.Println(h.prop, h.name, h.thorough, h.orders)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func runCmd(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	name := fs.String("harness", "", "")
	order := fs.String("order", "fwd", "")
	tier := fs.String("tier", "quick", "")
	budget := fs.Int("budget", 120, "")
	unroll := fs.Int("unroll", 3000, "")
	query := fs.Int("query", 20000, "")
	native := fs.String("native", "", "")
	scratch := fs.String("scratch", "", "")
	out := fs.String("out", "", "")
	dbg := fs.Bool("debug", false, "")
	cases := fs.Int("cases", 0, "")
	caseNo := fs.Int("case", 0, "")
	fs.Parse(args)
	os.Setenv("PATH", goBin+":"+os.Getenv("PATH"))
	debug.SetGCPercent(200)
	debug.SetMaxStack(1 << 30)
	hs, src := listHarness()
	prop := ""
	for _, h := range hs {
		if h.name == *name {
			prop = h.prop
		}
	}
	if prop == "" {
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
	tmp := ""
	if *native == "build" {
		tmp, _ = os.MkdirTemp("", "symgo")
		b, err := buildNative(src, tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*native = b
		*scratch = tmp
	}
	prog, pkg, err := loadProg(src)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	in := &Interp{prog: prog, sol: newSolver("z3-new", "-in"), globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*FnInfo{}, initState: map[*ssa.Package]int{},
		executed: map[string]int{}, models: map[string]int{}, feasMs: 3000, feasCache: map[feasKey]Res{}, mapOrder: *order, debug: *dbg, maxUnroll: *unroll}
	h := &Harness{prop: prop, name: *name, thorough: *tier == "thorough", native: *native, scratch: *scratch, replayDir: filepath.Join(verifDir, "evidence", "replay", prop), in: in,
		res: &Result{Harness: *name, MapOrder: *order}, asserts: map[string]*AssertStat{}, inputs: map[string]int{}, reach: map[string][]*PC{}, tries: map[string]int{}, done: map[string]bool{}, races: map[string]bool{}, queryMs: *query, cases: *cases, caseNo: *caseNo}
	in.h = h
	if *cases > 0 {
		h.res.Part = fmt.Sprintf("part %d of %d", *caseNo+1, *cases)
	}
	if h.thorough {
		h.cross = newSolver("cvc5", "--incremental", "--tlimit-per=15000", "--produce-models")
	}
	fn := pkg.Func(*name)
	h.run(fn, time.Duration(*budget)*time.Second)
	in.sol.kill()
	if h.cross != nil {
		h.cross.kill()
	}
	b, _ := json.MarshalIndent(h.res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		h.res.Functions = nil
		b, _ = json.MarshalIndent(h.res, "", " ")
		fmt.Println(string(b))
	}
	if tmp != "" {
		os.RemoveAll(tmp)
	}
}

func replayCmd(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var c ReplayCase
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	_, src := listHarness()
	tmp, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(tmp)
	bin, err := buildNative(src, tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o := runNative(bin, tmp, c)
	for _, l := range o.lines {
		fmt.Println(l)
	}
	if len(o.fails) > 0 || o.panic != "" {
		fmt.Printf("REPRODUCED property=%s harness=%s\n", c.Property, c.Harness)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}

type known struct{ prop, harness, label, what string }

func knownFindings() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$`)
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			ks = append(ks, known{m[1], m[2], m[3], m[4]})
		}
	}
	return ks
}

func checkCmd(args []string) {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	jobs := fs.Int("j", 8, "")
	only := fs.String("only", "", "")
	fs.Parse(args)
	thorough := *tier == "thorough"
	hs, src := listHarness()
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	defer func() {
		os.RemoveAll(tmp)
		os.Exit(code)
	}()
	bin, err := buildNative(src, tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return
	}
	type job struct {
		h     *hInfo
		order string
		res   *Result
		err   string
		// only a part of the harness, when cases > 0
		cases, no int
	}
	serial := 0
	var js []*job
	for _, h := range hs {
		if h.prop != *prop || (h.thorough && !thorough) || (*only != "" && !strings.Contains(h.name, *only)) {
			continue
		}
		for _, o := range h.orders {
			js = append(js, &job{h: h, order: o})
		}
	}
	if len(js) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return
	}
	self, _ := os.Executable()
	os.RemoveAll(filepath.Join(verifDir, "evidence", "replay", *prop))
	runAll := func(js []*job, limit int) {
		sem := make(chan struct{}, *jobs)
		var wg sync.WaitGroup
		for _, j := range js {
			wg.Add(1)
			serial++
			go func(i int, j *job) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				budget := 150
				if j.h.budget > 0 {
					budget = j.h.budget
				}
				if thorough {
					budget = 500
					if j.h.tbudget > 0 {
						budget = j.h.tbudget
					}
				}
				if limit > 0 {
					budget = limit
				}
				grace := 120
				if !thorough {
					// the whole answers within 15 minutes
					left := 800 - int(time.Since(t0).Seconds())
					budget = min(budget, left-30)
					grace = min(grace, left-budget)
					if budget < 3 {
						j.err = "no time was left to start"
						return
					}
				}
				unroll := 3000
				if j.h.unroll > 0 {
					unroll = j.h.unroll
				}
				query := 20000
				if j.h.query > 0 {
					query = j.h.query
				}
				if thorough {
					query *= 3
				}
				of := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
				cmd := exec.Command(self, "run", "-harness", j.h.name, "-order", j.order, "-tier", *tier, "-budget", strconv.Itoa(budget), "-unroll", strconv.Itoa(unroll),
					"-query", strconv.Itoa(query), "-native", bin, "-scratch", tmp, "-out", of, "-cases", strconv.Itoa(j.cases), "-case", strconv.Itoa(j.no))
				cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
				var eb bytes.Buffer
				cmd.Stderr = &eb
				kill := time.AfterFunc(time.Duration(budget+grace)*time.Second, func() {
					if cmd.Process != nil {
						cmd.Process.Kill()
					}
				})
				err := cmd.Run()
				kill.Stop()
				if b, e := os.ReadFile(of); e == nil {
					r := &Result{}
					if json.Unmarshal(b, r) == nil {
						j.res = r
						return
					}
				}
				j.err = fmt.Sprintf("%v: %s", err, tail(eb.String(), 600))
			}(serial, j)
		}
		wg.Wait()
	}
	runAll(js, 0)
	// What took too long as a whole is taken again in parts, the alternatives of its first choice.
	var whole, parts []*job
	for _, j := range js {
		if j.res == nil || j.res.Status != "time limit" || j.res.Choices < 2 || len(j.res.Violations) > 0 {
			whole = append(whole, j)
			continue
		}
		n := min(j.res.Choices, 16)
		for i := 0; i < n; i++ {
			parts = append(parts, &job{h: j.h, order: j.order, cases: n, no: i})
		}
	}
	// when a new violation has come out, the rest can be left at that
	found := false
	for _, j := range js {
		if j.res == nil {
			continue
		}
		for _, v := range j.res.Violations {
			listed := false
			for _, k := range knownFindings() {
				listed = listed || k.prop == *prop && k.harness == v.Harness && k.label == v.Label
			}
			found = found || !listed
		}
	}
	if len(parts) > 0 && !found {
		left := 300 * time.Second
		if thorough {
			left = time.Hour
		} else if d := 600*time.Second - time.Since(t0); d < left {
			left = d
		}
		rounds := (len(parts) + *jobs - 1) / *jobs
		if limit := int(left.Seconds()) / rounds; limit >= 5 {
			runAll(parts, limit)
			js = append(whole, parts...)
		}
	}
	var rs []*Result
	var errs []string
	for _, j := range js {
		if j.res != nil {
			rs = append(rs, j.res)
		} else {
			errs = append(errs, j.h.name+": "+j.err)
		}
	}
	code = report(*prop, *tier, rs, errs, time.Since(t0))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}

func report(prop, tier string, rs []*Result, errs []string, wall time.Duration) int {
	var states, steps, forks, merges, validated int64
	var queries, qs, qu, qk int
	var solver, maxq float64
	fns := map[string]int{}
	models := map[string]int{}
	var samples []interface{}
	var hres []map[string]interface{}
	proved := 0
	refuted := 0
	var viols []*Violation
	var mism, undec, notes []string
	decided := 0
	for _, r := range rs {
		states += r.Blocks
		steps += r.Steps
		forks += r.Forks
		merges += r.Merges
		validated += int64(r.Validated)
		queries += r.Queries
		qs += r.QSat
		qu += r.QUnsat
		qk += r.QUnknown
		solver += r.SolverS
		if r.MaxQueryS > maxq {
			maxq = r.MaxQueryS
		}
		for f, n := range r.Functions {
			if strings.Contains(f, "mearaj/bips") && !strings.Contains(f, "zzverif") {
				fns[f] += n
			}
		}
		for f, n := range r.Models {
			if !strings.Contains(f, "zzverif") {
				models[f] += n
			}
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
		var as []map[string]interface{}
		p := 0
		for _, a := range r.Asserts {
			p += a.Proved + a.Trivial
			refuted += a.Refuted
			as = append(as, map[string]interface{}{"assertion": a.Label, "held_on_paths": a.Proved + a.Trivial, "of_these_by_solver": a.Proved, "undecided": a.Unknown, "candidates": a.Refuted, "not_reproduced": a.Unreplay})
		}
		proved += p
		// A harness whose encoding disagreed with the compiled code on some run
		// decides nothing: it is named as such, and the others stand.
		if p > 0 && len(r.Mismatch) == 0 || len(r.Violations) > 0 {
			decided++
		}
		viols = append(viols, r.Violations...)
		for _, m := range r.Mismatch {
			mism = append(mism, r.Harness+": "+m)
		}
		if r.Status == "time limit" {
			undec = append(undec, strings.TrimSpace(r.Harness+": time limit reached "+r.Part))
		}
		for m, n := range r.Undecided {
			undec = append(undec, fmt.Sprintf("%s: %d path(s): %s", r.Harness, n, m))
		}
		for _, n := range r.Notes {
			notes = append(notes, r.Harness+": "+n)
		}
		for _, u := range r.Unrepro {
			undec = append(undec, fmt.Sprintf("%s: solver model for %q could not be reproduced natively (%s)", r.Harness, u.Label, u.Detail))
		}
		hr := map[string]interface{}{"harness": r.Harness, "status": r.Status, "assertions": as, "reached": r.Reached, "finished_paths": r.Returned, "input_bits": r.Inputs, "wall_s": round2(r.WallS), "solver_s": round2(r.SolverS), "queries": r.Queries}
		if r.MapOrder != "fwd" {
			hr["map_order"] = r.MapOrder
		}
		if r.Part != "" {
			hr["part"] = r.Part
		}
		if len(r.Unreached) > 0 {
			hr["reach_not_witnessed"] = r.Unreached
		}
		if r.Cross != "" {
			hr["cross_check"] = r.Cross
		}
		hres = append(hres, hr)
	}
	sort.Strings(undec)
	for _, e := range errs {
		undec = append(undec, "did not finish: "+e)
	}
	ks := knownFindings()
	code := 0
	var vout []interface{}
	seen := map[string]bool{}
	for _, v := range viols {
		isKnown := false
		for _, k := range ks {
			if k.prop == prop && k.harness == v.Harness && k.label == v.Label {
				isKnown = true
				if !seen[k.what] {
					seen[k.what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
			}
		}
		if isKnown {
			continue
		}
		code = 1
		vout = append(vout, v)
		fmt.Printf("%s: %s: %s\n", v.Harness, v.Label, v.Detail)
		for i, k := range sortedKeys(v.Input) {
			if i < 12 {
				fmt.Printf("  %s = %s\n", k, v.Input[k])
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.Replay)
	}
	if code == 0 && decided == 0 {
		code = 2
	}
	cov := map[string]interface{}{
		"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"forks": forks, "merges": merges, "assertion_instances_held": proved, "queries": queries, "queries_unsat": qu, "queries_sat": qs, "queries_unknown": qk,
		"solver_s": round2(solver), "longest_query_s": round2(maxq), "functions_encoded": sortedKeysI(fns), "modelled_library_functions": sortedKeysI(models), "harnesses": hres,
	}
	if len(undec) > 0 {
		cov["undecided"] = undec
	}
	if len(mism) > 0 {
		cov["validation_mismatches"] = mism
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if b := boundsOf(prop); b != "" {
		cov["bounds"] = b
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round2(wall.Seconds())}
	ev["violations"] = len(vout)
	if len(vout) > 0 {
		cov["violation_details"] = vout
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s %s: %d harness runs, %d assertion instances held, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, %d traces validated, wall %.1fs\n",
		prop, tier, len(rs), proved, queries, qu, qs, qk, solver, validated, wall.Seconds())
	for _, u := range undec {
		fmt.Println("undecided:", tail(u, 600))
	}
	for _, m := range mism {
		fmt.Println("mismatch:", tail(m, 1500))
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	return code
}

func boundsOf(prop string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "bounds.json"))
	if err != nil {
		return ""
	}
	m := map[string]string{}
	if json.Unmarshal(b, &m) != nil {
		return ""
	}
	return m[prop]
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedKeysI(m map[string]int) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
