package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- native runner ----------------------------------------------------------

type native struct {
	p    *Program
	repo string
	dir  string
	bin  string
	gens map[string]bool
	err  string
	once sync.Once
}

// genExpr is the generator expression of a parameter type ("" if there is none).
func (n *native) genExpr(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Int:
			return "vgenInt(t)"
		case types.Bool:
			return "vgenBool(t)"
		case types.String:
			return "vgenString(t)"
		}
		if n.p.SpecFuncs["vgen_"+x.Name()] != nil {
			return "vgen_" + x.Name() + "(t)"
		}
		return ""
	case *types.Pointer:
		if nt, ok := types.Unalias(x.Elem()).(*types.Named); ok {
			if n.p.SpecFuncs["vgen_"+nt.Obj().Name()] != nil {
				return "vgen_" + nt.Obj().Name() + "(t)"
			}
		}
	case *types.Named:
		if n.p.SpecFuncs["vgen_"+x.Obj().Name()] != nil {
			return "vgen_" + x.Obj().Name() + "(t)"
		}
		if b, ok := x.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.Obj().Pkg() == n.p.Pkg {
			return x.Obj().Name() + "(vgenInt(t))"
		}
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "vgenAny(t)"
		}
	case *types.Slice:
		e := n.genExpr(x.Elem())
		if e == "" {
			return ""
		}
		s := types.TypeString(x.Elem(), types.RelativeTo(n.p.Pkg))
		return "func() []" + s + " { k := t.Choose(4); s := make([]" + s + ", 0, k+2*t.Choose(2)); for i := 0; i < k; i++ { s = append(s, " + e + ") }; return s }()"
	}
	return ""
}

func (n *native) build() {
	n.once.Do(func() {
		over := map[string]string{}
		put := func(target, name string, data []byte) {
			f := filepath.Join(n.dir, name)
			os.WriteFile(f, data, 0o644)
			over[filepath.Join(n.repo, target)] = f
		}
		for f, b := range n.p.SpecSrc {
			put("ecore/zz_govc_"+filepath.Base(f), "zz_govc_"+filepath.Base(f), b)
		}
		var r bytes.Buffer
		r.WriteString("package ecore\n\nfunc init() {\n")
		for _, u := range n.p.Units() {
			if n.p.Dropped[u.Name] != "" {
				continue
			}
			sig := n.p.Info.Defs[u.Decl.Name].(*types.Func).Type().(*types.Signature)
			ok := true
			var as []string
			for i := 0; i < sig.Params().Len(); i++ {
				e := n.genExpr(sig.Params().At(i).Type())
				if e == "" {
					ok = false
				}
				as = append(as, e)
			}
			if !ok {
				continue
			}
			n.gens[u.Name] = true
			fmt.Fprintf(&r, "vUnitTable[%q] = func(t *vTape) {\n", u.Name)
			if len(u.Text) > 0 {
				fmt.Fprintf(&r, "t.text = %#v\n", u.Text)
			}
			var ns []string
			for i, a := range as {
				fmt.Fprintf(&r, "a%d := %s\n", i, a)
				ns = append(ns, fmt.Sprintf("a%d", i))
			}
			for i := range ns {
				fmt.Fprintf(&r, "t.Say(\"%s = %%s\", vShow(%s))\n", sig.Params().At(i).Name(), ns[i])
			}
			fmt.Fprintf(&r, "%s(%s)\n}\n", u.Name, strings.Join(ns, ", "))
		}
		r.WriteString("}\n")
		put("ecore/zz_govc_reg.go", "zz_govc_reg.go", r.Bytes())
		put("ecore/zzverif/main.go", "zzmain.go", []byte("package main\n\nimport \"github.com/masagroup/soft.go/ecore\"\n\nfunc main() { ecore.VMain() }\n"))
		ov, _ := json.Marshal(map[string]any{"Replace": over})
		of := filepath.Join(n.dir, "overlay.json")
		os.WriteFile(of, ov, 0o644)
		n.bin = filepath.Join(n.dir, "runner")
		c := exec.Command(filepath.Join(goRoot(), "bin", "go"), "build", "-overlay", of, "-o", n.bin, "./ecore/zzverif")
		c.Dir = n.repo
		c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOENV=off", "CGO_ENABLED=0")
		out, err := c.CombinedOutput()
		if err != nil {
			n.err = "native build failed: " + err.Error() + "\n" + string(out)
		}
	})
}

type nativeOut struct {
	Unit   string         `json:"unit"`
	Found  bool           `json:"found"`
	Name   string         `json:"obligation"`
	Msg    string         `json:"message"`
	Tape   []int          `json:"tape"`
	Inputs []string       `json:"inputs"`
	Trials int            `json:"trials"`
	Ran    int            `json:"ran"`
	Whole  bool           `json:"exhausted"`
	Counts map[string]int `json:"ensures"`
	Err    string         `json:"err,omitempty"`
}

func (n *native) run(unit string, secs float64, seed int, tape []int) *nativeOut {
	n.build()
	if n.err != "" {
		return &nativeOut{Unit: unit, Err: n.err}
	}
	if !n.gens[unit] {
		return &nativeOut{Unit: unit, Err: "no native generator"}
	}
	exe := func(extra ...string) ([]byte, error) {
		args := append([]string{"-unit", unit, "-secs", fmt.Sprint(secs), "-seed", fmt.Sprint(seed)}, extra...)
		if tape != nil {
			b, _ := json.Marshal(tape)
			args = append(args, "-tape", string(b))
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs*float64(time.Second))+30*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, n.bin, args...)
		c.Dir = n.dir
		c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
		var o, e bytes.Buffer
		c.Stdout, c.Stderr = &o, &e
		err := c.Run()
		if err != nil {
			return e.Bytes(), err
		}
		return o.Bytes(), nil
	}
	parse := func(b []byte) *nativeOut {
		var r nativeOut
		ls := strings.Split(strings.TrimSpace(string(b)), "\n")
		if json.Unmarshal([]byte(ls[len(ls)-1]), &r) != nil {
			return &nativeOut{Unit: unit, Err: "bad runner output"}
		}
		return &r
	}
	o, err := exe()
	if err == nil {
		return parse(o)
	}
	// the runner died (stack overflow, deadlock): find the input
	lf := filepath.Join(n.dir, "log_"+unit)
	o, err = exe("-log", lf)
	if err == nil {
		return parse(o)
	}
	msg := string(o)
	if len(msg) > 1500 {
		msg = msg[:1500]
	}
	r := &nativeOut{Unit: unit, Found: true, Name: "nopanic", Msg: "the process dies: " + msg}
	if b, e := os.ReadFile(lf); e == nil {
		json.Unmarshal(bytes.SplitN(b, []byte("\n"), 2)[0], &r.Tape)
	}
	return r
}

// ---- property check ---------------------------------------------------------

type unitEv struct {
	Unit      string   `json:"unit"`
	Status    string   `json:"status"`
	Functions []string `json:"functions_verified,omitempty"`
	Contracts []string `json:"contracts_applied,omitempty"`
	Obl       int      `json:"obligations"`
	Disch     int      `json:"discharged"`
	PathEnds  int      `json:"path_ends"`
	Queries   int      `json:"solver_queries"`
	Secs      float64  `json:"secs"`
	Note      string   `json:"note,omitempty"`
	Loops     []string `json:"loops,omitempty"`
	Native    string   `json:"native,omitempty"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	jobs := fs.Int("j", 8, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.Exit(runCheck(*repo, *verif, *prop, *tier, seed, *jobs))
}

type knownFinding struct {
	Property string `json:"property"`
	Unit     string `json:"unit"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func runCheck(repo, verif, prop, tier string, seed, jobs int) int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	p, err := LoadProgram(repo, filepath.Join(repo, "ecore"), specFiles(filepath.Join(verif, "contracts")))
	if err != nil {
		fmt.Println("cannot load the sources:", err)
		return 2
	}
	p.prepare()
	for _, e := range p.SpecErrors() {
		fmt.Println("contract does not bind:", e)
	}
	nat := &native{p: p, repo: repo, dir: scratch, gens: map[string]bool{}}
	var us []*Unit
	missing := map[string]bool{}
	for _, u := range p.Units() {
		if contains(u.Props, prop) && (!u.Thorough || tier == "thorough") {
			us = append(us, u)
		}
	}
	// contract functions dropped because they do not type-check
	for n := range p.Dropped {
		if strings.HasPrefix(n, "spec_") {
			missing[n] = true
		}
	}
	deadline := t0.Add(600 * time.Second)
	if tier == "thorough" {
		deadline = t0.Add(3 * 3600 * time.Second)
		for _, u := range us {
			u.Timeout *= 3
			u.Portfolio *= 3
		}
	}
	rs := p.runAll(us, jobs, func(u *Unit) int { return u.Bounded })
	type verdict struct {
		unit, obl, msg string
		nat            *nativeOut
	}
	var viol []verdict
	var mu sync.Mutex
	ev := map[string]*unitEv{}
	backends := map[string]int{}
	trusted := map[string]bool{}
	functions := map[string]bool{}
	obl, disch, bobl := 0, 0, 0
	var undecided []string
	for i, r := range rs {
		if us[i].Native {
			ev[r.Unit] = &unitEv{Unit: r.Unit, Status: "bounded(executions): " + us[i].Why}
			continue
		}
		e := &unitEv{Unit: r.Unit, Status: r.Status, Functions: r.Inlined, Contracts: r.Applied, PathEnds: r.Ends, Queries: r.Queries, Secs: round2(r.Secs), Note: r.Note, Loops: r.Loops}
		ev[r.Unit] = e
		for _, x := range r.Models {
			trusted[x] = true
		}
		for _, x := range r.Inlined {
			functions[x] = true
		}
		for _, o := range r.Obl {
			if us[i].Bounded > 0 {
				bobl++
				continue
			}
			e.Obl++
			obl++
			if o.Status == "proved" {
				disch++
				e.Disch++
				backends[o.Backend]++
			}
		}
		if us[i].Bounded > 0 && r.Status == "proved" {
			e.Status = fmt.Sprintf("bounded(%d): %s", us[i].Bounded, us[i].Why)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, jobs)
	for i, r := range rs {
		if r.Status == "proved" && tier != "thorough" {
			continue
		}
		u := us[i]
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			secs := 6.0
			if tier == "thorough" {
				secs = 20
			}
			nr := nat.run(u.Name, secs, seed, nil)
			mu.Lock()
			e := ev[u.Name]
			if nr.Err != "" {
				e.Native = strings.SplitN(nr.Err, "\n", 2)[0]
			} else {
				e.Native = fmt.Sprintf("%d executions of the contract against the real code (%d satisfied its precondition), seed %d", nr.Trials, nr.Ran, seed)
			}
			mu.Unlock()
			if nr.Found {
				mu.Lock()
				viol = append(viol, verdict{u.Name, nr.Name, nr.Msg, nr})
				e.Status = "violated"
				mu.Unlock()
				return
			}
			if r.Status == "proved" || u.Native {
				if u.Native && nr.Err != "" {
					fmt.Printf("UNDECIDED property=%s unit=%s %s\n", prop, u.Name, nr.Err)
					e.Status = "undecided: " + nr.Err
					undecided = append(undecided, u.Name)
				}
				return
			}
			// a loaded machine is no reason to fail an obligation: once more, with more time
			if u.Bounded == 0 && !anySat(r) && time.Now().Before(deadline) {
				u2 := *u
				u2.Timeout, u2.Portfolio, u2.Budget = u.Timeout*2, u.Portfolio*2, u.Budget*2
				if r2 := p.RunUnit(&u2, 0); r2.Status == "proved" {
					mu.Lock()
					defer mu.Unlock()
					e.Status, e.Disch = "proved", e.Obl
					disch += e.Obl
					for _, o := range r.Obl {
						if o.Status == "proved" {
							disch--
						}
					}
					for _, o := range r2.Obl {
						backends[o.Backend]++
					}
					return
				}
			}
			// annotations may have been invalidated by a rewrite: unroll the loops instead
			var br *UnitResult
			depth := 3
			if u.Bounded > 0 {
				depth = u.Bounded
				br = r
			} else if time.Now().Before(deadline) {
				br = p.RunUnit(u, depth)
			}
			mu.Lock()
			defer mu.Unlock()
			switch {
			case br != nil && br.Status == "proved":
				e.Status = fmt.Sprintf("bounded(%d): not proved (%s); all obligations hold with every loop unrolled %d times", depth, why(r), depth)
				fmt.Printf("BOUNDED property=%s unit=%s %s\n", prop, u.Name, why(r))
			case r.Status == "failed" && (br == nil || br.Status == "failed"):
				o := firstFailed(r)
				if br != nil {
					o = firstFailed(br)
				}
				viol = append(viol, verdict{u.Name, o.Name, o.Detail, nil})
				e.Status = "violated (no failing input found)"
			default:
				e.Status = "undecided: " + why(r)
				if br != nil && br.Status != "proved" {
					e.Status += "; bounded: " + why(br)
				}
				undecided = append(undecided, u.Name)
				fmt.Printf("UNDECIDED property=%s unit=%s %s\n", prop, u.Name, e.Status)
			}
		}()
	}
	wg.Wait()
	sort.Slice(viol, func(i, j int) bool {
		if (viol[i].nat != nil) != (viol[j].nat != nil) {
			return viol[i].nat != nil
		}
		return viol[i].unit < viol[j].unit
	})
	// evidence
	var names []string
	for n := range ev {
		names = append(names, n)
	}
	sort.Strings(names)
	var evs []*unitEv
	proved, bounded := 0, 0
	var boundedUnits []string
	for _, n := range names {
		evs = append(evs, ev[n])
		if ev[n].Status == "proved" {
			proved++
		}
		if strings.HasPrefix(ev[n].Status, "bounded") {
			bounded++
			boundedUnits = append(boundedUnits, n+": "+ev[n].Status)
		}
	}
	assume := readAssumptions(filepath.Join(verif, "assumptions.json"), prop)
	known := readKnown(filepath.Join(verif, "known_findings.json"), prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
	}
	tb := []string{
		"govc (this verifier: symbolic execution of the type-checked sources, /verif/govc)",
		"SMT back ends z3 4.8.12, z3 (newer), cvc5",
		"go/parser and go/types of the Go 1.23 standard library",
	}
	for _, x := range sortedKeys(trusted) {
		tb = append(tb, "assumed contract: "+x)
	}
	cov := map[string]any{
		"obligations": obl, "discharged": disch,
		"checker_cmd":                  fmt.Sprintf("bin/check %s %s", prop, tier),
		"trusted_base":                 tb,
		"contracts":                    len(evs),
		"contracts_proved":             proved,
		"contracts_bounded":            boundedUnits,
		"bounded_obligations":          bobl,
		"contracts_undecided":          undecided,
		"contracts_not_binding":        p.Dropped,
		"functions_verified":           sortedKeys(functions),
		"functions_verified_n":         len(functions),
		"discharged_by":                backends,
		"solver_seconds":               round2(float64(atomic.LoadInt64(&totalSolverNS)) / 1e9),
		"units":                        evs,
		"partial_correctness":          true,
		"known_findings_excluded":      known,
		"source_files_type_checked":    len(p.Files) - len(p.SpecFile),
		"contract_declarations_loaded": len(p.SpecFuncs),
	}
	evd := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume, "wall_s": round2(time.Since(t0).Seconds()), "violations": len(viol)}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	for n := range missing {
		fmt.Printf("UNBOUND contract=%s %s\n", n, p.Dropped[n])
	}
	if len(us) == 0 && len(missing) == 0 {
		fmt.Println("no contract for property", prop)
		return 2
	}
	fmt.Printf("property=%s tier=%s contracts=%d proved=%d bounded=%d undecided=%d obligations=%d discharged=%d wall=%.1fs\n", prop, tier, len(evs), proved, bounded, len(undecided), obl, disch, time.Since(t0).Seconds())
	if len(viol) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "replay"), 0o755)
	for _, v := range viol {
		f := filepath.Join(verif, "replay", prop+"_"+v.unit+".json")
		rep := map[string]any{"property": prop, "unit": v.unit, "obligation": v.obl, "message": v.msg}
		var r *UnitResult
		for _, x := range rs {
			if x.Unit == v.unit {
				r = x
			}
		}
		if v.nat != nil {
			rep["tape"] = v.nat.Tape
			rep["inputs"] = v.nat.Inputs
			rep["how"] = "bin/replay " + f + " runs the contract function on this input against the real code"
		}
		var fo []string
		for _, o := range r.Obl {
			if o.Status != "proved" {
				fo = append(fo, fmt.Sprintf("%s %s: %s (%s, back end answer attached) %s", o.Status, o.Name, o.Detail, o.Backend, o.model))
			}
		}
		rep["verifier_output"] = fo
		rep["verifier_note"] = r.Note
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(f, b, 0o644)
		suffix := ""
		if v.nat == nil {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("  contract %s, obligation %q: %s\n", v.unit, v.obl, strings.SplitN(v.msg, "\n", 2)[0])
		if v.nat != nil {
			fmt.Printf("  failing input: %s\n", strings.Join(v.nat.Inputs, "; "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, f, suffix)
	}
	return 1
}

func round2(x float64) float64 { return float64(int(x*100)) / 100 }

func why(r *UnitResult) string {
	if r.Status == "failed" {
		o := firstFailed(r)
		return "obligation not discharged: " + o.Name
	}
	return r.Note
}

func anySat(r *UnitResult) bool {
	for _, o := range r.Obl {
		if o.Status != "proved" && o.Sat {
			return true
		}
	}
	return false
}

func firstFailed(r *UnitResult) *Obligation {
	for _, o := range r.Obl {
		if o.Status != "proved" && o.Sat {
			return o
		}
	}
	for _, o := range r.Obl {
		if o.Status != "proved" {
			return o
		}
	}
	return &Obligation{Name: "?", Detail: r.Note}
}

func readAssumptions(file, prop string) []string {
	var m map[string][]string
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Println("assumptions.json:", err)
	}
	return append(append([]string{}, m["all"]...), m[prop]...)
}

func readKnown(file, prop string) []knownFinding {
	var l []knownFinding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var doc struct {
		Known []knownFinding `json:"known"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Println("known_findings.json:", err)
	}
	for _, k := range doc.Known {
		if k.Property == prop {
			l = append(l, k)
		}
	}
	return l
}

// cmdNative: govc native -unit X [-secs N] | -replay FILE
func cmdNative(args []string) {
	fs := flag.NewFlagSet("native", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	unit := fs.String("unit", "", "substring list, comma separated; empty = all")
	prop := fs.String("prop", "", "")
	secs := fs.Float64("secs", 3, "")
	seed := fs.Int("seed", 1, "")
	replay := fs.String("replay", "", "")
	fs.Parse(args)
	scratch, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(scratch)
	p, err := LoadProgram(*repo, filepath.Join(*repo, "ecore"), specFiles(filepath.Join(*verif, "contracts")))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, e := range p.SpecErrors() {
		fmt.Println("contract error:", e)
	}
	nat := &native{p: p, repo: *repo, dir: scratch, gens: map[string]bool{}}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct {
			Unit string `json:"unit"`
			Tape []int  `json:"tape"`
		}
		json.Unmarshal(b, &r)
		if r.Tape == nil {
			fmt.Println("no input recorded")
			os.Exit(2)
		}
		o := nat.run(r.Unit, 2, 1, r.Tape)
		j, _ := json.MarshalIndent(o, "", " ")
		fmt.Println(string(j))
		if o.Found {
			os.RemoveAll(scratch)
			os.Exit(1)
		}
		return
	}
	nat.build()
	if nat.err != "" {
		fmt.Println(nat.err)
		os.Exit(2)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var mu sync.Mutex
	for _, u := range p.Units() {
		if *prop != "" && !contains(u.Props, *prop) {
			continue
		}
		if *unit != "" {
			ok := false
			for _, s := range strings.Split(*unit, ",") {
				ok = ok || strings.Contains(u.Name, s)
			}
			if !ok {
				continue
			}
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o := nat.run(u.Name, *secs, *seed, nil)
			mu.Lock()
			defer mu.Unlock()
			switch {
			case o.Err != "":
				fmt.Printf("%-45s %s\n", u.Name, o.Err)
			case o.Found:
				fmt.Printf("%-45s FAILS %s tape=%v inputs=%v %s\n", u.Name, o.Name, o.Tape, o.Inputs, o.Msg)
			default:
				fmt.Printf("%-45s ok trials=%d ran=%d whole=%v %v\n", u.Name, o.Trials, o.Ran, o.Whole, o.Counts)
			}
		}()
	}
	wg.Wait()
}
