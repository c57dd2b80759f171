package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

var debugLoops = os.Getenv("GOVC_LOOPS") != ""

func specFiles(dir string) []string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	return fs
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc prove|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		cmdProve(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "native":
		cmdNative(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdProve(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	unit := fs.String("unit", "", "regexp")
	prop := fs.String("prop", "", "")
	unroll := fs.Int("unroll", 0, "")
	jobs := fs.Int("j", 8, "")
	verbose := fs.Bool("v", false, "")
	js := fs.Bool("json", false, "")
	fs.Parse(args)
	t0 := time.Now()
	p, err := LoadProgram(*repo, filepath.Join(*repo, "ecore"), specFiles(*dir))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, e := range p.SpecErrors() {
		fmt.Println("contract error:", e)
	}
	p.prepare()
	var re *regexp.Regexp
	if *unit != "" {
		re = regexp.MustCompile(*unit)
	}
	var us []*Unit
	for _, u := range p.Units() {
		if re != nil && !re.MatchString(u.Name) {
			continue
		}
		if *prop != "" && !contains(u.Props, *prop) {
			continue
		}
		us = append(us, u)
	}
	fmt.Printf("loaded in %.1fs, %d units\n", time.Since(t0).Seconds(), len(us))
	rs := p.runAll(us, *jobs, func(u *Unit) int {
		if *unroll > 0 {
			return *unroll
		}
		return u.Bounded
	})
	if *js {
		b, _ := json.MarshalIndent(rs, "", " ")
		fmt.Println(string(b))
		return
	}
	bad := 0
	for _, r := range rs {
		if r.Status != "proved" && r.Status != "native" {
			bad++
		}
		fmt.Printf("%-11s %-45s %3d obl %6.1fs q=%d ends=%d %s\n", r.Status, r.Unit, len(r.Obl), r.Secs, r.Queries, r.Ends, r.Note)
		for _, o := range r.Obl {
			if o.Status != "proved" || *verbose {
				fmt.Printf("      %-8s %-40s %s %.2fs x%d %s\n", o.Status, o.Name, o.Backend, o.Secs, o.Count, o.Detail)
			}
		}
		if *verbose {
			fmt.Println("      inlined:", strings.Join(r.Inlined, " "))
			fmt.Println("      applied:", r.Applied, "trusted:", r.Models)
		}
	}
	fmt.Printf("total %.1fs; %d of %d not proved\n", time.Since(t0).Seconds(), bad, len(rs))
	if bad > 0 {
		os.Exit(1)
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// prepare computes lazily initialised tables before units run concurrently.
func (p *Program) prepare() {
	p.addrTaken(nil)
}

func (p *Program) runAll(us []*Unit, jobs int, unroll func(*Unit) int) []*UnitResult {
	rs := make([]*UnitResult, len(us))
	var wg sync.WaitGroup
	sem := make(chan bool, jobs)
	for i, u := range us {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			if u.Native {
				rs[i] = &UnitResult{Unit: u.Name, Status: "native", Note: u.Why}
			} else {
				rs[i] = p.RunUnit(u, unroll(u))
			}
			<-sem
		}()
	}
	wg.Wait()
	return rs
}
