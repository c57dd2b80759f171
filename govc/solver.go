package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Session is an incremental z3 process that mirrors the path condition.
type Session struct {
	c         *Ctx
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	stack     []int // number of asserted terms at each push
	assert    []*Term
	Queries   int
	Time      time.Duration
	dead      bool
	log       *strings.Builder
	base      []string // declarations so far (for fresh-process scripts)
	strSeen   []string
	pendingAx []axAt
}

var totalSolverNS int64
var debugSMT = os.Getenv("GOVC_SMTLOG") != ""

func NewSession(c *Ctx) *Session {
	s := &Session{c: c}
	s.start()
	c.onConst = func(t *Term) {
		s.decl(fmt.Sprintf("(declare-const %s %s)", symName(t.Name), t.Sort))
	}
	c.onFun = func(f *FunDecl) {
		s.decl(fmt.Sprintf("(declare-fun %s (%s) %s)", symName(f.Name), strings.Join(f.Args, " "), f.Ret))
	}
	c.onAxiom = func(t *Term) {
		s.decl("(assert " + s.smt(t) + ")")
	}
	return s
}

func (s *Session) smt(t *Term) string {
	s.declStrs()
	return s.c.SMT(t)
}

// string literals of the uninterpreted string sort: declare and keep distinct
func (s *Session) declStrs() {
	if s.c.UseStr {
		return
	}
	if len(s.strSeen) == len(s.c.StrLits) {
		return
	}
	seen := map[string]bool{}
	for _, x := range s.strSeen {
		seen[x] = true
	}
	for lit := range s.c.StrLits {
		if seen[lit] {
			continue
		}
		n := s.c.strLit(lit)
		s.decl(fmt.Sprintf("(declare-const %s Str)", n))
		for _, o := range s.strSeen {
			s.decl(fmt.Sprintf("(assert (not (= %s %s)))", n, s.c.strLit(o)))
		}
		s.decl(fmt.Sprintf("(assert (= (strlen %s) %d))", n, len(lit)))
		s.strSeen = append(s.strSeen, lit)
	}
}

// decl emits a declaration or global axiom. Axioms are asserted at the base level
// logically; since global-declarations is on only declarations survive pops, axioms
// are re-asserted through s.base after a restart and through `axioms` on pop.
func (s *Session) decl(line string) {
	s.base = append(s.base, line)
	s.send(line)
	if strings.HasPrefix(line, "(assert") && len(s.stack) > 0 {
		// asserted inside a push: must be re-asserted when popped
		s.pendingAx = append(s.pendingAx, axAt{len(s.stack), line})
	}
}

type axAt struct {
	depth int
	line  string
}

func (s *Session) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	s.send("(set-option :print-success false)")
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :auto_config false)")
	s.send("(set-option :smt.mbqi false)")
	s.send("(set-option :smt.qi.eager_threshold 20)")
	s.send("(set-option :memory_max_size 3000)")
	s.send(s.c.Prelude())
	if !s.c.UseStr {
		s.send("(declare-fun strlen (Str) Int)")
	} else {
		s.send("(define-fun strlen ((s Str)) Int (str.len s))")
	}
}

func (s *Session) restart() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.start()
	for _, b := range s.base {
		s.send(b)
	}
	n := 0
	for _, d := range s.stack {
		for ; n < d; n++ {
			s.send("(assert " + s.c.SMT(s.assert[n]) + ")")
		}
		s.send("(push 1)")
	}
	for ; n < len(s.assert); n++ {
		s.send("(assert " + s.c.SMT(s.assert[n]) + ")")
	}
}

func (s *Session) send(l string) {
	if s.dead {
		return
	}
	if debugSMT {
		fmt.Fprintln(os.Stderr, l)
	}
	io.WriteString(s.in, l+"\n")
}

func (s *Session) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Session) Push() {
	s.stack = append(s.stack, len(s.assert))
	s.send("(push 1)")
}

func (s *Session) Pop() {
	n := s.stack[len(s.stack)-1]
	s.stack = s.stack[:len(s.stack)-1]
	s.assert = s.assert[:n]
	s.send("(pop 1)")
	// re-assert axioms introduced inside the popped level
	d := len(s.stack)
	var rest []axAt
	for _, a := range s.pendingAx {
		if a.depth > d {
			s.send(a.line)
			if d > 0 {
				rest = append(rest, axAt{d, a.line})
			}
		} else {
			rest = append(rest, a)
		}
	}
	s.pendingAx = rest
}

func (s *Session) Assert(t *Term) {
	if t == s.c.True {
		return
	}
	s.assert = append(s.assert, t)
	s.send("(assert " + s.smt(t) + ")")
}

// Check runs check-sat with a time limit in ms.
func (s *Session) Check(ms int) string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		atomic.AddInt64(&totalSolverNS, int64(d))
	}()
	s.Queries++
	s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
	s.send("(check-sat)")
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	out := s.out
	go func() {
		for {
			l, err := out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil {
				ch <- res{"", err}
				return
			}
			if l == "sat" || l == "unsat" || l == "unknown" {
				ch <- res{l, nil}
				return
			}
			if l == "timeout" {
				ch <- res{"unknown", nil}
				return
			}
			if strings.HasPrefix(l, "(error") {
				if strings.Contains(l, "canceled") || strings.Contains(l, "timeout") || strings.Contains(l, "memory") {
					continue
				}
				fmt.Fprintln(os.Stderr, "z3:", l)
				if os.Getenv("GOVC_DEBUG") != "" {
					os.WriteFile("/tmp/govc_err.smt2", []byte(s.Script(nil)), 0o644)
				}
			}
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.restart()
			return "unknown"
		}
		return r.l
	case <-time.After(time.Duration(ms)*time.Millisecond + 3*time.Second):
		s.restart()
		return "unknown"
	}
}

// Script renders the current assertions (plus the negated goal) as a stand-alone query.
func (s *Session) Script(goal *Term) string {
	var b strings.Builder
	var g string
	if goal != nil {
		g = "(assert (not " + s.smt(goal) + "))\n"
	}
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(s.c.Prelude())
	if !s.c.UseStr {
		b.WriteString("(declare-fun strlen (Str) Int)\n")
	} else {
		b.WriteString("(define-fun strlen ((s Str)) Int (str.len s))\n")
	}
	for _, l := range s.base {
		b.WriteString(l + "\n")
	}
	for _, a := range s.assert {
		b.WriteString("(assert " + s.c.SMT(a) + ")\n")
	}
	b.WriteString(g)
	b.WriteString("(check-sat)\n")
	return b.String()
}

// runSolver runs one external solver on a script.
func runSolver(ctx context.Context, file string, secs int, name string, args ...string) string {
	ctx, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	t0 := time.Now()
	out, _ := exec.CommandContext(ctx, name, append(args, file)...).CombinedOutput()
	atomic.AddInt64(&totalSolverNS, int64(time.Since(t0)))
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// portfolio tries several back ends in parallel; returns verdict and back end.
func portfolio(script string, secs int) (string, string) {
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "unknown", ""
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct{ v, n string }
	var runs []func() r
	add := func(label, name string, args ...string) {
		runs = append(runs, func() r { return r{runSolver(ctx, f.Name(), secs, name, args...), label} })
	}
	t := fmt.Sprintf("-T:%d", secs)
	add("z3-4.8.12", "z3", t, "smt.mbqi=false", "auto_config=false")
	add("z3-4.8.12", "z3", t)
	add("z3-new", "z3-new", t, "smt.mbqi=false", "auto_config=false")
	add("cvc5", "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000))
	ch := make(chan r, len(runs))
	for _, g := range runs {
		go func() { ch <- g() }()
	}
	sat := ""
	for range runs {
		x := <-ch
		if x.v == "unsat" {
			return "unsat", x.n
		}
		if x.v == "sat" {
			sat = x.n
		}
	}
	if sat != "" {
		return "sat", sat
	}
	return "unknown", ""
}
