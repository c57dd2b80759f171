package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Unit is one contract function to be verified.
type Unit struct {
	Name      string
	Decl      *ast.FuncDecl
	Props     []string
	Contract  []string // callee keys this function is the contract of
	Uses      []string
	Unfold    map[string]bool // definitions (vu...) unfolded in this unit
	Text      []string        // pieces that string inputs are made of when the contract is executed
	Inv       map[string]bool
	Strings   bool
	Budget    int
	Timeout   int
	Portfolio int
	NoSplit   bool
	Quick     bool
	Thorough  bool // only in the thorough tier
	Bounded   int  // declared bounded unit: unrolling depth (never counted as proved)
	Why       string
	Native    bool // bounded stand-in: executed, never proved
	DeepOnly  bool
}

type UnitResult struct {
	Unit     string        `json:"unit"`
	Status   string        `json:"status"` // proved | failed | unsupported
	Mode     string        `json:"mode"`   // deductive | bounded
	Obl      []*Obligation `json:"obligations"`
	Note     string        `json:"note,omitempty"`
	Secs     float64       `json:"secs"`
	Queries  int           `json:"queries"`
	Ends     int           `json:"path_ends"`
	Inlined  []string      `json:"functions"`
	Applied  []string      `json:"contracts_applied"`
	Models   []string      `json:"trusted"`
	Loops    []string      `json:"loops"`
	InvBound bool          `json:"inv_bound"`
	Unrolled bool          `json:"unrolled"`
}

func (p *Program) Units() []*Unit {
	var names []string
	for n := range p.SpecFuncs {
		if strings.HasPrefix(n, "spec_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var us []*Unit
	for _, n := range names {
		d := p.SpecFuncs[n]
		u := &Unit{Name: n, Decl: d, Inv: map[string]bool{}, Budget: 100, Timeout: 1500, Portfolio: 8}
		if d.Doc != nil {
			for _, c := range d.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(t, "@") {
					continue
				}
				f := strings.Fields(t[1:])
				if len(f) == 0 {
					continue
				}
				a := f[1:]
				switch f[0] {
				case "property":
					u.Props = append(u.Props, a...)
				case "contract":
					u.Contract = append(u.Contract, a...)
				case "uses":
					u.Uses = append(u.Uses, a...)
				case "inv":
					for _, x := range a {
						u.Inv[x] = true
					}
				case "unfold":
					if u.Unfold == nil {
						u.Unfold = map[string]bool{}
					}
					for _, x := range a {
						u.Unfold[x] = true
					}
				case "text":
					u.Text = a
				case "strings":
					u.Strings = true
				case "budget":
					u.Budget, _ = strconv.Atoi(a[0])
				case "timeout":
					u.Timeout, _ = strconv.Atoi(a[0])
				case "portfolio":
					u.Portfolio, _ = strconv.Atoi(a[0])
				case "thorough":
					u.Thorough = true
				case "native":
					u.Native, u.Why = true, strings.Join(a, " ")
				case "bounded":
					u.Bounded, _ = strconv.Atoi(a[0])
					u.Why = strings.Join(a[1:], " ")
				}
			}
		}
		us = append(us, u)
	}
	return us
}

// RunUnit verifies one unit. unroll > 0 selects the bounded mode.
func (p *Program) RunUnit(u *Unit, unroll int) (res *UnitResult) {
	t0 := time.Now()
	m := NewMach(p, u)
	m.unroll = unroll
	res = &UnitResult{Unit: u.Name, Status: "proved", Mode: "deductive", InvBound: true}
	if unroll > 0 {
		res.Mode = "bounded"
		m.noInv = true
	}
	defer func() {
		res.Queries = m.sess.Queries
		m.sess.Close()
		res.Secs = time.Since(t0).Seconds()
		for _, n := range m.order {
			o := m.oblig[n]
			res.Obl = append(res.Obl, o)
			if o.Status != "proved" && res.Status == "proved" {
				res.Status = "failed"
			}
		}
		res.Ends = m.ends
		res.Inlined = sortedKeys(m.inlined)
		res.Applied = sortedKeys(m.applied)
		res.Models = sortedKeys(m.models)
		res.Loops = sortedKeys(m.loopSeen)
		res.Unrolled = m.unrolled
		if res.Status == "proved" && m.ends == 0 {
			res.Status = "unsupported"
			res.Note = "vacuous: no feasible path reaches the end of the contract"
		}
		if res.Status == "proved" && len(res.Obl) == 0 {
			res.Status = "unsupported"
			res.Note = "vacuous: no obligation generated"
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Status, res.Note = "unsupported", x.msg
			case pureAbort:
				res.Status, res.Note = "unsupported", "contract expression: "+x.why
			case bindError:
				res.Status, res.Note = "unsupported", "annotation does not bind: "+x.msg
				res.InvBound = false
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					debug.PrintStack()
				}
				res.Status, res.Note = "unsupported", fmt.Sprintf("internal: %v", r)
				if os.Getenv("GOVC_STACK") != "" {
					os.Stderr.Write(debug.Stack())
				}
			}
		}
	}()
	m.unfold = u.Unfold
	for _, un := range u.Uses {
		d := p.SpecFuncs[un]
		if d == nil {
			panic(unsupported{"unknown contract " + un})
		}
		for _, k := range p.contractKeys(d) {
			m.uses[k] = d
		}
	}
	if ks := p.contractKeys(u.Decl); len(ks) > 0 {
		m.rootKey = ks[0]
		if _, has := m.uses[m.rootKey]; !has {
			m.uses[m.rootKey] = u.Decl
		}
	}
	st := &State{vars: map[vkey]Val{}, heap: map[string]*Term{}}
	m.newAlloc(st)
	m.alloc0 = st.alloc
	m.heap0 = map[string]*Term{}
	// the trace starts empty (the code cannot read it)
	st.heap["T:len"] = m.c.Store(m.comp(st, "T:len", arrSort("Int", "Int")), m.c.Int(0), m.c.Int(0))
	obj := p.Info.Defs[u.Decl.Name].(*types.Func)
	sig := obj.Type().(*types.Signature)
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		pr := sig.Params().At(i)
		v := m.freshVal(pr.Name(), pr.Type())
		m.wf(st, v)
		if _, ok := types.Unalias(pr.Type()).(*types.Pointer); ok {
			m.assume(st, m.c.Le(m.c.Int(1), v.X))
		}
		args = append(args, v)
	}
	fr := m.newFrame(u.Name, nil)
	fr.Decl = u.Decl
	fr.Sig = sig
	fr.Spec = true
	m.rootFrame = fr
	st.ph = &handler{f: func(st *State, c *ctl) {
		m.oblige(st, "nopanic", m.c.False, "the code can panic: "+c.why)
	}}
	m.bindParams(st, fr, u.Decl.Type, args)
	m.runBody(st, fr, sig, u.Decl.Type, u.Decl.Body, func(st *State, _ []Val) {
		if m.ends < 1 || m.ends < 3 && m.sess.Check(100) != "unsat" {
			if m.sess.Check(300) != "unsat" {
				m.ends++
			}
		} else {
			m.ends++
		}
	})
	return res
}

// contractKeys are the callee keys a contract function describes.
func (p *Program) contractKeys(d *ast.FuncDecl) []string {
	var ks []string
	if d.Doc == nil {
		return nil
	}
	for _, c := range d.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		if strings.HasPrefix(t, "@contract ") {
			ks = append(ks, strings.Fields(t)[1:]...)
		}
	}
	return ks
}
