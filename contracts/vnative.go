package ecore

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Native execution of the contracts: search for, and replay of, a failing input.

var vUnitTable = map[string]func(t *vTape){}

type vOutcome struct {
	Unit   string         `json:"unit"`
	Found  bool           `json:"found"`
	Name   string         `json:"obligation"`
	Msg    string         `json:"message"`
	Tape   []int          `json:"tape"`
	Inputs []string       `json:"inputs"`
	Trials int            `json:"trials"`
	Ran    int            `json:"ran"`
	Whole  bool           `json:"exhausted"`
	Counts map[string]int `json:"ensures"`
}

// Int, Any, Str: built-in generators.
func (t *vTape) Int() int {
	v := []int{0, 1, 2, -1, 3, 4, 5, 7, 100, -2}[t.Choose(10)]
	return t.note(v)
}
func (t *vTape) Small(n int) int { return t.Choose(n) }
func (t *vTape) Any() any {
	pool := []any{"a", "b", "c", 1, nil, 2}
	i := t.Choose(len(pool) + len(t.objs))
	if i < len(pool) {
		return pool[i]
	}
	return t.objs[i-len(pool)]
}
func (t *vTape) Str() string {
	if t.text != nil {
		s := ""
		for n := t.Choose(8); n > 0; n-- {
			s += t.text[t.Choose(len(t.text))]
		}
		return s
	}
	return []string{"a", "", "b", "ab", "x", "a/b", "1", "#"}[t.Choose(8)]
}
func (t *vTape) Anys(max int) []any {
	n := t.Choose(max + 3)
	if n > max {
		n = max + 3*(n-max)
	}
	// spare capacity matters to append
	s := make([]any, 0, n+2*t.Choose(2))
	for i := 0; i < n; i++ {
		s = append(s, t.Any())
	}
	return s
}
func (t *vTape) note(v int) int { return v }

func vgenAny(t *vTape) any       { return t.Any() }
func vgenInt(t *vTape) int       { return t.Int() }
func vgenString(t *vTape) string { return t.Str() }
func vgenBool(t *vTape) bool     { return t.Bool() }

// vgenDescribe lets generators say what they built (for the replay file).
func (t *vTape) Say(format string, args ...any) {
	t.descr = append(t.descr, fmt.Sprintf(format, args...))
}

var vTrialNo int64

func vTrial(f func(t *vTape), t *vTape) (skip bool, name, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case vSkip:
				skip = true
			case vFail:
				name, msg = x.name, "the postcondition is false"
			default:
				s := string(debug.Stack())
				if i := strings.Index(s, "panic("); i >= 0 {
					s = s[i:]
				}
				if len(s) > 1500 {
					s = s[:1500]
				}
				name, msg = "nopanic", fmt.Sprintf("panic: %v\n%s", r, s)
			}
		}
	}()
	vEvents = nil
	vCurTape = t
	f(t)
	return false, "", ""
}

// VMain is the entry point of the native runner.
func VMain() {
	unit := flag.String("unit", "", "")
	secs := flag.Float64("secs", 5, "")
	tape := flag.String("tape", "", "")
	seed := flag.Int64("seed", 1, "")
	logf := flag.String("log", "", "")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	f := vUnitTable[*unit]
	out := vOutcome{Unit: *unit, Counts: map[string]int{}}
	vEnsured = out.Counts
	emit := func() {
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
	}
	if f == nil {
		out.Msg = "no native generator"
		emit()
		return
	}
	cur := &vTape{}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(100 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			n := atomic.LoadInt64(&vTrialNo)
			if n != last {
				last, since = n, time.Now()
			}
			if time.Since(since) > 4*time.Second || ms.HeapAlloc > 3<<30 {
				out.Found, out.Name, out.Msg, out.Tape = true, "termination", "the call does not return", append([]int(nil), cur.c...)
				out.Inputs = cur.descr
				emit()
				os.Exit(0)
			}
		}
	}()
	var lf *os.File
	if *logf != "" {
		lf, _ = os.Create(*logf)
	}
	run := func(t *vTape) bool {
		cur = t
		if lf != nil {
			b, _ := json.Marshal(t.c)
			lf.WriteAt(append(b, '\n'), 0)
		}
		atomic.AddInt64(&vTrialNo, 1)
		out.Trials++
		skip, name, msg := vTrial(f, t)
		if !skip {
			out.Ran++
		}
		if name != "" {
			out.Found, out.Name, out.Msg, out.Tape, out.Inputs = true, name, msg, t.c, t.descr
			return true
		}
		return false
	}
	if *tape != "" {
		var c []int
		json.Unmarshal([]byte(*tape), &c)
		run(&vTape{c: c})
		emit()
		return
	}
	// systematic enumeration of the choice sequences, last choice first
	end := time.Now().Add(time.Duration(*secs * float64(time.Second) / 2))
	t := &vTape{}
	for time.Now().Before(end) {
		if run(t) {
			emit()
			return
		}
		c, n := t.c[:t.pos], t.n
		i := len(c) - 1
		for i >= 0 && c[i]+1 >= n[i] {
			i--
		}
		if i < 0 {
			out.Whole = true
			break
		}
		nc := append(append([]int(nil), c[:i]...), c[i]+1)
		t = &vTape{c: nc}
	}
	if !out.Whole {
		end = time.Now().Add(time.Duration(*secs * float64(time.Second) / 2))
		r := rand.New(rand.NewSource(*seed))
		for time.Now().Before(end) {
			if run(&vTape{rnd: func(n int) int { return r.Intn(n) }}) {
				emit()
				return
			}
		}
	}
	emit()
}
