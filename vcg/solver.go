package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Solver drives one incremental z3 process. All declarations are global
// (survive pop). Every assertion is also recorded so that a query can be
// replayed stand-alone with another back end.
type Solver struct {
	tb      *TB
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	stack   [][]string // assertions by level
	decls   []string   // declarations in order
	sentF   map[string]bool
	sentS   map[string]bool
	sentStr int
	extra   []string // background axioms
	Stats   *Stats
	dead    bool
	soft    int
	hard    int
	dir     string
	cur     string
	facts   []fact // background facts about literals/constants
}

type fact struct {
	txt   string
	level int
}

type Stats struct {
	Queries   int
	Time      time.Duration
	ByBackend map[string]int
	Restarts  int
}

var qlog = os.Getenv("VCG_QLOG") != ""

func newStats() *Stats { return &Stats{ByBackend: map[string]int{}} }

const prelude = `(set-option :global-declarations true)
(set-option :print-success false)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(set-option :smt.qi.eager_threshold 100)
(set-option :smt.qi.lazy_threshold 200)
`

const preludeBody = `(declare-sort Str 0)
(declare-sort Box 0)
(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (sub (sp Ref) (sf Int)) (elt (ep Ref) (ei Int)))))
(declare-datatypes ((Slice 0)) (((mksl (sarr Ref) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((mkif (itid Int) (ibox Box)))))
(declare-fun rid (Ref) Int)
(declare-fun cat (Str Str) Str)
(declare-fun strlen (Str) Int)
(declare-const nilbox Box)
(assert (= (rid null) (- 1)))
(assert (forall ((n Int)) (! (= (rid (obj n)) n) :pattern ((obj n)))))
(assert (forall ((r Ref)(n Int)) (! (= (rid (sub r n)) (rid r)) :pattern ((sub r n)))))
(assert (forall ((r Ref)(n Int)) (! (= (rid (elt r n)) (rid r)) :pattern ((elt r n)))))
(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))
(assert (forall ((a Str)(b Str)) (! (=> (= (strlen a) 0) (= (cat a b) b)) :pattern ((cat a b)))))
(assert (forall ((a Str)(b Str)) (! (=> (= (strlen b) 0) (= (cat a b) a)) :pattern ((cat a b)))))
(assert (forall ((a Str)(b Str)) (! (= (strlen (cat a b)) (+ (strlen a) (strlen b))) :pattern ((cat a b)))))
`

func NewSolver(tb *TB, st *Stats, dir string) *Solver {
	s := &Solver{tb: tb, Stats: st, sentF: map[string]bool{}, sentS: map[string]bool{}, dir: dir, soft: 4000, hard: 20}
	s.stack = [][]string{nil}
	s.start()
	return s
}

func (s *Solver) start() {
	c := exec.Command("z3-new", "-in")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		panic("cannot start z3-new: " + err.Error())
	}
	s.cmd, s.inRaw, s.in, s.out = c, in, bufio.NewWriterSize(in, 1<<25), bufio.NewReaderSize(out, 1<<20)
	s.in.WriteString(prelude + preludeBody)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Stats.Restarts++
	s.Close()
	s.start()
	for _, d := range s.decls {
		s.in.WriteString(d + "\n")
	}
	for i := range s.facts {
		s.facts[i].level = 0
		s.in.WriteString("(assert " + s.facts[i].txt + ")\n")
	}
	for i, l := range s.stack {
		if i > 0 {
			s.in.WriteString("(push 1)\n")
		}
		for _, a := range l {
			s.in.WriteString("(assert " + a + ")\n")
		}
	}
}

func (s *Solver) Fact(txt string) {
	s.facts = append(s.facts, fact{txt, len(s.stack) - 1})
	s.in.WriteString("(assert " + txt + ")\n")
}

func (s *Solver) emitDecl(d string) {
	s.decls = append(s.decls, d)
	s.in.WriteString(d + "\n")
}

// sync sends pending declarations
func (s *Solver) sync() {
	for _, so := range s.tb.SortL {
		if !s.sentS[so] {
			s.sentS[so] = true
			s.emitDecl(fmt.Sprintf("(declare-sort %s 0)", so))
		}
	}
	for _, n := range s.tb.newDec {
		if s.sentF[n] {
			continue
		}
		s.sentF[n] = true
		d := s.tb.Decls[n]
		s.emitDecl(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(d.Args, " "), d.Res))
		if d.Pos {
			s.Fact(fmt.Sprintf("(> %s 0)", n))
		}
	}
	s.tb.newDec = nil
	for s.sentStr < len(s.tb.strL) {
		lit := s.tb.strL[s.sentStr]
		sy := strSym(lit)
		s.emitDecl(fmt.Sprintf("(declare-const %s Str)", sy))
		s.Fact(fmt.Sprintf("(= (strlen %s) %d)", sy, len(lit)))
		// distinctness through an injective numbering
		if s.sentStr == 0 {
			s.emitDecl("(declare-fun strnum (Str) Int)")
		}
		s.Fact(fmt.Sprintf("(= (strnum %s) %d)", sy, s.sentStr))
		s.sentStr++
	}
}

func (s *Solver) Push() {
	s.stack = append(s.stack, nil)
	s.in.WriteString("(push 1)\n")
}
func (s *Solver) Pop() {
	s.stack = s.stack[:len(s.stack)-1]
	s.in.WriteString("(pop 1)\n")
	lv := len(s.stack) - 1
	for i := len(s.facts) - 1; i >= 0; i-- {
		if s.facts[i].level > lv {
			s.facts[i].level = lv
			s.in.WriteString("(assert " + s.facts[i].txt + ")\n")
		}
	}
}
func (s *Solver) Assert(t *Term) {
	if isTrue(t) {
		return
	}
	txt := t.SMT()
	s.sync()
	s.stack[len(s.stack)-1] = append(s.stack[len(s.stack)-1], txt)
	s.in.WriteString("(assert " + txt + ")\n")
}

// Axiom adds a background axiom valid at every level.
func (s *Solver) Axiom(t *Term) {
	if isTrue(t) {
		return
	}
	txt := t.SMT()
	s.sync()
	s.Fact(txt)
}

func (s *Solver) check(ms int) string {
	t0 := time.Now()
	s.Stats.Queries++
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat)\n(echo \"#done\")\n", ms)
	done := make(chan string, 1)
	out, in := s.out, s.in
	go func() {
		// the solver may be busy with what it was sent before
		if err := in.Flush(); err != nil {
			done <- "dead"
			return
		}
		res := ""
		for {
			l, err := out.ReadString('\n')
			if err != nil {
				done <- "dead"
				return
			}
			l = strings.TrimSpace(l)
			if l == "#done" || l == "\"#done\"" {
				done <- res
				return
			}
			if strings.HasPrefix(l, "(error") {
				res = l
			} else if res == "" || !strings.HasPrefix(res, "(error") {
				res = l
			}
		}
	}()
	var r string
	select {
	case r = <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond*5/4 + 700*time.Millisecond):
		s.cmd.Process.Kill()
		<-done
		r = "dead"
	}
	s.Stats.Time += time.Since(t0)
	if qlog {
		fmt.Fprintf(os.Stderr, "Q %s %d/%dms %s\n", r, time.Since(t0).Milliseconds(), ms, s.cur)
	}
	if strings.HasPrefix(r, "(error") {
		s.dump("error", nil)
		panic("solver error: " + r)
	}
	if r == "dead" {
		if qlog {
			if s.dir == "" {
				s.dir = os.TempDir()
			}
			fmt.Fprintln(os.Stderr, "dead script", s.dump("dead", nil))
		}
		s.restart()
		return "unknown"
	}
	return r
}

// Feasible reports whether the current context may be satisfiable.
func (s *Solver) Feasible() bool {
	return s.check(400) != "unsat"
}

func (s *Solver) script(goal *Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n" + preludeBody)
	g := ""
	if goal != nil {
		g = s.tb.Not(goal).SMT()
		s.sync()
	}
	for _, d := range s.decls {
		sb.WriteString(d + "\n")
	}
	for _, f := range s.facts {
		sb.WriteString("(assert " + f.txt + ")\n")
	}
	for _, l := range s.stack {
		for _, a := range l {
			sb.WriteString("(assert " + a + ")\n")
		}
	}
	if goal != nil {
		sb.WriteString("(assert " + g + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (s *Solver) dump(tag string, goal *Term) string {
	if s.dir == "" {
		return ""
	}
	f, err := os.CreateTemp(s.dir, tag+"-*.smt2")
	if err != nil {
		return ""
	}
	f.WriteString(s.script(goal))
	f.Close()
	return f.Name()
}

var spare = make(chan bool, 3)

// Again tries a goal the incremental process could not decide once more, in
// fresh processes (whose search does not depend on what was asked before).
// Unless patient, it gives up when the first of them does so early.
func (s *Solver) Again(goal *Term, patient bool) bool {
	f := s.dump("h", goal)
	if f == "" {
		return false
	}
	defer os.Remove(f)
	t0 := time.Now()
	s.Stats.Queries++
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
	defer cancel()
	bes := [][]string{
		{"z3-5.3.2/standalone", "z3-new", "-T:3", "auto_config=false", "smt.mbqi=false"},
		{"z3-5.3.2/standalone", "z3-new", "-T:3", "auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.arith.random_initial_value=true", "smt.phase_selection=5"},
		{"z3-4.8.12", "z3", "-T:3", "auto_config=false", "smt.mbqi=false"},
		{"cvc5-1.1.2", "cvc5", "--tlimit=3000"},
	}
	ch := make(chan string, len(bes))
	gave := make(chan bool, 1) // the first one gave up early
	n := 0
	for i, b := range bes {
		i, b := i, b
		if i > 0 {
			select {
			case spare <- true:
			default:
				continue // enough of them are running
			}
		}
		n++
		go func() {
			if i > 0 {
				defer func() { <-spare }()
			}
			o, _ := exec.CommandContext(ctx, b[1], append(b[2:], f)...).Output()
			if strings.HasPrefix(string(o), "unsat") {
				ch <- b[0]
				return
			}
			if i == 0 && !patient && time.Since(t0) < 1500*time.Millisecond {
				gave <- true
			}
			ch <- ""
		}()
	}
	win := ""
	for ; n > 0 && win == ""; n-- {
		select {
		case win = <-ch:
		case <-gave:
			n = 0
		}
	}
	s.Stats.Time += time.Since(t0)
	if win == "" {
		return false
	}
	s.Stats.ByBackend[win]++
	return true
}

// Valid tries to discharge goal in the current context. The result is one
// of "valid" (with back end), or "unknown"/"sat".
func (s *Solver) Valid(goal *Term, ms int, fallback bool) (bool, string, string) {
	if isTrue(goal) {
		s.Stats.ByBackend["simplifier"]++
		return true, "simplifier", ""
	}
	s.Push()
	s.Assert(s.tb.Not(goal))
	r := s.check(ms)
	s.Pop()
	if r == "unsat" {
		s.Stats.ByBackend["z3-5.3.2"]++
		return true, "z3-5.3.2", ""
	}
	if !fallback {
		if d := os.Getenv("VCG_DUMPC"); d != "" { // debugging: keep failing candidate checks
			os.WriteFile(fmt.Sprintf("%s/c%d.smt2", d, time.Now().UnixNano()), []byte(s.script(goal)), 0o644)
		}
		return false, "", r
	}
	f := s.dump("q", goal)
	if f == "" {
		return false, "", r
	}
	type be struct {
		name string
		args []string
	}
	why := "z3-new(incremental): " + r
	t0 := time.Now()
	bes := []be{
		{"z3-5.3.2/standalone", []string{"z3-new", "-T:10", "auto_config=false", "smt.mbqi=false", f}},
		{"cvc5-1.1.2", []string{"cvc5", "--tlimit=10000", f}},
		{"z3-4.8.12", []string{"z3", "-T:10", f}},
	}
	type ans struct {
		i   int
		res string
	}
	ch := make(chan ans, len(bes))
	var cmds []*exec.Cmd
	for i, b := range bes {
		c := exec.Command(b.args[0], b.args[1:]...)
		cmds = append(cmds, c)
		go func(i int) {
			o, _ := c.CombinedOutput()
			res := strings.TrimSpace(string(o))
			if i := strings.IndexByte(res, '\n'); i >= 0 {
				res = res[:i]
			}
			ch <- ans{i, res}
		}(i)
	}
	got := make([]string, len(bes))
	win := -1
	for range bes {
		a := <-ch
		got[a.i] = a.res
		if a.res == "unsat" && win < 0 {
			win = a.i
			for _, c := range cmds {
				if c.Process != nil {
					c.Process.Kill()
				}
			}
		}
	}
	if win >= 0 {
		s.Stats.ByBackend[bes[win].name]++
		s.Stats.Time += time.Since(t0)
		os.Remove(f)
		return true, bes[win].name, ""
	}
	for i, b := range bes {
		why += "; " + b.name + ": " + got[i]
	}
	s.Stats.Time += time.Since(t0)
	keep := os.Getenv("VCG_KEEP")
	if keep == "" {
		os.Remove(f)
	} else {
		why += " [" + filepath.Base(f) + "]"
	}
	return false, "", why
}
