package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats is shared by all workers.
type SolverStats struct {
	queries, sat, unsat, unknown, fallback, errors int64
	nanos                                          int64
	slowest                                        int64
}

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	ufs     map[string]bool
	stack   []*Term
	stats   *SolverStats
	buf     strings.Builder
	tmo     int // ms
	queries int
	dead    bool
	log     io.Writer
}

var solverBin = func() string {
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}()

func NewSolver(stats *SolverStats, tmoMs int) *Solver {
	s := &Solver{stats: stats, tmo: tmoMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defined = map[*Term]bool{}
	s.ufs = map[string]bool{}
	s.stack = nil
	s.queries = 0
	s.dead = false
	c := exec.Command(solverBin, "-in", "-smt2", "-memory:3000")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		s.dead = true
		return
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReaderSize(out, 1<<16)
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" && s.log == nil {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		s.log = f
	}
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.tmo))
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

func (s *Solver) Restart() { s.Close(); s.start() }

func emitDefs(sb *strings.Builder, t *Term, defined map[*Term]bool, ufs map[string]bool) {
	if t.op == OConst || defined[t] {
		return
	}
	// iterative post-order to survive deep terms
	type item struct {
		t *Term
		i int
	}
	st := []item{{t, 0}}
	for len(st) > 0 {
		it := &st[len(st)-1]
		x := it.t
		if x.op == OConst || defined[x] {
			st = st[:len(st)-1]
			continue
		}
		if it.i < int(x.n) {
			c := x.a[it.i]
			it.i++
			if c.op != OConst && !defined[c] {
				st = append(st, item{c, 0})
			}
			continue
		}
		if x.op == OVar {
			fmt.Fprintf(sb, "(declare-const %s %s)\n", x.refSMT(), x.sort.smt())
		} else {
			if x.op == OFlt || x.op == OUF {
				n := x.ufName()
				if !ufs[n] {
					ufs[n] = true
					fmt.Fprintf(sb, "(declare-fun |%s| (", n)
					for i := 0; i < int(x.n); i++ {
						sb.WriteString(x.a[i].sort.smt() + " ")
					}
					fmt.Fprintf(sb, ") %s)\n", x.sort.smt())
				}
			}
			fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", x.id, x.sort.smt(), x.bodySMT())
		}
		defined[x] = true
		st = st[:len(st)-1]
	}
}

// readLine reads one answer line.
func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra. vars are the variables whose values are wanted.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatRes, Model) {
	t0 := time.Now()
	atomic.AddInt64(&s.stats.queries, 1)
	r, m := s.check(pc, extra, vars)
	if r == Unknown {
		atomic.AddInt64(&s.stats.fallback, 1)
		r, m = oneShot(pc, extra, vars, 20)
	}
	d := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&s.stats.nanos, d)
	for {
		o := atomic.LoadInt64(&s.stats.slowest)
		if d <= o || atomic.CompareAndSwapInt64(&s.stats.slowest, o, d) {
			break
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.unsat, 1)
	default:
		atomic.AddInt64(&s.stats.unknown, 1)
	}
	return r, m
}

func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (SatRes, Model) {
	if s.dead || s.cmd == nil || s.queries > 20000 {
		s.Restart()
		if s.dead {
			return Unknown, nil
		}
	}
	s.queries++
	sb := &s.buf
	sb.Reset()
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(sb, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		emitDefs(sb, t, s.defined, s.ufs)
		fmt.Fprintf(sb, "(push 1)\n(assert %s)\n", t.refSMT())
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		emitDefs(sb, extra, s.defined, s.ufs)
	}
	for _, v := range vars {
		emitDefs(sb, v, s.defined, s.ufs)
	}
	sb.WriteString("(push 1)\n")
	if extra != nil {
		fmt.Fprintf(sb, "(assert %s)\n", extra.refSMT())
	}
	sb.WriteString("(check-sat)\n(echo \"done\")\n")
	s.send(sb.String())
	res := Unknown
	bad := false
	timer := time.AfterFunc(time.Duration(s.tmo)*time.Millisecond+8*time.Second, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			return Unknown, nil
		}
		l = strings.Trim(l, "\"")
		if l == "done" {
			break
		}
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case l == "unknown" || l == "timeout":
			res = Unknown
		case strings.HasPrefix(l, "(error"):
			bad = true
			atomic.AddInt64(&s.stats.errors, 1)
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", l)
			}
		}
	}
	if bad {
		s.Restart()
		return Unknown, nil
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.refSMT())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n(echo \"done\")\n")
		s.send(sb.String())
		var txt strings.Builder
		for {
			l, err := s.readLine()
			if err != nil {
				s.dead = true
				return Unknown, nil
			}
			if strings.Trim(l, "\"") == "done" {
				break
			}
			txt.WriteString(l)
			txt.WriteByte(' ')
		}
		m = parseValues(txt.String())
	}
	s.send("(pop 1)\n")
	return res, m
}

// parseValues reads ((|x| #x..) (|y| true) ...).
func parseValues(s string) Model {
	m := Model{}
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '|')
		var name string
		if j < 0 {
			// unquoted names: ((x #x00)
			break
		}
		i += j + 1
		k := strings.IndexByte(s[i:], '|')
		name = s[i : i+k]
		i += k + 1
		if x := strings.IndexByte(name, '!'); x >= 0 {
			name = name[:x]
		}
		for s[i] == ' ' {
			i++
		}
		e := i
		for e < len(s) && s[e] != ')' && s[e] != ' ' {
			e++
		}
		v := s[i:e]
		i = e
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = u
		}
	}
	return m
}

var oneShotSem = make(chan struct{}, 4)

// oneShot runs the query from scratch on several solvers at once.
func oneShot(pc []*Term, extra *Term, vars []*Term, secs int) (SatRes, Model) {
	oneShotSem <- struct{}{}
	defer func() { <-oneShotSem }()
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	def, ufs := map[*Term]bool{}, map[string]bool{}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		emitDefs(&sb, t, def, ufs)
		fmt.Fprintf(&sb, "(assert %s)\n", t.refSMT())
	}
	for _, v := range vars {
		emitDefs(&sb, v, def, ufs)
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.refSMT() + " ")
		}
		sb.WriteString("))\n")
	}
	script := sb.String()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	type ans struct {
		r SatRes
		m Model
	}
	cmds := [][]string{
		{solverBin, "-in", "-smt2", "-memory:3000"},
		{"cvc5", "--lang=smt2", "--produce-models", "-"},
		{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "-"},
	}
	ch := make(chan ans, len(cmds))
	var wg sync.WaitGroup
	for _, c := range cmds {
		wg.Add(1)
		go func(c []string) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			txt := strings.TrimSpace(string(out))
			a := ans{r: Unknown}
			switch {
			case strings.HasPrefix(txt, "unsat"):
				a.r = Unsat
			case strings.HasPrefix(txt, "sat") && !strings.Contains(txt, "(error"):
				a.r = Sat
				a.m = parseValues(txt[3:])
			}
			ch <- a
		}(c)
	}
	res := ans{r: Unknown}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	cancel()
	go wg.Wait()
	return res.r, res.m
}
