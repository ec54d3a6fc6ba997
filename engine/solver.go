package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	resUnknown satRes = iota
	resSat
	resUnsat
)

// Solver is one SMT solver process spoken to over a pipe.
type Solver struct {
	kind    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     int
	defs    int
	timeout time.Duration
	Queries int
	Time    time.Duration
	dead    bool
}

var solverGen = make(chan int, 1)

func init() { solverGen <- 1 }

func nextGen() int {
	g := <-solverGen
	solverGen <- g + 1
	return g
}

func NewSolver(kind string, timeout time.Duration) (*Solver, error) {
	s := &Solver{kind: kind, timeout: timeout}
	return s, s.start()
}

func (s *Solver) start() error {
	var cmd *exec.Cmd
	ms := s.timeout.Milliseconds()
	switch s.kind {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", ms), "--fp-exp")
	default:
		cmd = exec.Command(s.kind, "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.gen = nextGen()
	s.defs = 0
	s.dead = false
	pre := "(set-option :global-declarations true)\n(set-option :produce-models true)\n"
	if s.kind == "cvc5" {
		pre += "(set-logic ALL)\n"
	}
	_, err = io.WriteString(s.in, pre)
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	if err := s.start(); err != nil {
		s.dead = true
	}
}

// Check decides the conjunction of lits. On sat it returns values for vars.
func (s *Solver) Check(lits []*Term, neg []bool, vars []*Term) (satRes, map[int]uint64) {
	if s.dead {
		return resUnknown, nil
	}
	if s.defs > 60000 {
		s.restart()
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++ }()
	var sb strings.Builder
	refs := make([]string, len(lits))
	for i, l := range lits {
		refs[i] = emit(&sb, l, s.gen, &s.defs)
	}
	sb.WriteString("(push 1)\n")
	for i, r := range refs {
		if neg[i] {
			fmt.Fprintf(&sb, "(assert (not %s))\n", r)
		} else {
			fmt.Fprintf(&sb, "(assert %s)\n", r)
		}
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		return resUnknown, nil
	}
	line, err := s.readLine(s.timeout + 20*time.Second)
	if err != nil {
		s.restart()
		return resUnknown, nil
	}
	res := resUnknown
	var model map[int]uint64
	switch line {
	case "sat":
		res = resSat
		model = map[int]uint64{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(varName(int(v.k), v.w))
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt, err := s.readSexp()
			if err != nil {
				s.restart()
				return resUnknown, nil
			}
			if !parseValues(txt, model) {
				s.restart()
				return resUnknown, nil
			}
		}
	case "unsat":
		res = resUnsat
	default:
		// unknown, timeout or (error ...): inconclusive; restart to resynchronise
		if line != "unknown" {
			lastSolverErr = line
			s.restart()
			return resUnknown, nil
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, model
}

var lastSolverErr string

func (s *Solver) readLine(d time.Duration) (string, error) {
	tm := time.AfterFunc(d, func() { s.cmd.Process.Kill() })
	defer tm.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	tm := time.AfterFunc(s.timeout+20*time.Second, func() { s.cmd.Process.Kill() })
	defer tm.Stop()
	var sb strings.Builder
	depth, started := 0, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, model map[int]uint64) bool {
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	toks := strings.Fields(txt)
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if strings.HasPrefix(t, "v") && strings.Contains(t, "_") && i+1 < len(toks) {
			us := strings.IndexByte(t, '_')
			id, err := strconv.Atoi(t[1:us])
			if err != nil {
				return false
			}
			v := toks[i+1]
			var n uint64
			switch {
			case v == "true":
				n = 1
			case v == "false":
				n = 0
			case strings.HasPrefix(v, "#x"):
				n, err = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				n, err = strconv.ParseUint(v[2:], 2, 64)
			default:
				return false
			}
			if err != nil {
				return false
			}
			model[id] = n
			i++
		} else if strings.HasPrefix(t, "error") {
			return false
		}
	}
	return true
}
