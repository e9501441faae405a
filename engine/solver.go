package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	inRaw io.WriteCloser
	out   *bufio.Reader
	ts    *Terms
	stack []*Term // asserted, one push level each
	gen   int     // incarnation: terms defined in this process carry it

	Queries  int
	Time     time.Duration
	Unknowns int
	Errors   int
	log      io.Writer
}

var solverGen = 0

func NewSolver(ts *Terms) *Solver {
	s := &Solver{ts: ts}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.cmd = exec.Command("z3", "-in", "-smt2")
	s.inRaw, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.in = bufio.NewWriterSize(s.inRaw, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 20000)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() { s.Close(); s.start() }

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(x *Term) {
	if x.defd == s.gen || x.op == OConst {
		return
	}
	for _, a := range x.a {
		if a != nil {
			s.define(a)
		}
	}
	x.defd = s.gen
	if x.op == OVar {
		s.send(fmt.Sprintf("(declare-const %s %s)\n", x.ref(), sortStr(x.sort)))
		return
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortStr(x.sort), x.body()))
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc ∧ q. On sat the model of vars is returned.
func (s *Solver) Check(pc []*Term, q *Term, vars []*Term) (string, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if q != nil {
		s.define(q)
		s.send("(push 1)\n(assert " + q.ref() + ")\n")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	r := s.line()
	var m map[*Term]uint64
	if r == "sat" {
		m = map[*Term]uint64{}
		if len(vars) > 0 {
			s.send("(get-value (")
			for _, v := range vars {
				s.send(v.ref() + " ")
			}
			s.send("))\n")
			s.in.Flush()
			s.readModel(vars, m)
		}
	}
	if q != nil {
		s.send("(pop 1)\n")
	}
	if r != "sat" && r != "unsat" {
		if r != "unknown" {
			s.Errors++
			if s.log != nil {
				io.WriteString(s.log, ";; "+r+"\n")
			}
			s.restart()
		}
		s.Unknowns++
		return "unknown", nil
	}
	return r, m
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "eof"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// readModel reads one balanced s-expression ((|v| #x..) ...).
func (s *Solver) readModel(vars []*Term, m map[*Term]uint64) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	for i := 0; i < len(txt); {
		j := strings.IndexByte(txt[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		rest := strings.TrimLeft(txt[i:], " \n(")
		off := len(txt) - len(rest)
		var name string
		if strings.HasPrefix(rest, "|") {
			e := strings.IndexByte(rest[1:], '|')
			if e < 0 {
				break
			}
			name = rest[1 : 1+e]
			rest = rest[2+e:]
		} else {
			e := strings.IndexAny(rest, " )\n")
			if e < 0 {
				break
			}
			name = rest[:e]
			rest = rest[e:]
		}
		_ = off
		rest = strings.TrimLeft(rest, " \n")
		e := strings.IndexAny(rest, ") \n")
		if e < 0 {
			break
		}
		val := rest[:e]
		i = len(txt) - len(rest) + e
		v := byName[name]
		if v == nil {
			continue
		}
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			n, _ := strconv.ParseUint(val[2:], 16, 64)
			m[v] = n
		case strings.HasPrefix(val, "#b"):
			n, _ := strconv.ParseUint(val[2:], 2, 64)
			m[v] = n
		}
	}
}
