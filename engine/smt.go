package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Solver is one z3 process with an assertion stack that is kept in step with
// the path condition of the path being explored.
type Solver struct {
	st       *Store
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	gen      int32
	stack    []*Term
	decl     map[string]bool
	tmo      int
	nq       int64
	nsat     int64
	nunsat   int64
	nunk     int64
	nport    int64
	nabs     int64
	dur      time.Duration
	ndef     int
	log      io.Writer
	noNarrow bool
}

var genCounter int32

var z3bin = "z3-new"

func NewSolver(st *Store) *Solver {
	s := &Solver{st: st}
	if d := os.Getenv("VSMTLOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "z3log")
	}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := z3bin
	if e := os.Getenv("VZ3"); e != "" {
		bin = e
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver: %v", err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.gen = atomic.AddInt32(&genCounter, 1)
	s.stack = nil
	s.tmo = 0
	s.ndef = 0
	s.put("(set-option :global-declarations true)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) put(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

// ---- emission at natural width ----

// nat returns the natural width of a bit-vector term and whether it is to be
// zero-extended (true) or sign-extended (false).
// The width is fixed when first asked for, so that it stays the same when the
// interval is tightened later.
func nat(t *Term) (n uint8, unsigned bool) {
	if t.nn != 0 {
		return t.nn, t.nu
	}
	if t.smin >= 0 {
		n = uint8(bits.Len64(t.umax))
		if n == 0 {
			n = 1
		}
		unsigned = true
	} else {
		n = sbits(t)
	}
	t.nn, t.nu = n, unsigned
	return
}

func sbits(t *Term) uint8 {
	a := bits.Len64(uint64(t.smax))
	if t.smax < 0 {
		a = 0
	}
	b := bits.Len64(^uint64(t.smin))
	if t.smin >= 0 {
		b = 0
	}
	n := uint8(a)
	if uint8(b) > n {
		n = uint8(b)
	}
	n++
	if n > t.w {
		n = t.w
	}
	return n
}

type emitter struct {
	gen  int32
	buf  *strings.Builder
	full bool // no narrowing
	ndef *int
	seen map[*Term]bool // used instead of generations when non-nil
}

func (e *emitter) nat(t *Term) (uint8, bool) {
	if e.full {
		return t.w, true
	}
	return nat(t)
}

func (e *emitter) sb(t *Term) uint8 {
	if e.full {
		return t.w
	}
	n, u := nat(t)
	if u {
		n++
	}
	if n > t.w {
		n = t.w
	}
	return n
}

func (e *emitter) done(t *Term) bool {
	if e.seen != nil {
		if e.seen[t] {
			return true
		}
		e.seen[t] = true
		return false
	}
	if t.emGen == e.gen {
		return true
	}
	t.emGen = e.gen
	return false
}

// ref returns an expression for the term at its natural width (or a Bool).
func (e *emitter) ref(t *Term) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		n, _ := e.nat(t)
		return bvlit(t.val, n)
	}
	if t.op == OpVar {
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func bvlit(v uint64, n uint8) string {
	return "(_ bv" + strconv.FormatUint(v&mask(n), 10) + " " + strconv.Itoa(int(n)) + ")"
}

// ext returns the low n bits of the value of t.
func (e *emitter) ext(t *Term, n uint8) string {
	if t.op == OpConst {
		return bvlit(t.val, n)
	}
	m, u := e.nat(t)
	r := e.ref(t)
	switch {
	case n == m:
		return r
	case n < m:
		return "((_ extract " + strconv.Itoa(int(n)-1) + " 0) " + r + ")"
	case u:
		return "((_ zero_extend " + strconv.Itoa(int(n-m)) + ") " + r + ")"
	}
	return "((_ sign_extend " + strconv.Itoa(int(n-m)) + ") " + r + ")"
}

func extract(expr string, from, to uint8) string {
	if from == to {
		return expr
	}
	if to > from {
		panic("extract")
	}
	return "((_ extract " + strconv.Itoa(int(to)-1) + " 0) " + expr + ")"
}

func (e *emitter) define(t *Term) {
	if t.op == OpConst || e.done(t) {
		return
	}
	b := e.buf
	if t.op == OpVar {
		if t.w == 0 {
			fmt.Fprintf(b, "(declare-const v%d Bool)\n", t.id)
		} else {
			n, _ := e.nat(t)
			fmt.Fprintf(b, "(declare-const v%d (_ BitVec %d))\n", t.id, n)
		}
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			e.define(x)
		}
	}
	var ex string
	if t.w == 0 {
		switch t.op {
		case OpNot:
			ex = "(not " + e.ref(t.a) + ")"
		case OpAnd, OpOr:
			ex = "(" + opNames[t.op] + " " + e.ref(t.a) + " " + e.ref(t.b) + ")"
		case OpIte:
			ex = "(ite " + e.ref(t.a) + " " + e.ref(t.b) + " " + e.ref(t.c) + ")"
		case OpEq:
			if t.a.w == 0 {
				ex = "(= " + e.ref(t.a) + " " + e.ref(t.b) + ")"
			} else {
				n := e.common(t.a, t.b)
				ex = "(= " + e.ext(t.a, n) + " " + e.ext(t.b, n) + ")"
			}
		case OpUlt:
			n := t.a.w
			an, au := e.nat(t.a)
			bn, bu := e.nat(t.b)
			if au && bu {
				n = maxw(an, bn)
			}
			ex = "(bvult " + e.ext(t.a, n) + " " + e.ext(t.b, n) + ")"
		case OpSlt:
			n := maxw(e.sb(t.a), e.sb(t.b))
			ex = "(bvslt " + e.ext(t.a, n) + " " + e.ext(t.b, n) + ")"
		default:
			panic("bool op")
		}
		fmt.Fprintf(b, "(define-fun t%d () Bool %s)\n", t.id, ex)
		*e.ndef++
		return
	}
	n, _ := e.nat(t)
	bin := func(op string, m uint8, x, y *Term) string {
		return "(" + op + " " + e.ext(x, m) + " " + e.ext(y, m) + ")"
	}
	switch t.op {
	case OpIte:
		ex = "(ite " + e.ref(t.a) + " " + e.ext(t.b, n) + " " + e.ext(t.c, n) + ")"
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		ex = bin(opNames[t.op], n, t.a, t.b)
	case OpUdiv, OpUrem:
		m := t.w
		an, au := e.nat(t.a)
		bn, bu := e.nat(t.b)
		if au && bu && (t.b.umin > 0 || t.op == OpUrem) {
			m = maxw(an, bn)
		}
		ex = extract(bin(opNames[t.op], m, t.a, t.b), m, minw(m, n))
		n2 := minw(m, n)
		ex = zextTo(ex, n2, n)
	case OpSdiv, OpSrem:
		m := t.w
		if t.b.smin > 0 || t.b.smax < 0 {
			m = minw(t.w, maxw(e.sb(t.a), e.sb(t.b))+1)
		}
		ex = bin(opNames[t.op], m, t.a, t.b)
		if m >= n {
			ex = extract(ex, m, n)
		} else {
			ex = "((_ sign_extend " + strconv.Itoa(int(n-m)) + ") " + ex + ")"
		}
	case OpShl:
		if t.b.isConst() {
			ex = "(bvshl " + e.ext(t.a, n) + " " + shamt(t.b.val, n) + ")"
		} else {
			ex = extract(bin("bvshl", t.w, t.a, t.b), t.w, n)
		}
	case OpLshr:
		an, au := e.nat(t.a)
		if t.b.isConst() && au {
			ex = "(bvlshr " + e.ref(t.a) + " " + shamt(t.b.val, an) + ")"
			ex = extract(ex, an, minw(an, n))
			ex = zextTo(ex, minw(an, n), n)
		} else {
			ex = extract(bin("bvlshr", t.w, t.a, t.b), t.w, n)
		}
	case OpAshr:
		an, au := e.nat(t.a)
		if t.b.isConst() && !au {
			ex = "(bvashr " + e.ref(t.a) + " " + shamt(t.b.val, an) + ")"
			if an >= n {
				ex = extract(ex, an, n)
			} else {
				ex = "((_ sign_extend " + strconv.Itoa(int(n-an)) + ") " + ex + ")"
			}
		} else {
			ex = extract(bin("bvashr", t.w, t.a, t.b), t.w, n)
		}
	case OpZext:
		an, au := e.nat(t.a)
		if au {
			ex = e.ext(t.a, minw(an, n))
			ex = zextTo(ex, minw(an, n), n)
		} else {
			x := e.ext(t.a, t.a.w)
			if n <= t.a.w {
				ex = extract(x, t.a.w, n)
			} else {
				ex = zextTo(x, t.a.w, n)
			}
		}
	case OpSext:
		if e.full {
			ex = "((_ sign_extend " + strconv.Itoa(int(t.w-t.a.w)) + ") " + e.ref(t.a) + ")"
		} else {
			ex = e.ext(t.a, n)
		}
	case OpTrunc:
		ex = e.ext(t.a, n)
	default:
		panic("emit op " + opNames[t.op])
	}
	fmt.Fprintf(b, "(define-fun t%d () (_ BitVec %d) %s)\n", t.id, n, ex)
	*e.ndef++
}

func shamt(v uint64, n uint8) string {
	// the amount as an n-bit constant, saturated to n
	if v > uint64(n) {
		v = uint64(n)
	}
	return bvlit(v, n)
}

func zextTo(ex string, from, to uint8) string {
	if from >= to {
		return ex
	}
	return "((_ zero_extend " + strconv.Itoa(int(to-from)) + ") " + ex + ")"
}

func maxw(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}
func minw(a, b uint8) uint8 {
	if a < b {
		return a
	}
	return b
}

func (e *emitter) common(a, b *Term) uint8 {
	an, au := e.nat(a)
	bn, bu := e.nat(b)
	if au && bu {
		return maxw(an, bn)
	}
	return maxw(e.sb(a), e.sb(b))
}

// ---- queries ----

func (s *Solver) emit(t *Term) {
	var b strings.Builder
	e := emitter{gen: s.gen, buf: &b, ndef: &s.ndef}
	e.define(t)
	if b.Len() > 0 {
		s.put(b.String())
	}
	_ = e
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.put("(pop " + strconv.Itoa(n) + ")\n")
		s.stack = s.stack[:k]
	}
	e := emitter{}
	for ; k < len(pc); k++ {
		s.emit(pc[k])
		s.put("(push 1)\n(assert " + e.ref(pc[k]) + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

// Restart replaces the solver process by a new one.
func (s *Solver) Restart() {
	s.Close()
	s.start()
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"eof\")"
	}
	return strings.TrimSpace(l)
}

// Check decides pc /\ extra. On Sat it returns a model over vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term, tmoMS int) (Result, Model) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if s.ndef > 400000 {
		s.Close()
		s.start()
	}
	s.nq++
	s.sync(pc)
	if s.tmo != tmoMS {
		s.put("(set-option :timeout " + strconv.Itoa(tmoMS) + ")\n")
		s.tmo = tmoMS
	}
	e := emitter{}
	if extra != nil {
		s.emit(extra)
		s.put("(push 1)\n(assert " + e.ref(extra) + ")\n")
	}
	s.put("(check-sat)\n")
	s.in.Flush()
	// watchdog: z3's timeout is soft
	done := make(chan struct{})
	proc := s.cmd.Process
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(tmoMS)*time.Millisecond*2 + 3*time.Second):
			proc.Kill()
		}
	}()
	l := s.line()
	for l == "" {
		l = s.line()
	}
	var m Model
	res := Unknown
	switch {
	case l == "sat":
		res = Sat
		m = s.getModel(vars)
		if m == nil {
			res = Unknown
		}
	case l == "unsat":
		res = Unsat
	}
	close(done)
	if strings.HasPrefix(l, "(error") {
		if !strings.Contains(l, "eof") {
			fmt.Fprintf(os.Stderr, "solver error: %s\n", l)
		}
		s.Close()
		s.start()
		s.nunk++
		return Unknown, nil
	}
	if extra != nil {
		s.put("(pop 1)\n")
	}
	switch res {
	case Sat:
		s.nsat++
	case Unsat:
		s.nunsat++
	default:
		s.nunk++
	}
	return res, m
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	for i := 0; i < len(vars); i += 64 {
		j := i + 64
		if j > len(vars) {
			j = len(vars)
		}
		var b strings.Builder
		b.WriteString("(get-value (")
		cnt := 0
		for _, v := range vars[i:j] {
			if v.emGen != s.gen {
				continue // never mentioned to the solver: any value will do
			}
			fmt.Fprintf(&b, "v%d ", v.id)
			cnt++
		}
		b.WriteString("))\n")
		if cnt == 0 {
			continue
		}
		s.put(b.String())
		s.in.Flush()
		txt := s.sexp()
		if strings.HasPrefix(txt, "(error") {
			return nil
		}
		parseValues(txt, vars[i:j], m)
	}
	return m
}

func parseValues(txt string, vars []*Term, m Model) {
	byID := map[string]*Term{}
	for _, v := range vars {
		byID["v"+strconv.Itoa(int(v.id))] = v
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for k := 0; k+1 < len(f); k++ {
		v := byID[f[k]]
		if v == nil {
			continue
		}
		x := f[k+1]
		switch {
		case x == "true":
			m[v.name] = 1
		case x == "false":
			m[v.name] = 0
		case strings.HasPrefix(x, "#x"):
			u, _ := strconv.ParseUint(x[2:], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(x, "#b"):
			u, _ := strconv.ParseUint(x[2:], 2, 64)
			m[v.name] = u
		case x == "_" && k+2 < len(f) && strings.HasPrefix(f[k+2], "bv"):
			u, _ := strconv.ParseUint(f[k+2][2:], 10, 64)
			m[v.name] = u
		}
	}
}

func (s *Solver) sexp() string {
	var b bytes.Buffer
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error eof)"
		}
		b.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(b.String()) != "" {
			return b.String()
		}
	}
}

// Script writes a self-contained SMT-LIB2 query.
func Script(pc []*Term, extra *Term, vars []*Term, full, model bool) string {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	n := 0
	e := emitter{buf: &b, ndef: &n, seen: map[*Term]bool{}, full: full}
	all := append(append([]*Term{}, pc...), extra)
	for _, t := range all {
		if t != nil {
			e.define(t)
		}
	}
	for _, t := range all {
		if t != nil {
			b.WriteString("(assert " + e.ref(t) + ")\n")
		}
	}
	b.WriteString("(check-sat)\n")
	if model {
		b.WriteString("(get-value (")
		c := 0
		for _, v := range vars {
			if e.seen[v] {
				fmt.Fprintf(&b, "v%d ", v.id)
				c++
			}
		}
		b.WriteString("))\n")
		if c == 0 {
			str := b.String()
			return str[:strings.LastIndex(str, "(get-value")]
		}
	}
	return b.String()
}

var portSem = make(chan struct{}, 6)

// Portfolio runs a hard query through several independent one-shot solvers.
// A model is only taken from a solver if valid accepts it.
func Portfolio(pc []*Term, extra *Term, vars []*Term, timeout time.Duration, valid func(Model) bool) (Result, Model, string) {
	src := Script(pc, extra, vars, false, true)
	f, err := os.CreateTemp("", "q*.smt2")
	if err != nil {
		return Unknown, nil, ""
	}
	f.WriteString(src)
	f.Close()
	defer os.Remove(f.Name())
	if d := os.Getenv("VKEEP"); d != "" {
		os.WriteFile(d+"/"+filepath.Base(f.Name()), []byte(src), 0o644)
	}
	cmds := [][]string{
		{"z3-new", f.Name()},
		{"cvc5", "--produce-models", f.Name()},
		{"z3-new", "sat.cardinality.solver=false", "tactic.default_tactic=(then simplify propagate-values solve-eqs elim-uncnstr simplify bit-blast sat)", f.Name()},
		{"cvc5", "--produce-models", "--solve-bv-as-int=sum", f.Name()},
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r   Result
		m   Model
		who string
	}
	ch := make(chan ans, len(cmds))
	for i, c := range cmds {
		go func(i int, c []string) {
			portSem <- struct{}{}
			defer func() { <-portSem }()
			if ctx.Err() != nil {
				ch <- ans{}
				return
			}
			who := c[0]
			if i > 1 {
				who += " (variant)"
			}
			out, err := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			if ctx.Err() != nil && err != nil { // killed, perhaps while printing
				ch <- ans{}
				return
			}
			txt := string(out)
			switch {
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{Unsat, nil, who}
			case strings.HasPrefix(txt, "sat"):
				m := Model{}
				parseValues(txt, vars, m)
				ch <- ans{Sat, m, who}
			default:
				ch <- ans{}
			}
		}(i, c)
	}
	for range cmds {
		a := <-ch
		if a.r == Sat && valid != nil && !valid(a.m) {
			fmt.Fprintf(os.Stderr, "engine: a model of %s does not satisfy the query and is ignored\n", a.who)
			continue
		}
		if a.r != Unknown {
			return a.r, a.m, a.who
		}
	}
	return Unknown, nil, ""
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(2)
}
