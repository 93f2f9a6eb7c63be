package main

// SMT back end: persistent z3 processes, with cvc5 and one-shot z3 as fallbacks.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var (
	statQueries  int64
	statFast     int64
	statSolverNS int64
	statTimeouts int64
	dbgSlow      = os.Getenv("GOWP_SLOW") != ""
	dbgSMT       = os.Getenv("GOWP_SMT") != ""
)

type Solver struct {
	c        *Ctx
	native   bool // bvmul/bvudiv native rather than uninterpreted
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	defined  map[*Term]string
	declared map[string]bool
	skel     map[string]string
	log      strings.Builder
	dead     bool
	buf      strings.Builder
}

func NewSolver(c *Ctx, native bool) *Solver {
	s := &Solver{c: c, native: native, defined: map[*Term]string{}, declared: map[string]bool{}, skel: map[string]string{}}
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		return
	}
	s.cmd = exec.Command(z3bin, "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :print-success false)\n")
}

var z3bin = "z3-new"

func (s *Solver) Close() {
	if s.cmd != nil && !s.dead {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.dead = true
	}
}

func sortName(w Sort) string {
	switch w {
	case SBool:
		return "Bool"
	case SReal:
		return "Real"
	case SArr:
		return "Arr"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(w))
}

func bvlit(k uint64, w Sort) string { return fmt.Sprintf("(_ bv%d %d)", k, int(w)) }

func ratlit(r *big.Rat) string {
	if r.Sign() < 0 {
		return "(- " + ratlit(new(big.Rat).Neg(r)) + ")"
	}
	if r.IsInt() {
		return r.Num().String() + ".0"
	}
	return "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
}

func (s *Solver) decl(name string, args []*Term, res Sort) string {
	q := "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, name)
	for _, a := range args {
		q += "'" + strconv.Itoa(int(a.sort))
	}
	q += "|"
	if !s.declared[q] {
		s.declared[q] = true
		if !s.declared["Arr"] {
			s.declared["Arr"] = true
			s.buf.WriteString("(declare-sort Arr 0)\n")
		}
		s.buf.WriteString("(declare-fun " + q + " (")
		for i, a := range args {
			if i > 0 {
				s.buf.WriteByte(' ')
			}
			s.buf.WriteString(sortName(a.sort))
		}
		s.buf.WriteString(") " + sortName(res) + ")\n")
	}
	return q
}

func (s *Solver) app(name string, args []*Term, res Sort) string {
	var as []string
	for _, a := range args {
		as = append(as, s.def(a))
	}
	f := s.decl(name, args, res)
	if len(as) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(as, " ") + ")"
}

// def returns an SMT expression (a name or literal) for t.
func (s *Solver) def(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.k == 1 {
				return "true"
			}
			return "false"
		case SReal:
			return ratlit(t.rat)
		}
		return bvlit(t.k, t.sort)
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	var e string
	switch t.op {
	case OVar:
		e = s.decl(t.name, nil, t.sort)
		s.defined[t] = e
		return e
	case OBound:
		panic("free bound variable in SMT query")
	case OApp:
		if t.name == "bigmul" && s.native {
			e = "(bvmul " + s.def(t.args[0]) + " " + s.def(t.args[1]) + ")"
		} else {
			e = s.app(t.name, t.args, t.sort)
		}
	case OPoly:
		var parts []string
		for _, m := range t.mons {
			parts = append(parts, s.mon(m, t.sort))
		}
		op := "bvadd"
		if t.sort == SReal {
			op = "+"
		}
		e = parts[0]
		if len(parts) > 1 {
			if t.sort == SReal {
				e = "(" + op + " " + strings.Join(parts, " ") + ")"
			} else {
				for _, p := range parts[1:] {
					e = "(" + op + " " + e + " " + p + ")"
				}
			}
		}
	case OSum, OLam:
		var holes []*Term
		var sb strings.Builder
		s.skeleton(t, &sb, &holes, true)
		key := sb.String()
		nm, ok := s.skel[key]
		if !ok {
			nm = fmt.Sprintf("bind%d", len(s.skel))
			s.skel[key] = nm
		}
		e = s.app(nm, holes, t.sort)
	case OUdiv, OUrem, OSdiv, OSrem:
		if !s.native && !isConst(t.args[1]) {
			e = s.app("uf_"+opNames[t.op], t.args, t.sort)
		} else {
			e = "(" + opNames[t.op] + " " + s.def(t.args[0]) + " " + s.def(t.args[1]) + ")"
		}
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort-t.args[0].sort), s.def(t.args[0]))
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort-t.args[0].sort), s.def(t.args[0]))
	case OTrunc:
		e = fmt.Sprintf("((_ extract %d 0) %s)", int(t.sort)-1, s.def(t.args[0]))
	default:
		var as []string
		for _, a := range t.args {
			as = append(as, s.def(a))
		}
		e = "(" + opNames[t.op] + " " + strings.Join(as, " ") + ")"
	}
	n := "t" + strconv.Itoa(t.id)
	s.buf.WriteString("(define-fun " + n + " () " + sortName(t.sort) + " " + e + ")\n")
	s.defined[t] = n
	return n
}

func (s *Solver) mon(m Mon, w Sort) string {
	if len(m.atoms) == 0 {
		if w == SReal {
			return ratlit(m.r)
		}
		return bvlit(m.c, w)
	}
	e := s.def(m.atoms[0])
	for _, a := range m.atoms[1:] {
		if w == SReal {
			if s.native {
				e = "(* " + e + " " + s.def(a) + ")"
			} else {
				q := "|uf_rmul|"
				if !s.declared[q] {
					s.declared[q] = true
					s.buf.WriteString("(declare-fun |uf_rmul| (Real Real) Real)\n")
				}
				e = "(|uf_rmul| " + e + " " + s.def(a) + ")"
			}
		} else if s.native {
			e = "(bvmul " + e + " " + s.def(a) + ")"
		} else {
			q := fmt.Sprintf("|uf_mul%d|", int(w))
			if !s.declared[q] {
				s.declared[q] = true
				s.buf.WriteString(fmt.Sprintf("(declare-fun %s (%s %s) %s)\n", q, sortName(w), sortName(w), sortName(w)))
			}
			e = "(" + q + " " + e + " " + s.def(a) + ")"
		}
	}
	if w == SReal {
		if m.r.Cmp(big.NewRat(1, 1)) == 0 {
			return e
		}
		return "(* " + ratlit(m.r) + " " + e + ")"
	}
	if m.c == 1 {
		return e
	}
	if m.c == mask(w) {
		return "(bvneg " + e + ")"
	}
	if sh, ok := log2exact(m.c); ok {
		return "(bvshl " + e + " " + bvlit(uint64(sh), w) + ")"
	}
	return "(bvmul " + bvlit(m.c, w) + " " + e + ")"
}

// skeleton prints a binder term with holes for maximal closed subterms.
func (s *Solver) skeleton(t *Term, b *strings.Builder, holes *[]*Term, top bool) {
	if !top && len(s.c.freeBounds(t)) == 0 && t.op != OConst {
		b.WriteString("_" + strconv.Itoa(int(t.sort)))
		*holes = append(*holes, t)
		return
	}
	b.WriteByte('(')
	fmt.Fprintf(b, "%d/%d/%s/%d", t.op, t.sort, t.name, t.k)
	if t.rat != nil {
		b.WriteString(t.rat.RatString())
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		s.skeleton(a, b, holes, false)
	}
	for _, m := range t.mons {
		b.WriteByte('+')
		if m.r != nil {
			b.WriteString(m.r.RatString())
		} else {
			b.WriteString(strconv.FormatUint(m.c, 10))
		}
		for _, a := range m.atoms {
			b.WriteByte('*')
			s.skeleton(a, b, holes, false)
		}
	}
	b.WriteByte(')')
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// check asserts the given terms and checks satisfiability.
func (s *Solver) check(ts []*Term, timeoutMS int, wantModel []*Term) (Res, map[*Term]string) {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&statSolverNS, int64(time.Since(t0)))
		atomic.AddInt64(&statQueries, 1)
	}()
	if s.dead {
		return Unknown, nil
	}
	s.start()
	var names []string
	for _, t := range ts {
		names = append(names, s.def(t))
	}
	var mv []string
	for _, t := range wantModel {
		mv = append(mv, s.def(t))
	}
	var b strings.Builder
	b.WriteString(s.buf.String())
	s.log.WriteString(s.buf.String())
	s.buf.Reset()
	fmt.Fprintf(&b, "(set-option :timeout %d)\n(push)\n", timeoutMS)
	for _, n := range names {
		b.WriteString("(assert " + n + ")\n")
	}
	b.WriteString("(check-sat)\n")
	if dbgSMT {
		fmt.Fprintln(os.Stderr, b.String())
	}
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.dead = true
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		return Unknown, nil
	}
	if d := time.Since(t0); dbgSlow && d > 300*time.Millisecond {
		os.WriteFile(fmt.Sprintf("/tmp/slow_%d.smt2", time.Now().UnixNano()), []byte(s.log.String()+b.String()), 0o644)
		fmt.Fprintf(os.Stderr, "SLOW %v native=%v %s\n", d, s.native, line)
		for _, t := range ts {
			st := t.String()
			if len(st) > 600 {
				st = st[:600] + "..."
			}
			fmt.Fprintln(os.Stderr, "    ", st)
		}
	}
	r := Unknown
	switch line {
	case "unsat":
		r = Unsat
	case "sat":
		r = Sat
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "z3:", line)
			if os.Getenv("GOWP_SMTLOG") != "" {
				os.WriteFile("/tmp/gowp_smt_error.smt2", []byte(s.log.String()+b.String()), 0644)
			}
			s.dead = true
			return Unknown, nil
		}
		atomic.AddInt64(&statTimeouts, 1)
	}
	var model map[*Term]string
	if r == Sat && len(mv) > 0 {
		model = map[*Term]string{}
		for i, n := range mv {
			io.WriteString(s.in, "(get-value ("+n+"))\n")
			l, err := s.readSexp()
			if err != nil {
				break
			}
			model[wantModel[i]] = l
		}
	}
	io.WriteString(s.in, "(pop)\n")
	return r, model
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			if dbgSMT {
				fmt.Fprintln(os.Stderr, "=>", l)
			}
			return l, nil
		}
	}
}
func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		t := b.String()
		if strings.Count(t, "(") == strings.Count(t, ")") && strings.TrimSpace(t) != "" {
			return strings.TrimSpace(t), nil
		}
	}
}

// ---------- prover front end with relevance filtering and caching ----------

type Prover struct {
	c        *Ctx
	uf, nat  *Solver
	cache    map[string]Res
	schema   map[string]func(args []*Term) []*Term
	deadline time.Time
	hardMS   int
}

func NewProver(c *Ctx) *Prover {
	return &Prover{c: c, uf: NewSolver(c, false), nat: NewSolver(c, true), cache: map[string]Res{}, schema: map[string]func([]*Term) []*Term{}, hardMS: 4000}
}
func (p *Prover) Close() { p.uf.Close(); p.nat.Close() }

// divAxioms returns valid facts about division terms with non-constant divisors.
func (p *Prover) termAxioms(t *Term) []*Term {
	c := p.c
	var r []*Term
	switch t.op {
	case OUrem:
		a, b := t.args[0], t.args[1]
		nz := c.Not(c.Eq(b, c.zero(b.sort)))
		r = append(r, c.Implies(nz, c.Ult(t, b)), c.Implies(c.Ult(a, b), c.Eq(t, a)), c.Ule(t, a))
	case OUdiv:
		a, b := t.args[0], t.args[1]
		r = append(r, c.Implies(c.Ult(c.zero(b.sort), b), c.Ule(t, a)), c.Implies(c.Ult(a, b), c.Eq(t, c.zero(b.sort))))
	case OSrem:
		a, b := t.args[0], t.args[1]
		z := c.zero(b.sort)
		pos := c.Slt(z, b)
		r = append(r, c.Implies(pos, c.And(c.Slt(t, b), c.Slt(c.Neg(b), t))),
			c.Implies(c.And(pos, c.Sle(z, a)), c.Sle(z, t)),
			c.Implies(c.And(pos, c.Sle(a, z)), c.Sle(t, z)),
			c.Implies(c.And(pos, c.Sle(z, a), c.Slt(a, b)), c.Eq(t, a)),
			c.Implies(c.Slt(b, z), c.And(c.Slt(b, t), c.Implies(c.Slt(z, t), c.Slt(b, c.Neg(t))))),
			c.Implies(c.Slt(z, t), c.Slt(z, a)), c.Implies(c.Slt(t, z), c.Slt(a, z)),
			c.Implies(c.Eq(b, c.BV(b.sort, 1)), c.Eq(t, z)))
		if !isConst(b) { // the executor turns signed division of known signs into unsigned division
			r = append(r, c.Implies(c.And(pos, c.Sle(z, a)), c.Eq(t, c.Bin(OUrem, a, b))))
		}
	case OSdiv:
		a, b := t.args[0], t.args[1]
		z := c.zero(b.sort)
		if !isConst(b) {
			r = append(r, c.Implies(c.And(c.Slt(z, b), c.Sle(z, a)), c.Eq(t, c.Bin(OUdiv, a, b))))
		}
	case OApp:
		if f, ok := p.schema[t.name]; ok && len(p.c.freeBounds(t)) == 0 {
			r = append(r, f(t.args)...)
		}
	}
	if ax, ok := c.axioms[t]; ok {
		r = append(r, ax...)
	}
	if (t.op == OApp || t.op == OVar) && t.sort > 0 {
		if u, ok := c.ubound[t.name]; ok && u < mask(t.sort) {
			// built raw: Ule would fold it to true
			r = append(r, c.mk(&Term{op: OUle, sort: SBool, args: []*Term{t, c.BV(t.sort, u)}}))
		}
	}
	return r
}

func (p *Prover) closure(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	out := append([]*Term{}, ts...)
	outSet := map[*Term]bool{}
	for _, t := range out {
		outSet[t] = true
	}
	budget := 400
	for i := 0; i < len(out); i++ {
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if (t.op == OUrem || t.op == OUdiv || t.op == OSrem) && isConst(t.args[1]) {
			} else if t.op == OApp || t.op == OVar || t.op >= OUdiv && t.op <= OSrem || len(p.c.axioms[t]) > 0 {
				if len(p.c.freeBounds(t)) == 0 {
					for _, a := range p.termAxioms(t) {
						if a != p.c.T && !outSet[a] && budget > 0 {
							budget--
							outSet[a] = true
							out = append(out, a)
						}
					}
				}
			}
			for _, a := range t.children() {
				rec(a)
			}
		}
		rec(out[i])
	}
	return append(out, p.productLemmas(out)...)
}

// productLemmas states monotonicity of the products of two 64-bit atoms that
// occur in ts: for 0 <= a < b <= 2^31 and 0 <= v <= 2^31, a*v + v <= b*v <= 2^62
// (index arithmetic of blocks of v elements), which is costly to bit-blast.
func (p *Prover) productLemmas(ts []*Term) []*Term {
	c := p.c
	type prod struct{ a, v *Term }
	var prods []prod // both orders
	var divs []*Term
	coef := map[*Term]map[uint64]bool{}
	seen := map[*Term]bool{}
	have := map[[2]*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op == OSum || t.op == OLam {
			return
		}
		seen[t] = true
		if t.op == OUdiv && t.sort == 64 && len(c.freeBounds(t)) == 0 {
			divs = append(divs, t)
		}
		if t.op == OPoly && t.sort == 64 && len(c.freeBounds(t)) == 0 {
			for _, m := range t.mons {
				switch len(m.atoms) {
				case 1:
					if coef[m.atoms[0]] == nil {
						coef[m.atoms[0]] = map[uint64]bool{}
					}
					if m.c <= 16 {
						coef[m.atoms[0]][m.c] = true
					}
				case 2:
					a, b := m.atoms[0], m.atoms[1]
					if a != b && a.sort == 64 && b.sort == 64 && !have[[2]*Term{a, b}] {
						have[[2]*Term{a, b}], have[[2]*Term{b, a}] = true, true
						prods = append(prods, prod{a, b}, prod{b, a})
					}
				}
			}
		}
		for _, a := range t.children() {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	if len(prods) == 0 || len(prods) > 40 {
		return nil
	}
	var r []*Term
	lim := c.Int(1 << 31)
	in := func(t *Term) *Term { return c.And(c.Sle(c.Int(0), t), c.Sle(t, lim)) }
	for _, x := range prods {
		// a block index x/v is below a when x < a*v (even if a*v wraps), and only then (if it does not)
		for _, d := range divs {
			if d.args[1] == x.v && len(divs) <= 40 {
				nz, less := c.Not(c.Eq(x.v, c.Int(0))), c.Ult(d.args[0], c.Mul(x.a, x.v))
				r = append(r, c.Implies(c.And(nz, less), c.Ult(d, x.a)), c.Implies(c.And(nz, in(x.a), in(x.v), c.Ult(d, x.a)), less))
			}
		}
	}
	for _, x := range prods {
		xv := c.Mul(x.a, x.v)
		ok := c.And(in(x.a), in(x.v))
		for _, y := range prods {
			if y.v != x.v || y.a == x.a {
				continue
			}
			yv := c.Mul(y.a, y.v)
			r = append(r, c.Implies(c.And(ok, in(y.a), c.Slt(y.a, x.a)), c.And(c.Ule(c.Add(yv, x.v), xv), c.Sle(c.Add(yv, x.v), xv))))
		}
		var cs []uint64
		for k := range coef[x.v] {
			cs = append(cs, k)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
		for _, k := range cs {
			r = append(r, c.Implies(c.And(ok, c.Sle(c.Int(int64(k)), x.a)), c.And(c.Ule(c.Mul(c.Int(int64(k)), x.v), xv), c.Sle(c.Mul(c.Int(int64(k)), x.v), xv))))
		}
		if x.a.id < x.v.id {
			r = append(r, c.Implies(ok, c.And(c.Sle(c.Int(0), xv), c.Sle(xv, c.Int(1<<62)))))
		}
	}
	return r
}

// relevant filters facts by variable connectivity to the goal.
func (p *Prover) relevant(facts []*Term, goal *Term) []*Term {
	if isConst(goal) { // contradiction among the facts
		return facts
	}
	syms := map[string]bool{}
	var collect func(t *Term, m map[string]bool, seen map[*Term]bool)
	collect = func(t *Term, m map[string]bool, seen map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OApp {
			m[t.name] = true
		}
		for _, a := range p.c.axioms[t] {
			collect(a, m, seen)
		}
		for _, a := range t.children() {
			collect(a, m, seen)
		}
	}
	collect(goal, syms, map[*Term]bool{})
	fs := make([]map[string]bool, len(facts))
	for i, f := range facts {
		fs[i] = map[string]bool{}
		collect(f, fs[i], map[*Term]bool{})
	}
	used := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i := range facts {
			if used[i] {
				continue
			}
			hit := len(fs[i]) == 0
			for s := range fs[i] {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for s := range fs[i] {
					syms[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if used[i] {
			out = append(out, f)
		}
	}
	return out
}

// Prove reports whether facts entail goal.
func (p *Prover) Prove(facts []*Term, goal *Term) bool {
	return p.prove(facts, goal, 1500, false)
}

func (p *Prover) ProveHard(facts []*Term, goal *Term) bool {
	return p.prove(facts, goal, p.hardMS, true)
}

// ProveGoal splits the goal along its structure before querying the solver.
func (p *Prover) ProveGoal(facts []*Term, goal *Term) bool {
	fuel := 400
	if p.split(facts, goal, 0, &fuel) {
		return true
	}
	if g := p.peel(facts, goal); g != goal {
		fuel = 400
		if p.split(facts, g, 0, &fuel) {
			return true
		}
		if os.Getenv("GOWP_PEEL") != "" {
			fmt.Fprintln(os.Stderr, "peeled:", g)
		}
	}
	return false
}

// peel extends sums over n-1 terms, n at least 1, to sums over n terms: sums whose first or last term
// was added on its own get the form of the sum over all of them.
func (p *Prover) peel(facts []*Term, goal *Term) *Term {
	c := p.c
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := c.rebuild(t, rec)
		if r.op == OSum && r.args[0].op == OPoly && len(c.freeBounds(r.args[0])) == 0 {
			n := r.args[0]
			for _, m := range n.mons {
				if d := int64(m.c); len(m.atoms) == 0 && d >= -2 && d <= 4 {
					// count n+d: rewrite to the count n
					n1 := c.Sub(n, c.BV(64, m.c))
					v := c.Fresh("pl", 64)
					b := c.Subst(r.args[1], Subst{c.boundVar(int(r.k)): v})
					at := func(k int64) *Term { return c.Subst(b, Subst{v: c.Int(k)}) }
					if !p.Prove(facts, c.And(c.Ule(n1, c.BV(64, 1<<62)), c.Ule(n, c.BV(64, 1<<62)))) {
						break
					}
					r = c.Sum(v, n1, c.Subst(b, Subst{v: c.Add(v, c.Int(d))}))
					for k := int64(0); k < d; k++ {
						r = c.Add(r, at(k))
					}
					for k := d; k < 0; k++ {
						r = c.Sub(r, at(k-d+d))
					}
					break
				}
			}
		}
		if (r.op == OSum || r.op == OLam) && len(c.freeBounds(r)) == 0 {
			// conditions that the range of the bound variable decides
			v := c.Fresh("pl", 64)
			b := c.Subst(r.args[1], Subst{c.boundVar(int(r.k)): v})
			fs := append(append([]*Term{}, facts...), c.Ult(v, r.args[0]))
			b0 := b
			tried := map[*Term]bool{}
			for n := 0; n < 8; n++ {
				q := c.closedIte(b, tried)
				if q == nil {
					break
				}
				tried[q] = true
				if nq := c.Not(q); p.prove(fs, q, 500, false) {
					b = c.under(b, q)
				} else if p.prove(fs, nq, 500, false) {
					b = c.under(b, nq)
				}
			}
			if b != b0 {
				if r.op == OSum {
					r = c.Sum(v, r.args[0], b)
				} else {
					r = c.Lam(v, r.args[0], b)
				}
			}
		}
		if r.op == OLam {
			v := c.Fresh("pl", 64)
			b := c.Subst(r.args[1], Subst{c.boundVar(int(r.k)): v})
			if b2 := c.liftIte(b, 6); b2 != b {
				r = c.Lam(v, r.args[0], b2)
			}
		}
		memo[t] = r
		return r
	}
	return rec(goal)
}

// liftIte moves the conditionals among the summands of a polynomial outwards.
func (c *Ctx) liftIte(t *Term, depth int) *Term {
	if t.op == OIte {
		a, b := c.liftIte(t.args[1], depth-1), c.liftIte(t.args[2], depth-1)
		return c.Ite(t.args[0], a, b)
	}
	if t.op != OPoly || depth <= 0 {
		return t
	}
	var q *Term
	for _, m := range t.mons {
		for _, a := range m.atoms {
			if a.op == OIte && (q == nil || a.args[0].id < q.id) {
				q = a.args[0]
			}
		}
	}
	if q == nil {
		return t
	}
	return c.Ite(q, c.liftIte(c.under(t, q), depth-1), c.liftIte(c.under(t, c.Not(q)), depth-1))
}

func (p *Prover) split(facts []*Term, goal *Term, depth int, fuel *int) bool {
	c := p.c
	if goal == c.T {
		return true
	}
	for _, f := range facts {
		if f == c.F || f == goal {
			return true
		}
	}
	*fuel--
	if *fuel < 0 {
		return false
	}
	leaf := func() bool {
		if p.Prove(facts, goal) {
			return true
		}
		if g := p.generalise(goal); g != goal && p.Prove(facts, g) {
			return true
		}
		if p.ProveHard(facts, goal) {
			return true
		}
		if os.Getenv("GOWP_LEAF") != "" {
			fmt.Fprintln(os.Stderr, "leaf:", goal)
			for _, f := range facts {
				fmt.Fprintln(os.Stderr, "   fact", f)
			}
		}
		return false
	}
	with := func(f *Term) []*Term { return append(append([]*Term{}, facts...), f) }
	switch goal.op {
	case OAnd:
		for _, g := range goal.args {
			if !p.split(facts, g, depth+1, fuel) {
				return false
			}
		}
		return true
	case ONot:
		if g := goal.args[0]; g.op == OOr && len(g.args) > 1 {
			for _, a := range g.args {
				if !p.split(facts, c.Not(a), depth+1, fuel) {
					return false
				}
			}
			return true
		}
	case OOr:
		// try the disjuncts on their own first
		if len(goal.args) > 3 {
			if p.prove(facts, goal, 300, false) {
				return true
			}
			for _, a := range goal.args {
				if a.op == OAnd {
					ok := true
					for _, b := range a.args {
						if !p.prove(facts, b, 300, false) {
							ok = false
							break
						}
					}
					if ok {
						return true
					}
				} else if p.prove(facts, a, 300, false) {
					return true
				}
			}
		}
		// an equation, under the negation of the other disjuncts
		if p.Prove(facts, goal) {
			return true
		}
		for i, a := range goal.args {
			if a.op != OEq || a.args[0].sort == SBool {
				continue
			}
			fs, g := append([]*Term{}, facts...), a
			for j, b := range goal.args {
				if j != i {
					nb := c.Not(b)
					fs = append(fs, nb)
					g = c.under(g, nb)
				}
			}
			return p.split(fs, g, depth+1, fuel)
		}
	case OEq:
		a, b := goal.args[0], goal.args[1]
		if a.sort == SBool {
			return leaf()
		}
		if a.op == OIte && b.op == OIte && a.args[1] == b.args[1] && a.args[2] == b.args[2] {
			if p.Prove(facts, c.Eq(a.args[0], b.args[0])) || p.ProveHard(facts, c.Eq(a.args[0], b.args[0])) {
				return true
			}
		}
		if a.op == OIte && b.op == OIte && a.args[1] == b.args[2] && a.args[2] == b.args[1] {
			if p.Prove(facts, c.Eq(a.args[0], c.Not(b.args[0]))) {
				return true
			}
		}
		if depth < 24 {
			if q := firstIte(goal); q != nil {
				nq := c.Not(q)
				if (p.split(with(q), c.assuming(goal, q), depth+1, fuel) || p.Prove(facts, nq)) && (p.split(with(nq), c.under(goal, nq), depth+1, fuel) || p.Prove(facts, q)) {
					return true
				}
				return false
			}
			// conditions inside sums and lams that do not depend on their variables
			if q := c.closedIte(goal, nil); q != nil {
				if p.Prove(facts, goal) {
					return true
				}
				nq := c.Not(q)
				return (p.split(with(q), c.assuming(goal, q), depth+1, fuel) || p.Prove(facts, nq)) && (p.split(with(nq), c.under(goal, nq), depth+1, fuel) || p.Prove(facts, q))
			}
		}
	}
	return leaf()
}

// assuming is under, with the variable of an equation with a constant replaced.
func (c *Ctx) assuming(t, q *Term) *Term {
	t = c.under(t, q)
	if q.op == OEq {
		for i, v := range q.args {
			if w := q.args[1-i]; v.op == OVar && w.op == OConst {
				return c.Subst(t, Subst{v: w})
			}
		}
	}
	return t
}

// closedIte finds a closed condition of a conditional, one not in but, also inside sums and lams.
func (c *Ctx) closedIte(t *Term, but map[*Term]bool) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.op == OIte && !but[t.args[0]] && len(c.freeBounds(t.args[0])) == 0 {
			return t.args[0]
		}
		for _, a := range t.children() {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

// generalise replaces shared bit-vector conditionals of the goal by fresh
// constants: a stronger goal, and often a simpler one.
func (p *Prover) generalise(goal *Term) *Term {
	c := p.c
	parents := map[*Term]int{}
	var ites []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte && t.sort > 0 && len(c.freeBounds(t)) == 0 {
			ites = append(ites, t)
			return
		}
		for _, a := range t.children() {
			parents[a]++
			rec(a)
		}
	}
	rec(goal)
	sub := Subst{}
	for _, t := range ites {
		if parents[t] > 1 {
			sub[t] = c.Fresh("gen", t.sort)
		}
	}
	if len(sub) == 0 {
		return goal
	}
	return c.Subst(goal, sub)
}

// firstIte finds the condition of an outermost if-then-else.
func firstIte(t *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OIte {
			return t.args[0]
		}
		if t.op == OSum || t.op == OLam || t.sort == SBool && t.op != OEq || seen[t] {
			return nil
		}
		seen[t] = true
		for _, a := range t.children() {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

func (p *Prover) prove(facts []*Term, goal *Term, ms int, hard bool) bool {
	c := p.c
	if goal == c.T {
		return true
	}
	for _, f := range facts {
		if f == c.F {
			return true
		}
		if f == goal {
			atomic.AddInt64(&statFast, 1)
			return true
		}
	}
	if goal == c.F && len(facts) == 0 {
		return false
	}
	ng := c.Not(goal)
	rel := p.relevant(facts, goal)
	ts := append(append([]*Term{}, rel...), ng)
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if hard {
		key += "H"
	}
	if r, ok := p.cache[key]; ok {
		return r == Unsat
	}
	all := p.closure(ts)
	long := ms
	if hard {
		long = 3 * ms
	}
	run := func(s *Solver) Res {
		short := 300
		if hard {
			short = 50 // already tried
		}
		r, _ := s.check(all, short, nil)
		if r == Unknown {
			r = p.oneShot(s.native, all, long)
		}
		return r
	}
	r := run(p.uf)
	if r != Unsat && p.needNative(all) {
		r2 := run(p.nat)
		if r2 == Unsat {
			r = Unsat
		} else if r == Unknown || r2 == Unknown {
			r = Unknown
		}
	}
	p.cache[key] = r
	return r == Unsat
}

func (p *Prover) needNative(ts []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OUdiv || t.op == OUrem || t.op == OSdiv || t.op == OSrem {
			if !isConst(t.args[1]) {
				return true
			}
		}
		if t.op == OSum || t.op == OLam {
			return false
		}
		for _, m := range t.mons {
			if len(m.atoms) > 1 {
				return true
			}
		}
		for _, a := range t.children() {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

// oneShot runs fresh solver processes in parallel (z3 with its default
// strategy and cvc5).
func (p *Prover) oneShot(native bool, ts []*Term, ms int) Res {
	s := NewSolver(p.c, native)
	var names []string
	for _, t := range ts {
		names = append(names, s.def(t))
	}
	body := s.buf.String()
	for _, n := range names {
		body += "(assert " + n + ")\n"
	}
	body += "(check-sat)\n"
	logic := "(set-logic ALL)\n"
	if !strings.Contains(body, "Real") {
		logic = "(set-logic QF_UFBV)\n"
	}
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&statSolverNS, int64(time.Since(t0)))
		atomic.AddInt64(&statQueries, 1)
	}()
	ch := make(chan Res, 2)
	cmds := []*exec.Cmd{
		exec.Command(z3bin, "-in", "-smt2", fmt.Sprintf("-t:%d", ms)),
		exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)),
	}
	for i, cmd := range cmds {
		txt := body
		if i == 1 {
			txt = logic + body
		}
		cmd.Stdin = strings.NewReader(txt)
		go func(cmd *exec.Cmd) {
			o, _ := cmd.Output()
			a := strings.TrimSpace(string(o))
			switch {
			case strings.HasPrefix(a, "unsat"):
				ch <- Unsat
			case strings.HasPrefix(a, "sat"):
				ch <- Sat
			default:
				ch <- Unknown
			}
		}(cmd)
	}
	r := Unknown
	for range cmds {
		if q := <-ch; q != Unknown {
			r = q
			break
		}
	}
	for _, cm := range cmds {
		if cm.Process != nil {
			cm.Process.Kill()
		}
	}
	if dbgSlow {
		fmt.Fprintf(os.Stderr, "ONESHOT %v native=%v %v\n", time.Since(t0), native, r)
	}
	return r
}

// Model returns a model of facts ∧ ¬goal for the given terms, if satisfiable.
func (p *Prover) Model(facts []*Term, goal *Term, want []*Term) map[*Term]string {
	ts := append(append([]*Term{}, p.relevant(facts, goal)...), p.c.Not(goal))
	all := p.closure(ts)
	_, m := p.nat.check(all, 3000, want)
	return m
}
