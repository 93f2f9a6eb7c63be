package main

// Symbolic values and the layered memory.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Cplx struct{ re, im *Term }

// Addr is a location class (a path from a root with index markers) together
// with the index terms for the markers.
type Addr struct {
	lc  string
	idx []*Term
}

type Ptr struct {
	null bool
	a    Addr
	typ  types.Type // pointee type
	view bool       // pointer to an array that overlays the elements starting at a (last index is the element index)
	hi   *Term      // for element pointers: exclusive bound for the last index (cap of the slice they came from)
	boff *Term      // byte offset within an element (must be 0 to access)
}

type Slice struct {
	lc   string
	idx  []*Term
	off  *Term
	len  *Term
	cap  *Term
	nil_ *Term
	elem types.Type
}

func (s Slice) elemAddr(c *Ctx, i *Term) Addr {
	ix := make([]*Term, len(s.idx)+1)
	copy(ix, s.idx)
	ix[len(s.idx)] = c.Add(s.off, i)
	return Addr{s.lc + "[]", ix}
}

type Struct struct {
	typ types.Type
	fs  []Value
}
type ArrV struct {
	typ types.Type
	els []Value
}
type Tuple []Value
type Iface struct {
	typ types.Type // dynamic type; nil means the nil interface when nul
	val Value
}
type Closure struct {
	fn    *ssa.Function
	binds []Value
}
type Opaque struct {
	name string
	idx  []*Term
	typ  types.Type
}
type Choice struct {
	c    *Term
	a, b Value
}
type Str string

type BVar struct{ v, n *Term } // n nil: unconstrained

type Layer struct {
	parent *Layer
	vars   []BVar
	guard  *Term
	idx    []*Term
	val    Value
	n      int
}

type Fact struct {
	parent *Fact
	t      *Term
	branch bool
	n      int
}

type State struct {
	mem   map[string]*Layer
	facts *Fact
	ghost [nGhost]*Term // stream bookkeeping, nil until a stream is used
}

// ghost variables of the stream model
const (
	gPos    = iota // bytes accepted or delivered so far
	gCnt           // calls of Write or ReadFull so far
	gFailed        // a call has failed
	nGhost
)

func (x *Exec) ghosts(st *State) [nGhost]*Term {
	g := st.ghost
	for i := range g {
		if g[i] == nil {
			g[i] = x.c.Int(0)
			if i == gFailed {
				g[i] = x.c.F
			}
		}
	}
	return g
}

func (s *State) clone() *State {
	m := make(map[string]*Layer, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{m, s.facts, s.ghost}
}
func (s *State) assume(t *Term, branch bool) {
	if t.op == OConst && t.k == 1 {
		return
	}
	n := 0
	if s.facts != nil {
		n = s.facts.n
	}
	s.facts = &Fact{s.facts, t, branch, n + 1}
}
func (s *State) factList() []*Term {
	var r []*Term
	for f := s.facts; f != nil; f = f.parent {
		if f.t.op == OAnd {
			r = append(r, f.t.args...)
		} else {
			r = append(r, f.t)
		}
	}
	return r
}

// guardSince returns the conjunction of branch facts added after base.
func guardSince(c *Ctx, s *State, base *Fact) *Term {
	g := []*Term{}
	for f := s.facts; f != base && f != nil; f = f.parent {
		if f.branch {
			g = append(g, f.t)
		}
	}
	return c.And(g...)
}

type unsupported struct{ msg string }

func bail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func rootOf(lc string) string {
	i := strings.IndexAny(lc, ".*[^")
	if i < 0 {
		return lc
	}
	return lc[:i]
}

func under(t types.Type) types.Type { return t.Underlying() }

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var stdSizes = types.SizesFor("gc", "amd64")

func widthOf(t types.Type) Sort {
	b, ok := under(t).(*types.Basic)
	if !ok {
		bail("width of %s", t)
	}
	switch b.Kind() {
	case types.UntypedInt, types.UntypedRune:
		return 64
	case types.UntypedFloat:
		return SReal
	case types.UntypedBool, types.Bool:
		return SBool
	}
	if b.Info()&types.IsFloat != 0 {
		return SReal
	}
	return Sort(stdSizes.Sizeof(b) * 8)
}

func (x *Exec) zeroValue(t types.Type) Value {
	c := x.c
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsComplex != 0:
			return Cplx{c.RealInt(0), c.RealInt(0)}
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Kind() == types.UnsafePointer:
			return Ptr{null: true, typ: t}
		}
		return c.zero(widthOf(t))
	case *types.Slice:
		return Slice{lc: "nil", off: c.Int(0), len: c.Int(0), cap: c.Int(0), nil_: c.T, elem: u.Elem()}
	case *types.Pointer:
		return Ptr{null: true, typ: u.Elem()}
	case *types.Struct:
		s := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, x.zeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			a.els = append(a.els, x.zeroValue(u.Elem()))
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Map, *types.Chan, *types.Signature:
		return Opaque{name: "nil", typ: t}
	}
	bail("zero value of %s", t)
	return nil
}

// symbolic initial content at a location
func (x *Exec) initValue(lc string, idx []*Term, t types.Type) Value {
	c := x.c
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsComplex != 0:
			return Cplx{c.App(lc+".re", SReal, idx...), c.App(lc+".im", SReal, idx...)}
		case u.Info()&types.IsString != 0, u.Kind() == types.UnsafePointer:
			return Opaque{lc, idx, t}
		}
		if f, ok := x.shapes[lc]; ok {
			return f(idx)
		}
		return c.App(lc, widthOf(t), idx...)
	case *types.Slice:
		var ln *Term
		if f, ok := x.shapes[lc]; ok {
			ln = f(idx)
		} else {
			c.ubound[lc+"#len"] = 1 << 40
			ln = c.App(lc+"#len", 64, idx...)
		}
		var cp *Term
		if x.capIsLen {
			cp = ln
		} else {
			c.ubound[lc+"#cap"] = 1 << 41
			cp = c.App(lc+"#cap", 64, idx...)
			ax, have := c.Ule(ln, cp), false
			for _, a := range c.axioms[cp] {
				have = have || a == ax
			}
			if !have { // a length given by a shape clause may come after the first use
				c.axioms[cp] = append(c.axioms[cp], ax)
			}
		}
		nl := c.App(lc+"#nil", SBool, idx...)
		if _, ok := c.axioms[nl]; !ok {
			c.axioms[nl] = []*Term{c.Implies(nl, c.And(c.Eq(ln, c.Int(0)), c.Eq(cp, c.Int(0))))}
		}
		return Slice{lc: lc + "*", idx: idx, off: c.Int(0), len: ln, cap: cp, nil_: nl, elem: u.Elem()}
	case *types.Pointer:
		return Ptr{a: Addr{lc + "^", idx}, typ: u.Elem()}
	case *types.Struct:
		s := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, x.initValue(lc+"."+u.Field(i).Name(), idx, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			a.els = append(a.els, x.initValue(lc+"[]", append(append([]*Term{}, idx...), c.Int(i)), u.Elem()))
		}
		return a
	default:
		return Opaque{lc, idx, t}
	}
}

func (x *Exec) isZeroRoot(lc string) bool {
	return x.zeroRoots[rootOf(lc)]
}

func appendIdx(idx []*Term, i *Term) []*Term {
	r := make([]*Term, len(idx)+1)
	copy(r, idx)
	r[len(idx)] = i
	return r
}

// load reads a value of type t at address a.
func (x *Exec) load(st *State, a Addr, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		s := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, x.load(st, Addr{a.lc + "." + u.Field(i).Name(), a.idx}, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			if x.skipBig && !hasRefs(u.Elem(), 0) {
				return &ArrV{typ: t}
			}
			bail("load of array of length %d", u.Len())
		}
		r := &ArrV{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			r.els = append(r.els, x.load(st, Addr{a.lc + "[]", appendIdx(a.idx, x.c.Int(i))}, u.Elem()))
		}
		return r
	}
	return x.read(st, st.mem[a.lc], a, t)
}

// loadView reads an array through a view pointer.
func (x *Exec) loadView(st *State, a Addr, u *types.Array, t types.Type) Value {
	r := &ArrV{typ: t}
	for i := int64(0); i < u.Len(); i++ {
		r.els = append(r.els, x.load(st, x.viewElem(a, x.c.Int(i)), u.Elem()))
	}
	return r
}
func (x *Exec) viewElem(a Addr, i *Term) Addr {
	ix := append([]*Term{}, a.idx...)
	ix[len(ix)-1] = x.c.Add(ix[len(ix)-1], i)
	return Addr{a.lc, ix}
}

type readRec struct {
	lc    string
	idx   []*Term
	facts []*Term // path facts at the time, beyond those of the loop entry
	miss  *Term   // condition under which the read reached the snapshot
}

// read walks the layers of a leaf location.
func (x *Exec) read(st *State, l *Layer, a Addr, t types.Type) Value {
	return x.readFrom(st, l, a, t, x.c.T)
}

func (x *Exec) readFrom(st *State, l *Layer, a Addr, t types.Type, miss *Term) Value {
	c := x.c
	for {
		for i := len(x.ctxs) - 1; i >= 0; i-- {
			cx := x.ctxs[i]
			if cx.off {
				continue
			}
			if l == cx.snap[a.lc] {
				cx.record(x, st, a, miss)
				if cx.havoc[a.lc] {
					return x.initValue(cx.hname(a.lc), a.idx, t)
				}
			}
		}
		if l == nil {
			if x.isZeroRoot(a.lc) {
				return x.zeroValue(t)
			}
			return x.initValue(a.lc, a.idx, t)
		}
		x.solveSt, x.solveMiss = st, miss
		cond, sub, rules := x.solve(l, a.idx)
		x.solveSt, x.solveMiss = nil, nil
		if cond == c.T {
			return x.substRules(l.val, sub, rules)
		}
		if cond == c.F {
			l = l.parent
			continue
		}
		switch x.decideUnder(st, miss, cond) {
		case 1:
			return x.substRules(l.val, sub, rules)
		case -1:
			l = l.parent
			continue
		}
		hit := x.substRules(l.val, sub, rules)
		rest := x.readFrom(st, l.parent, a, t, c.And(miss, c.Not(cond)))
		return x.iteValue(cond, hit, rest)
	}
}

// decideUnder: 1 proven, -1 refuted, 0 unknown
func (x *Exec) decideUnder(st *State, extra, cond *Term) int {
	if cond == x.c.T {
		return 1
	}
	if cond == x.c.F {
		return -1
	}
	fs := st.factList()
	if extra != x.c.T {
		fs = append(fs, extra)
	}
	nc := x.c.Not(cond)
	for _, f := range fs {
		if f == cond {
			return 1
		}
		if f == nc {
			return -1
		}
	}
	if x.p.Prove(fs, cond) {
		return 1
	}
	if x.p.Prove(fs, nc) {
		return -1
	}
	return 0
}

func (x *Exec) decide(st *State, cond *Term) int { return x.decideUnder(st, x.c.T, cond) }

// solve finds the bound variables of a layer for which its index equals r.
func (x *Exec) solve(l *Layer, r []*Term) (*Term, Subst, []quotRule) {
	cond, sub, rules, ok := x.trySolve(l, r)
	if !ok {
		bail("cannot invert the index of a loop write: %v at %v", l.idx, r)
	}
	return cond, sub, rules
}

func (x *Exec) trySolve(l *Layer, r []*Term) (*Term, Subst, []quotRule, bool) {
	var rules []quotRule
	c := x.c
	if len(l.idx) != len(r) {
		bail("index arity mismatch %v %v", l.idx, r)
	}
	if len(l.vars) == 0 {
		cs := []*Term{l.guard}
		for i := range r {
			e := c.Eq(l.idx[i], r[i])
			if e == c.F {
				return c.F, nil, nil, true
			}
			cs = append(cs, e)
		}
		return c.And(cs...), nil, nil, true
	}
	sub := Subst{}
	unsolved := map[*Term]bool{}
	for _, v := range l.vars {
		unsolved[v.v] = true
	}
	eqs := make([]*Term, len(r)) // idx_i, to be equated with r_i
	copy(eqs, l.idx)
	var conds []*Term
	done := make([]bool, len(r))
	hasUnsolved := func(t *Term) int {
		n := 0
		for v := range unsolved {
			if c.occurs(v, t) {
				n++
			}
		}
		return n
	}
	bind := func(v, t *Term) {
		sub[v] = t
		delete(unsolved, v)
		for j := range eqs {
			eqs[j] = c.Subst(eqs[j], Subst{v: t})
		}
	}
	for progress := true; progress && len(unsolved) > 0; {
		progress = false
		for i := range eqs {
			if done[i] || hasUnsolved(eqs[i]) != 1 {
				continue
			}
			for _, bv := range l.vars {
				v := bv.v
				if !unsolved[v] || !c.occurs(v, eqs[i]) {
					continue
				}
				coef, rest, ok := c.linIn(eqs[i], v)
				if !ok || coef == 0 {
					continue
				}
				d := c.Sub(r[i], rest)
				var val *Term
				neg := int64(coef) < 0
				ac := coef
				if neg {
					ac = -coef
					d = c.Neg(d)
				}
				if ac == 1 {
					val = d
				} else if s, ok := log2exact(ac); ok {
					val = c.Bin(OLshr, d, c.Int(int64(s)))
					conds = append(conds, c.Eq(c.Bin(OBand, d, c.Int(int64(ac-1))), c.Int(0)))
				} else {
					val = c.Bin(OUdiv, d, c.Int(int64(ac)))
					conds = append(conds, c.Eq(c.Bin(OUrem, d, c.Int(int64(ac))), c.Int(0)))
				}
				if ac != 1 && (val.op == OLshr || val.op == OUdiv) {
					rules = append(rules, quotRule{val, d, ac})
				}
				bind(v, val)
				done[i] = true
				progress = true
				break
			}
		}
		if progress {
			continue
		}
		// mixed radix: c1*v1 + c2*v2 + ... + d with range(v2)*c2 <= c1, constants
		for i := range eqs {
			if done[i] || hasUnsolved(eqs[i]) < 2 {
				continue
			}
			rest := eqs[i]
			type cv struct {
				v BVar
				k uint64
			}
			var cvs []cv
			ok := true
			for _, bv := range l.vars {
				if !unsolved[bv.v] || !c.occurs(bv.v, rest) {
					continue
				}
				k, rs, o := c.linIn(rest, bv.v)
				if !o || int64(k) <= 0 {
					ok = false
					break
				}
				cvs = append(cvs, cv{bv, k})
				rest = rs
			}
			if !ok {
				continue
			}
			// sort by coefficient descending
			for a := range cvs {
				for b := a + 1; b < len(cvs); b++ {
					if cvs[b].k > cvs[a].k {
						cvs[a], cvs[b] = cvs[b], cvs[a]
					}
				}
			}
			for a := 0; a+1 < len(cvs); a++ {
				n := cvs[a+1].v.n
				if n == nil {
					ok = false
					break
				}
				var span uint64
				if isConst(n) {
					span = n.k * cvs[a+1].k
				} else if c.closed(n, l.vars) && cvs[a+1].k == 1 && x.p.Prove(x.entry, c.Ule(n, c.BV(64, cvs[a].k))) {
					span = cvs[a].k
				} else {
					ok = false
					break
				}
				if span > cvs[a].k {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			d := c.Sub(r[i], rest)
			for _, q := range cvs {
				qt := c.Bin(OUdiv, d, c.BV(64, q.k))
				rm := c.Bin(OUrem, d, c.BV(64, q.k))
				if q.k != 1 && (qt.op == OLshr || qt.op == OUdiv) {
					rules = append(rules, quotRule{qt, c.Sub(d, rm), q.k})
				}
				bind(q.v.v, qt)
				d = rm
			}
			conds = append(conds, c.Eq(d, c.Int(0)))
			done[i] = true
			progress = true
			break
		}
	}
	if len(unsolved) == 2 {
		// n*v1 + v2 + rest with v2 < n, n not constant
		for i := range eqs {
			if done[i] || hasUnsolved(eqs[i]) != 2 {
				continue
			}
			for _, b1 := range l.vars {
				for _, b2 := range l.vars {
					if b1.v == b2.v || !unsolved[b1.v] || !unsolved[b2.v] || b1.n == nil || b2.n == nil {
						continue
					}
					n := b2.n
					c2, rest, ok := c.linIn(eqs[i], b2.v)
					if !ok || c2 != 1 || n.op != OVar && n.op != OApp || !c.closed(n, l.vars) || !c.closed(b1.n, l.vars) {
						continue
					}
					c1, rest, ok := c.linInSym(rest, b1.v)
					if !ok || c1 != n {
						continue
					}
					lim := c.Int(1 << 31)
					if !x.p.Prove(x.entry, c.And(c.Ule(n, lim), c.Ule(b1.n, lim))) {
						continue
					}
					d := c.Sub(r[i], rest)
					v1, v2 := c.Bin(OUdiv, d, n), c.Bin(OUrem, d, n)
					// the quotient may be plain to see
					if q, m, ok := c.linInSym(d, n); ok && x.solveSt != nil {
						fs := x.solveSt.factList()
						if x.solveMiss != nil && x.solveMiss != c.T {
							fs = append(fs, x.solveMiss)
						}
						if x.p.Prove(fs, c.And(c.Ult(m, n), c.Ule(q, lim))) {
							v1, v2 = q, m
						}
					}
					bind(b1.v, v1)
					bind(b2.v, v2)
					done[i] = true
					break
				}
				if done[i] {
					break
				}
			}
		}
	}
	if len(unsolved) > 0 {
		return nil, nil, nil, false
	}
	// iterate: substituted values may mention nothing unsolved now
	for _, bv := range l.vars {
		if bv.n != nil {
			conds = append(conds, c.Ult(sub[bv.v], c.Subst(bv.n, sub)))
		}
	}
	for i := range eqs {
		if !done[i] {
			e := c.Eq(c.rewriteQuot(eqs[i], rules), r[i])
			if e == c.F {
				return c.F, nil, nil, true
			}
			conds = append(conds, e)
		}
	}
	conds = append(conds, c.rewriteQuot(c.Subst(l.guard, sub), rules))
	return c.And(conds...), sub, rules, true
}

func (x *Exec) substRules(v Value, s Subst, rules []quotRule) Value {
	v = x.substValue(v, s)
	if len(rules) == 0 {
		return v
	}
	return x.mapValue(v, func(t *Term) *Term { return x.c.rewriteQuot(t, rules) })
}

func (x *Exec) substValue(v Value, s Subst) Value {
	if len(s) == 0 {
		return v
	}
	return x.mapValue(v, func(t *Term) *Term { return x.c.Subst(t, s) })
}

func (x *Exec) mapValue(v Value, f0 func(*Term) *Term) Value {
	su := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return f0(t)
	}
	sus := func(ts []*Term) []*Term {
		r := make([]*Term, len(ts))
		for i, t := range ts {
			r[i] = su(t)
		}
		return r
	}
	switch v := v.(type) {
	case *Term:
		return su(v)
	case Cplx:
		return Cplx{su(v.re), su(v.im)}
	case Slice:
		v.idx, v.off, v.len, v.cap, v.nil_ = sus(v.idx), su(v.off), su(v.len), su(v.cap), su(v.nil_)
		return v
	case Ptr:
		v.a.idx = sus(v.a.idx)
		v.hi, v.boff = su(v.hi), su(v.boff)
		return v
	case *Struct:
		r := &Struct{typ: v.typ}
		for _, f := range v.fs {
			r.fs = append(r.fs, x.mapValue(f, f0))
		}
		return r
	case *ArrV:
		r := &ArrV{typ: v.typ}
		for _, f := range v.els {
			r.els = append(r.els, x.mapValue(f, f0))
		}
		return r
	case Tuple:
		r := Tuple{}
		for _, f := range v {
			r = append(r, x.mapValue(f, f0))
		}
		return r
	case Opaque:
		v.idx = sus(v.idx)
		return v
	case Iface:
		if v.val != nil {
			v.val = x.mapValue(v.val, f0)
		}
		return v
	case Choice:
		return x.iteValue(su(v.c), x.mapValue(v.a, f0), x.mapValue(v.b, f0))
	case Closure:
		r := Closure{fn: v.fn}
		for _, f := range v.binds {
			r.binds = append(r.binds, x.mapValue(f, f0))
		}
		return r
	}
	return v
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *Exec) sameValue(a, b Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case *Term:
		bt, ok := b.(*Term)
		return ok && a == bt
	case Cplx:
		bt, ok := b.(Cplx)
		return ok && a == bt
	case Slice:
		b, ok := b.(Slice)
		return ok && a.lc == b.lc && sameTerms(a.idx, b.idx) && a.off == b.off && a.len == b.len && a.cap == b.cap && a.nil_ == b.nil_
	case Ptr:
		b, ok := b.(Ptr)
		return ok && a.null == b.null && a.a.lc == b.a.lc && sameTerms(a.a.idx, b.a.idx) && a.view == b.view
	case *Struct:
		b, ok := b.(*Struct)
		if !ok || len(a.fs) != len(b.fs) {
			return false
		}
		for i := range a.fs {
			if !x.sameValue(a.fs[i], b.fs[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		b, ok := b.(*ArrV)
		if !ok || len(a.els) != len(b.els) {
			return false
		}
		for i := range a.els {
			if !x.sameValue(a.els[i], b.els[i]) {
				return false
			}
		}
		return true
	case Tuple:
		b, ok := b.(Tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !x.sameValue(a[i], b[i]) {
				return false
			}
		}
		return true
	case Opaque:
		b, ok := b.(Opaque)
		return ok && a.name == b.name && sameTerms(a.idx, b.idx)
	case Str:
		b, ok := b.(Str)
		return ok && a == b
	case Iface:
		b, ok := b.(Iface)
		if !ok {
			return false
		}
		if a.typ == nil || b.typ == nil {
			return a.typ == nil && b.typ == nil && a.val == nil && b.val == nil
		}
		return types.Identical(a.typ, b.typ) && x.sameValue(a.val, b.val)
	case Closure:
		b, ok := b.(Closure)
		if !ok || a.fn != b.fn || len(a.binds) != len(b.binds) {
			return false
		}
		for i := range a.binds {
			if !x.sameValue(a.binds[i], b.binds[i]) {
				return false
			}
		}
		return true
	case Choice:
		b, ok := b.(Choice)
		return ok && a.c == b.c && x.sameValue(a.a, b.a) && x.sameValue(a.b, b.b)
	}
	return false
}

func (x *Exec) iteValue(c *Term, a, b Value) Value {
	if c == x.c.T {
		return a
	}
	if c == x.c.F {
		return b
	}
	if x.sameValue(a, b) {
		return a
	}
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok && av.sort == bv.sort {
			return x.c.Ite(c, av, bv)
		}
	case Cplx:
		if bv, ok := b.(Cplx); ok {
			return Cplx{x.c.Ite(c, av.re, bv.re), x.c.Ite(c, av.im, bv.im)}
		}
	case Slice:
		if bv, ok := b.(Slice); ok && av.lc == bv.lc && sameTerms(av.idx, bv.idx) {
			av.off = x.c.Ite(c, av.off, bv.off)
			av.len = x.c.Ite(c, av.len, bv.len)
			av.cap = x.c.Ite(c, av.cap, bv.cap)
			av.nil_ = x.c.Ite(c, av.nil_, bv.nil_)
			return av
		}
	case Ptr:
		if bv, ok := b.(Ptr); ok && !av.null && !bv.null && av.a.lc == bv.a.lc && av.view == bv.view && av.hi == bv.hi {
			n := av
			n.a.idx = nil
			for i := range av.a.idx {
				n.a.idx = append(n.a.idx, x.c.Ite(c, av.a.idx[i], bv.a.idx[i]))
			}
			return n
		}
	case *Struct:
		if bv, ok := b.(*Struct); ok && len(av.fs) == len(bv.fs) {
			r := &Struct{typ: av.typ}
			for i := range av.fs {
				r.fs = append(r.fs, x.iteValue(c, av.fs[i], bv.fs[i]))
			}
			return r
		}
	case *ArrV:
		if bv, ok := b.(*ArrV); ok && len(av.els) == len(bv.els) {
			r := &ArrV{typ: av.typ}
			for i := range av.els {
				r.els = append(r.els, x.iteValue(c, av.els[i], bv.els[i]))
			}
			return r
		}
	case Tuple:
		if bv, ok := b.(Tuple); ok && len(av) == len(bv) {
			r := Tuple{}
			for i := range av {
				r = append(r, x.iteValue(c, av[i], bv[i]))
			}
			return r
		}
	}
	return Choice{c, a, b}
}

// resolve removes a Choice when its condition is decided.
func (x *Exec) resolve(st *State, v Value) Value {
	for {
		ch, ok := v.(Choice)
		if !ok {
			return v
		}
		switch x.decide(st, ch.c) {
		case 1:
			v = ch.a
		case -1:
			v = ch.b
		default:
			return ch
		}
	}
}

// store writes a value (decomposed to leaves).
func (x *Exec) store(st *State, a Addr, t types.Type, v Value) {
	x.storeG(st, a, t, v, x.c.T)
}

func (x *Exec) storeG(st *State, a Addr, t types.Type, v Value, guard *Term) {
	switch u := under(t).(type) {
	case *types.Struct:
		if ch, ok := v.(Choice); ok {
			x.storeG(st, a, t, ch.a, x.c.And(guard, ch.c))
			x.storeG(st, a, t, ch.b, x.c.And(guard, x.c.Not(ch.c)))
			return
		}
		s, ok := v.(*Struct)
		if !ok {
			bail("store of %T into struct", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			x.storeG(st, Addr{a.lc + "." + u.Field(i).Name(), a.idx}, u.Field(i).Type(), s.fs[i], guard)
		}
		return
	case *types.Array:
		s, ok := v.(*ArrV)
		if !ok {
			bail("store of %T into array", v)
		}
		for i := int64(0); i < u.Len(); i++ {
			x.storeG(st, Addr{a.lc + "[]", appendIdx(a.idx, x.c.Int(i))}, u.Elem(), s.els[i], guard)
		}
		return
	}
	x.pushLayer(st, a.lc, &Layer{guard: guard, idx: a.idx, val: v})
}

func (x *Exec) pushLayer(st *State, lc string, l *Layer) {
	l.parent = st.mem[lc]
	l.n = 1
	if l.parent != nil {
		l.n = l.parent.n + 1
	}
	st.mem[lc] = l
}

// layersSince lists layers newer than base, oldest first.
func layersSince(l, base *Layer) []*Layer {
	var r []*Layer
	for ; l != base && l != nil; l = l.parent {
		r = append(r, l)
	}
	if l == nil && base != nil {
		return nil
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// merge joins exclusive outcomes (with guards) that extend base.
func (x *Exec) merge(base *State, ss []*State, gs []*Term) *State {
	r := base.clone()
	lcs := map[string]bool{}
	var order []string
	for _, s := range ss {
		for lc := range s.mem {
			if s.mem[lc] != base.mem[lc] && !lcs[lc] {
				lcs[lc] = true
				order = append(order, lc)
			}
		}
	}
	sortStrings(order)
	for _, lc := range order {
		for i, s := range ss {
			for _, l := range layersSince(s.mem[lc], base.mem[lc]) {
				g := x.c.And(gs[i], l.guard)
				if g == x.c.F {
					continue
				}
				x.pushLayer(r, lc, &Layer{vars: l.vars, guard: g, idx: l.idx, val: l.val})
			}
		}
	}
	for k := range r.ghost {
		for i := len(ss) - 1; i >= 0; i-- {
			g := x.ghosts(ss[i])[k]
			if i == len(ss)-1 {
				r.ghost[k] = g
			} else {
				r.ghost[k] = x.c.Ite(gs[i], g, r.ghost[k])
			}
		}
	}
	r.assume(x.c.Or(gs...), true)
	for i, s := range ss {
		for f := s.facts; f != base.facts && f != nil; f = f.parent {
			if !f.branch {
				r.assume(x.c.Implies(gs[i], f.t), false)
			}
		}
	}
	return r
}
