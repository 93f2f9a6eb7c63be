package main

// Terms: hash-consed first-order terms over Bool, bit vectors and reals, kept
// in a ring normal form (polynomials modulo 2^w, or over the rationals).

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sort int // 0 Bool, -1 Real, -2 Arr (functional value), w>0 bit vector of width w

const (
	SBool Sort = 0
	SReal Sort = -1
	SArr  Sort = -2
)

type Op uint8

const (
	OConst Op = iota // BV const (k) / Bool const (k 0/1) / Real const (rat)
	OVar             // name
	OApp             // name(args)
	OPoly            // mons
	OAnd             // bool n-ary
	OOr              // bool n-ary
	ONot
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ORlt
	ORle
	OIte
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OUdiv
	OUrem
	OSdiv
	OSrem
	OZext
	OSext
	OTrunc
	ORdiv
	OBound // bound variable, k = level
	OSum   // args: n, body ; level k
	OLam   // args: n, body ; level k
)

type Mon struct {
	c     uint64   // BV coefficient
	r     *big.Rat // real coefficient
	atoms []*Term
}

type Term struct {
	op    Op
	sort  Sort
	args  []*Term
	mons  []Mon
	name  string
	k     uint64
	rat   *big.Rat
	id    int
	depth int // binder depth
	ub    uint64
	ubSet bool
	vars  map[*Term]bool // free variables (lazily)
	bnds  map[int]bool   // free bound levels (lazily)
	rng   *Term          // for OVar/OBound: exclusive upper bound known a priori (nil if none)
}

type Ctx struct {
	tab      map[string]*Term
	n        int
	T, F     *Term
	fresh    int
	axioms   map[*Term][]*Term // definitional axioms attached to a term
	leafCase map[*Term]*Term   // elements of the initial memory fixed by a case split
	ubound   map[string]uint64 // upper bounds for Apps by name
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, axioms: map[*Term][]*Term{}, ubound: map[string]uint64{}, leafCase: map[*Term]*Term{}}
	c.T = c.mk(&Term{op: OConst, sort: SBool, k: 1})
	c.F = c.mk(&Term{op: OConst, sort: SBool, k: 0})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(strconv.Itoa(int(t.sort)))
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatUint(t.k, 16))
	if t.rat != nil {
		b.WriteByte('r')
		b.WriteString(t.rat.RatString())
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, m := range t.mons {
		b.WriteByte(';')
		if m.r != nil {
			b.WriteString(m.r.RatString())
		} else {
			b.WriteString(strconv.FormatUint(m.c, 16))
		}
		for _, a := range m.atoms {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	key := b.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.n++
	t.id = c.n
	for _, a := range t.args {
		if a.depth > t.depth {
			t.depth = a.depth
		}
	}
	for _, m := range t.mons {
		for _, a := range m.atoms {
			if a.depth > t.depth {
				t.depth = a.depth
			}
		}
	}
	if t.op == OBound {
		// depth of a bound variable itself is not counted
	}
	if t.op == OSum || t.op == OLam {
		t.depth = int(t.k) + 1
	}
	c.tab[key] = t
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) BV(w Sort, k uint64) *Term { return c.mk(&Term{op: OConst, sort: w, k: k & mask(w)}) }
func (c *Ctx) Int(k int64) *Term         { return c.BV(64, uint64(k)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Rat(r *big.Rat) *Term {
	return c.mk(&Term{op: OConst, sort: SReal, rat: new(big.Rat).Set(r)})
}
func (c *Ctx) RealInt(k int64) *Term { return c.Rat(new(big.Rat).SetInt64(k)) }
func (c *Ctx) Var(name string, s Sort) *Term {
	t := c.mk(&Term{op: OVar, sort: s, name: name})
	if v, ok := c.leafCase[t]; ok {
		return v
	}
	return t
}
func (c *Ctx) Fresh(pfx string, s Sort) *Term {
	c.fresh++
	return c.Var(pfx+"!"+strconv.Itoa(c.fresh), s)
}
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, s)
	}
	if strings.HasPrefix(name, "ifft:") {
		if r := c.invertTransform(name, args); r != nil {
			return r
		}
	}
	t := c.mk(&Term{op: OApp, sort: s, name: name, args: args})
	if v, ok := c.leafCase[t]; ok {
		return v
	}
	return t
}

// invertTransform: the inverse transform of the transform of an integer
// polynomial is that polynomial (over the reals, rounding to the nearest
// integer changes nothing).
func (c *Ctx) invertTransform(name string, args []*Term) *Term {
	l := args[0]
	if l.op != OLam || l.args[1].op != OApp || l.args[1].name != "fft" {
		return nil
	}
	f := l.args[1]
	b := c.boundVar(int(l.k))
	if f.args[2] != b || c.freeBounds(f.args[1])[int(l.k)] || f.args[1].op != OLam || f.args[1].args[0] != l.args[0] {
		return nil
	}
	if sz := map[string]uint64{"ifft:uint32": 32, "ifft:uint64": 64}[name]; sz == 0 || !isConst(f.args[0]) || f.args[0].k != sz {
		return nil
	}
	p := f.args[1]
	return c.Subst(p.args[1], Subst{c.boundVar(int(p.k)): args[2]})
}

func isConst(t *Term) bool { return t.op == OConst }

// ---------- polynomials ----------

func (c *Ctx) polyOf(t *Term) []Mon {
	switch {
	case t.op == OPoly:
		return t.mons
	case t.op == OConst && t.sort == SReal:
		if t.rat.Sign() == 0 {
			return nil
		}
		return []Mon{{r: t.rat}}
	case t.op == OConst:
		if t.k == 0 {
			return nil
		}
		return []Mon{{c: t.k}}
	case t.sort == SReal:
		return []Mon{{r: big.NewRat(1, 1), atoms: []*Term{t}}}
	}
	return []Mon{{c: 1, atoms: []*Term{t}}}
}

func atomsCmp(a, b []*Term) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id - b[i].id
		}
	}
	return 0
}

func (c *Ctx) fromMons(s Sort, ms []Mon) *Term {
	sort.SliceStable(ms, func(i, j int) bool { return atomsCmp(ms[i].atoms, ms[j].atoms) < 0 })
	out := ms[:0:0]
	for i := 0; i < len(ms); {
		j := i + 1
		m := ms[i]
		if s == SReal {
			r := new(big.Rat).Set(m.r)
			for j < len(ms) && atomsCmp(ms[j].atoms, m.atoms) == 0 {
				r.Add(r, ms[j].r)
				j++
			}
			if r.Sign() != 0 {
				out = append(out, Mon{r: r, atoms: m.atoms})
			}
		} else {
			k := m.c
			for j < len(ms) && atomsCmp(ms[j].atoms, m.atoms) == 0 {
				k += ms[j].c
				j++
			}
			k &= mask(s)
			if k != 0 {
				out = append(out, Mon{c: k, atoms: m.atoms})
			}
		}
		i = j
	}
	if len(out) == 0 {
		if s == SReal {
			return c.RealInt(0)
		}
		return c.BV(s, 0)
	}
	if len(out) == 1 {
		m := out[0]
		if len(m.atoms) == 0 {
			if s == SReal {
				return c.Rat(m.r)
			}
			return c.BV(s, m.c)
		}
		if len(m.atoms) == 1 && ((s == SReal && m.r.Cmp(big.NewRat(1, 1)) == 0) || (s != SReal && m.c == 1)) {
			return m.atoms[0]
		}
	}
	return c.mk(&Term{op: OPoly, sort: s, mons: out})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch add %v %v : %s + %s", a.sort, b.sort, a, b))
	}
	// pull out ites with identical conditions: ite(c,a,b)+ite(c,d,e) is left alone
	pa, pb := c.polyOf(a), c.polyOf(b)
	ms := make([]Mon, 0, len(pa)+len(pb))
	ms = append(ms, pa...)
	ms = append(ms, pb...)
	return c.mergeSums(c.fromMons(a.sort, ms))
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.sort == SReal {
		return c.scaleR(a, big.NewRat(-1, 1))
	}
	return c.scale(a, ^uint64(0))
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *Ctx) scale(a *Term, k uint64) *Term {
	pa := c.polyOf(a)
	ms := make([]Mon, 0, len(pa))
	for _, m := range pa {
		ms = append(ms, Mon{c: m.c * k, atoms: m.atoms})
	}
	return c.fromMons(a.sort, ms)
}
func (c *Ctx) scaleR(a *Term, k *big.Rat) *Term {
	pa := c.polyOf(a)
	ms := make([]Mon, 0, len(pa))
	for _, m := range pa {
		ms = append(ms, Mon{r: new(big.Rat).Mul(m.r, k), atoms: m.atoms})
	}
	return c.fromMons(a.sort, ms)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch mul %v %v", a.sort, b.sort))
	}
	pa, pb := c.polyOf(a), c.polyOf(b)
	if len(pa)*len(pb) > 256 && len(pa) > 1 && len(pb) > 1 {
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return c.App("bigmul", a.sort, x, y)
	}
	ms := make([]Mon, 0, len(pa)*len(pb))
	for _, x := range pa {
		for _, y := range pb {
			at := make([]*Term, 0, len(x.atoms)+len(y.atoms))
			at = append(at, x.atoms...)
			at = append(at, y.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			if a.sort == SReal {
				ms = append(ms, Mon{r: new(big.Rat).Mul(x.r, y.r), atoms: at})
			} else {
				ms = append(ms, Mon{c: x.c * y.c, atoms: at})
			}
		}
	}
	return c.fromMons(a.sort, ms)
}

// linear in v: t = coef*v + rest with rest free of v
func (c *Ctx) linIn(t, v *Term) (coef uint64, rest *Term, ok bool) {
	if t == v {
		return 1, c.BV(t.sort, 0), true
	}
	if !c.occurs(v, t) {
		return 0, t, true
	}
	if t.op != OPoly {
		return 0, nil, false
	}
	var rs []Mon
	for _, m := range t.mons {
		occ := false
		for _, a := range m.atoms {
			if c.occurs(v, a) {
				occ = true
			}
		}
		if !occ {
			rs = append(rs, m)
			continue
		}
		if len(m.atoms) != 1 || m.atoms[0] != v {
			return 0, nil, false
		}
		coef = m.c
	}
	return coef, c.fromMons(t.sort, rs), true
}

// linear in v with symbolic coefficient
func (c *Ctx) linInSym(t, v *Term) (coef, rest *Term, ok bool) {
	if t == v {
		return c.one(t.sort), c.zero(t.sort), true
	}
	if !c.occurs(v, t) {
		return c.zero(t.sort), t, true
	}
	if t.op != OPoly {
		return nil, nil, false
	}
	var rs, cs []Mon
	for _, m := range t.mons {
		cnt := 0
		var others []*Term
		for _, a := range m.atoms {
			if a == v {
				cnt++
			} else if c.occurs(v, a) {
				return nil, nil, false
			} else {
				others = append(others, a)
			}
		}
		if cnt == 0 {
			rs = append(rs, m)
		} else if cnt == 1 {
			cs = append(cs, Mon{c: m.c, r: m.r, atoms: others})
		} else {
			return nil, nil, false
		}
	}
	return c.fromMons(t.sort, cs), c.fromMons(t.sort, rs), true
}

func (c *Ctx) zero(s Sort) *Term {
	if s == SReal {
		return c.RealInt(0)
	}
	if s == SBool {
		return c.F
	}
	return c.BV(s, 0)
}
func (c *Ctx) one(s Sort) *Term {
	if s == SReal {
		return c.RealInt(1)
	}
	return c.BV(s, 1)
}

// ---------- free variables, substitution ----------

func (t *Term) children() []*Term {
	if t.op != OPoly {
		return t.args
	}
	var r []*Term
	for _, m := range t.mons {
		r = append(r, m.atoms...)
	}
	return r
}

func (c *Ctx) freeVars(t *Term) map[*Term]bool {
	if t.vars != nil {
		return t.vars
	}
	m := map[*Term]bool{}
	if t.op == OVar {
		m[t] = true
	}
	for _, a := range t.children() {
		for v := range c.freeVars(a) {
			m[v] = true
		}
	}
	t.vars = m
	return m
}

func (c *Ctx) freeBounds(t *Term) map[int]bool {
	if t.bnds != nil {
		return t.bnds
	}
	m := map[int]bool{}
	if t.op == OBound {
		m[int(t.k)] = true
	}
	for i, a := range t.children() {
		for v := range c.freeBounds(a) {
			if (t.op == OSum || t.op == OLam) && i == 1 && v == int(t.k) {
				continue
			}
			m[v] = true
		}
	}
	t.bnds = m
	return m
}

// closed: t mentions none of the variables
func (c *Ctx) closed(t *Term, vs []BVar) bool {
	for _, v := range vs {
		if c.occurs(v.v, t) {
			return false
		}
	}
	return true
}

func (c *Ctx) occurs(v, t *Term) bool {
	if v.op == OVar {
		return c.freeVars(t)[v]
	}
	if v.op == OBound {
		return c.freeBounds(t)[int(v.k)]
	}
	// general subterm
	if v == t {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.children() {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type Subst map[*Term]*Term

func (c *Ctx) Subst(t *Term, s Subst) *Term {
	if len(s) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	onlyVars := true
	for k := range s {
		if k.op != OVar {
			onlyVars = false
		}
	}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := s[x]; ok {
			return r
		}
		if x.op == OConst || x.op == OVar || x.op == OBound {
			return x
		}
		if onlyVars {
			hit := false
			fv := c.freeVars(x)
			for k := range s {
				if fv[k] {
					hit = true
					break
				}
			}
			if !hit {
				return x
			}
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := c.rebuild(x, rec)
		memo[x] = r
		return r
	}
	return rec(t)
}

// quotRule states k*q == d (under the condition the rule was created with).
type quotRule struct {
	q, d *Term
	k    uint64
}

// rewriteQuot replaces multiples of k*q by multiples of d.
func (c *Ctx) rewriteQuot(t *Term, rules []quotRule) *Term {
	if len(rules) == 0 || t == nil {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x.op == OConst || x.op == OVar || x.op == OBound {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		in := x
		if x.op == OPoly && x.sort == 64 {
			for _, ru := range rules {
				for i, m := range x.mons {
					if len(m.atoms) == 1 && m.atoms[0] == ru.q && int64(m.c)%int64(ru.k) == 0 {
						ms := append(append([]Mon{}, x.mons[:i]...), x.mons[i+1:]...)
						ms = append(ms, c.polyOf(c.scale(ru.d, uint64(int64(m.c)/int64(ru.k))))...)
						x = c.fromMons(64, ms)
						break
					}
				}
				if x.op != OPoly {
					break
				}
			}
		}
		r := x
		if x != in {
			r = rec(x)
		} else {
			r = c.rebuild(x, rec)
		}
		memo[in] = r
		return r
	}
	return rec(t)
}

// rebuild applies f to the children and re-normalises.
func (c *Ctx) rebuild(x *Term, f func(*Term) *Term) *Term {
	switch x.op {
	case OConst, OVar, OBound:
		return x
	case OPoly:
		// fast path: rebuild as sum of products
		acc := []Mon{}
		for _, m := range x.mons {
			changed := false
			na := make([]*Term, len(m.atoms))
			for i, a := range m.atoms {
				na[i] = f(a)
				if na[i] != a {
					changed = true
				}
			}
			if !changed {
				acc = append(acc, m)
				continue
			}
			var p *Term
			if x.sort == SReal {
				p = c.Rat(m.r)
			} else {
				p = c.BV(x.sort, m.c)
			}
			for _, a := range na {
				p = c.Mul(p, a)
			}
			acc = append(acc, c.polyOf(p)...)
		}
		return c.mergeSums(c.fromMons(x.sort, acc))
	}
	na := make([]*Term, len(x.args))
	same := true
	for i, a := range x.args {
		na[i] = f(a)
		if na[i] != a {
			same = false
		}
	}
	if same {
		return x
	}
	return c.rebuildArgs(x, na)
}

func (c *Ctx) rebuildArgs(x *Term, a []*Term) *Term {
	switch x.op {
	case OApp:
		if x.name == "bigmul" {
			return c.Mul(a[0], a[1])
		}
		if r := c.simpApp(x.name, x.sort, a); r != nil {
			return r
		}
		return c.App(x.name, x.sort, a...)
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case ONot:
		return c.Not(a[0])
	case OEq:
		return c.Eq(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case ORlt:
		return c.Rlt(a[0], a[1])
	case ORle:
		return c.Rle(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OBand, OBor, OBxor, OShl, OLshr, OAshr, OUdiv, OUrem, OSdiv, OSrem:
		return c.Bin(x.op, a[0], a[1])
	case OZext:
		return c.Zext(a[0], x.sort)
	case OSext:
		return c.Sext(a[0], x.sort)
	case OTrunc:
		return c.Trunc(a[0], x.sort)
	case ORdiv:
		return c.Rdiv(a[0], a[1])
	case OSum, OLam:
		// open, then rebind
		v := c.Fresh("ob", 64)
		b := c.Subst(a[1], Subst{c.boundVar(int(x.k)): v})
		if x.op == OSum {
			return c.Sum(v, a[0], b)
		}
		return c.Lam(v, a[0], b)
	}
	panic("rebuildArgs " + fmt.Sprint(x.op))
}

func (c *Ctx) boundVar(level int) *Term {
	return c.mk(&Term{op: OBound, sort: 64, k: uint64(level)})
}

// ---------- binders ----------

func (c *Ctx) closeBinder(v, body *Term) (int, *Term) {
	lvl := body.depth
	// avoid capture of free bound variables at the same level
	for c.freeBounds(body)[lvl] {
		lvl++
	}
	return lvl, c.Subst(body, Subst{v: c.boundVar(lvl)})
}

// Sum_{v=0}^{n-1} body
func (c *Ctx) Sum(v, n, body *Term) *Term {
	if isConst(n) && n.k == 0 {
		return c.zero(body.sort)
	}
	if isConst(n) && n.k <= 64 {
		r := c.zero(body.sort)
		for i := uint64(0); i < n.k; i++ {
			r = c.Add(r, c.Subst(body, Subst{v: c.BV(64, i)}))
		}
		return r
	}
	if !c.occurs(v, body) {
		if body.sort == SReal {
			return c.Mul(c.App("u2r", SReal, n), body)
		}
		return c.Mul(c.Resize(n, body.sort), body)
	}
	// linearity
	if body.op == OPoly {
		acc := c.zero(body.sort)
		for _, m := range body.mons {
			var in, out []*Term
			for _, a := range m.atoms {
				if c.occurs(v, a) {
					in = append(in, a)
				} else {
					out = append(out, a)
				}
			}
			one := Mon{c: 1}
			if body.sort == SReal {
				one = Mon{r: big.NewRat(1, 1)}
			}
			ti := c.fromMons(body.sort, []Mon{{c: one.c, r: one.r, atoms: in}})
			to := c.fromMons(body.sort, []Mon{{c: m.c, r: m.r, atoms: out}})
			acc = c.Add(acc, c.Mul(to, c.sum1(v, n, ti)))
		}
		return acc
	}
	return c.sum1(v, n, body)
}

func (c *Ctx) sum1(v, n, body *Term) *Term {
	if !c.occurs(v, body) {
		return c.Sum(v, n, body)
	}
	// Sum of ite(cond, f, 0) with cond independent of v
	if body.op == OIte && !c.occurs(v, body.args[0]) {
		return c.Ite(body.args[0], c.Sum(v, n, body.args[1]), c.Sum(v, n, body.args[2]))
	}
	lvl, b := c.closeBinder(v, body)
	return c.mk(&Term{op: OSum, sort: body.sort, k: uint64(lvl), args: []*Term{n, b}})
}

func (c *Ctx) Lam(v, n, body *Term) *Term {
	if q := c.Ult(v, n); q != c.T && q != c.F {
		body = c.under(body, q) // elements outside of the range do not matter
	}
	lvl, b := c.closeBinder(v, body)
	return c.mk(&Term{op: OLam, sort: SArr, k: uint64(lvl), args: []*Term{n, b}})
}

// mergeSums is a hook for joining split sums; adjacent sums are joined in mergeSums.
func (c *Ctx) mergeSums(t *Term) *Term { return t }

// simpApp gives simplifications for interpreted application names.
func (c *Ctx) simpApp(name string, s Sort, a []*Term) *Term {
	switch name {
	case "u2r", "s2r":
		if isConst(a[0]) {
			if name == "s2r" {
				return c.RealInt(sext64(a[0].k, a[0].sort))
			}
			return c.Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(a[0].k)))
		}
	}
	return nil
}

func (c *Ctx) AppS(name string, s Sort, a ...*Term) *Term {
	if r := c.simpApp(name, s, a); r != nil {
		return r
	}
	return c.App(name, s, a...)
}

// ---------- boolean ----------

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		if seen[c.Not(x)] {
			return false
		}
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, c.T, c.F, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, c.F, c.T, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch eq %d %d: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	} else if a.sort == SArr {
		if a.op == OLam && b.op == OLam && a.args[0] == b.args[0] {
			// compared by the solver front end (pointwise)
		}
	} else {
		if isConst(a) && isConst(b) {
			return c.F // distinct hash-consed constants
		}
		d := c.Sub(a, b)
		if isConst(d) {
			if d.sort == SReal {
				return c.Bool(d.rat.Sign() == 0)
			}
			return c.Bool(d.k == 0)
		}
		if d.sort > 0 {
			// upper bound reasoning: a + k == b with disjoint ranges is left to the solver
			// canonical orientation: pick normal form with first monomial coefficient small
			nd := c.Neg(d)
			if c.nonzero(d) || c.nonzero(nd) {
				return c.F
			}
			if nd.id < d.id {
				d = nd
			}
			// if every coefficient is even the equation may be weaker; leave as is
			if d.op != OPoly {
				return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d, c.zero(d.sort)}})
			}
			// keep original sides where they are simpler
		}
		if a.op == OIte && isConst(a.args[1]) && isConst(a.args[2]) && isConst(b) {
			return c.Or(c.And(a.args[0], c.Eq(a.args[1], b)), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b)))
		}
		if b.op == OIte && isConst(b.args[1]) && isConst(b.args[2]) && isConst(a) {
			return c.Eq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func sext64(k uint64, w Sort) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := uint(64 - int(w))
	return int64(k<<sh) >> sh
}

// nonzero: a polynomial with a positive constant term that cannot wrap around.
func (c *Ctx) nonzero(t *Term) bool {
	if t.op != OPoly {
		return false
	}
	var acc, k0 uint64
	for _, mo := range t.mons {
		p := mo.c
		for _, a := range mo.atoms {
			hi, lo := bits.Mul64(p, c.UB(a))
			if hi != 0 {
				return false
			}
			p = lo
		}
		if len(mo.atoms) == 0 {
			k0 = mo.c
		}
		s, carry := bits.Add64(acc, p, 0)
		if carry != 0 || s > mask(t.sort) {
			return false
		}
		acc = s
	}
	return k0 > 0
}

// UB returns a sound unsigned upper bound of a bit-vector term.
func (c *Ctx) UB(t *Term) uint64 {
	if t.ubSet {
		return t.ub
	}
	m := mask(t.sort)
	r := m
	switch t.op {
	case OConst:
		r = t.k
	case OVar, OApp:
		if u, ok := c.ubound[t.name]; ok && u < r {
			r = u
		}
	case OZext:
		r = c.UB(t.args[0])
	case OTrunc:
		if u := c.UB(t.args[0]); u < r {
			r = u
		}
	case OBand:
		r = c.UB(t.args[0])
		if u := c.UB(t.args[1]); u < r {
			r = u
		}
	case OBor, OBxor:
		u := c.UB(t.args[0]) | c.UB(t.args[1])
		if u != 0 {
			r = mask(Sort(bits.Len64(u)))
		} else {
			r = 0
		}
	case OLshr:
		if isConst(t.args[1]) {
			if t.args[1].k >= uint64(t.sort) {
				r = 0
			} else {
				r = c.UB(t.args[0]) >> t.args[1].k
			}
		} else {
			r = c.UB(t.args[0])
		}
	case OUdiv:
		if isConst(t.args[1]) && t.args[1].k > 0 {
			r = c.UB(t.args[0]) / t.args[1].k
		}
	case OUrem:
		if isConst(t.args[1]) && t.args[1].k > 0 {
			r = t.args[1].k - 1
		}
	case OIte:
		r = c.UB(t.args[1])
		if u := c.UB(t.args[2]); u > r {
			r = u
		}
	case OPoly:
		// sum of nonneg monomials with no overflow
		var acc uint64
		ok := true
		for _, mo := range t.mons {
			p := mo.c
			for _, a := range mo.atoms {
				hi, lo := bits.Mul64(p, c.UB(a))
				if hi != 0 || lo > m {
					ok = false
					break
				}
				p = lo
			}
			if !ok {
				break
			}
			s, carry := bits.Add64(acc, p, 0)
			if carry != 0 || s > m {
				ok = false
				break
			}
			acc = s
		}
		if ok {
			r = acc
		}
	}
	t.ub = r
	t.ubSet = true
	return r
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.k < b.k)
	}
	if isConst(b) {
		if b.k == 0 {
			return c.F
		}
		if c.UB(a) < b.k {
			return c.T
		}
	}
	if isConst(a) && a.k >= c.UB(b) {
		return c.F
	}
	if isConst(a) && a.k == mask(a.sort) {
		return c.F
	}
	return c.mk(&Term{op: OUlt, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.k <= b.k)
	}
	if isConst(a) && a.k == 0 {
		return c.T
	}
	if isConst(b) && c.UB(a) <= b.k {
		return c.T
	}
	if isConst(a) && a.k > c.UB(b) {
		return c.F
	}
	if isConst(b) && b.k == 0 {
		return c.Eq(a, b)
	}
	return c.mk(&Term{op: OUle, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) nonneg(a *Term) bool { return c.UB(a) <= mask(a.sort)>>1 }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if isConst(a) && isConst(b) {
		return c.Bool(sext64(a.k, a.sort) < sext64(b.k, b.sort))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if isConst(b) && b.k == 0 && c.nonneg(a) {
		return c.F
	}
	if isConst(a) && sext64(a.k, a.sort) < 0 && c.nonneg(b) {
		return c.T
	}
	return c.mk(&Term{op: OSlt, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if isConst(a) && isConst(b) {
		return c.Bool(sext64(a.k, a.sort) <= sext64(b.k, b.sort))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if isConst(a) && sext64(a.k, a.sort) <= 0 && c.nonneg(b) {
		return c.T
	}
	return c.mk(&Term{op: OSle, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Rlt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.rat.Cmp(b.rat) < 0)
	}
	return c.mk(&Term{op: ORlt, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Rle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if isConst(a) && isConst(b) {
		return c.Bool(a.rat.Cmp(b.rat) <= 0)
	}
	return c.mk(&Term{op: ORle, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.T {
		return a
	}
	if p == c.F {
		return b
	}
	if a == b {
		return a
	}
	if p.op == ONot {
		return c.Ite(p.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.T && b == c.F {
			return p
		}
		if a == c.F && b == c.T {
			return c.Not(p)
		}
		return c.Or(c.And(p, a), c.And(c.Not(p), b))
	}
	// nested ite on the same condition
	if a.op == OIte && a.args[0] == p {
		return c.Ite(p, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == p {
		return c.Ite(p, a, b.args[2])
	}
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(p, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return c.Ite(c.And(c.Not(p), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[2] == b {
		return c.Ite(c.And(p, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return c.Ite(c.And(p, c.Not(a.args[0])), a.args[2], b)
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{p, a, b}})
}

// under simplifies the if-then-elses of t knowing that p holds.
func (c *Ctx) under(t, p *Term) *Term {
	np := c.Not(p)
	known := map[*Term]bool{p: true, np: false}
	if p.op == OAnd {
		for _, a := range p.args {
			known[a] = true
			known[c.Not(a)] = false
		}
	}
	if np.op == OAnd { // p is a disjunction of negations
	}
	if np.op == OOr {
		for _, a := range np.args {
			known[a] = false
			known[c.Not(a)] = true
		}
	}
	memo := map[*Term]*Term{}
	inner := len(c.freeBounds(p)) == 0
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x.sort == SBool {
			if v, ok := known[x]; ok {
				return c.Bool(v)
			}
		}
		if x.op == OConst || x.op == OVar || x.op == OBound || !inner && (x.op == OSum || x.op == OLam) {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := c.rebuild(x, rec)
		memo[x] = r
		return r
	}
	return rec(t)
}

// ---------- bit-vector operations ----------

func log2exact(k uint64) (int, bool) {
	if k != 0 && k&(k-1) == 0 {
		return bits.TrailingZeros64(k), true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch bin %d: %d %d", op, a.sort, b.sort))
	}
	w := a.sort
	m := mask(w)
	if isConst(a) && isConst(b) {
		if r, ok := constBin(op, a.k, b.k, w); ok {
			return c.BV(w, r)
		}
	}
	switch op {
	case OBand:
		if a == b {
			return a
		}
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) {
			if b.k == 0 {
				return c.BV(w, 0)
			}
			if b.k == m {
				return a
			}
			// low mask covering everything
			if _, ok := log2exact(b.k + 1); ok && c.UB(a) <= b.k {
				return a
			}
			if n, ok := log2exact(b.k + 1); ok {
				// (poly & (2^n-1)): drop multiples of 2^n from the polynomial
				if a.op == OPoly {
					var ms []Mon
					ch := false
					for _, mo := range a.mons {
						nc := mo.c & b.k
						if nc != mo.c {
							ch = true
						}
						if nc != 0 {
							ms = append(ms, Mon{c: nc, atoms: mo.atoms})
						}
					}
					if ch {
						return c.Bin(OBand, c.fromMons(w, ms), b)
					}
				}
				_ = n
			}
			if a.op == OBand && isConst(a.args[1]) {
				return c.Bin(OBand, a.args[0], c.BV(w, a.args[1].k&b.k))
			}
		}
	case OBor:
		if a == b {
			return a
		}
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
	case OBxor:
		if a == b {
			return c.BV(w, 0)
		}
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) && b.k == 0 {
			return a
		}
		if isConst(b) && b.k == m { // ^a = -a-1
			return c.Sub(c.Neg(a), c.one(w))
		}
	case OShl:
		if isConst(b) {
			if b.k >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.scale(a, uint64(1)<<b.k)
		}
		if isConst(a) && a.k == 0 {
			return a
		}
	case OLshr:
		if isConst(b) {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.BV(w, 0)
			}
			if c.UB(a) < uint64(1)<<b.k {
				return c.BV(w, 0)
			}
			if a.op == OLshr && isConst(a.args[1]) {
				return c.Bin(OLshr, a.args[0], c.BV(w, a.args[1].k+b.k))
			}
			// (2^s*x + r) >> s  where no overflow and r < 2^s
			if r := c.shrPoly(a, b.k); r != nil {
				return r
			}
		}
		if isConst(a) && a.k == 0 {
			return a
		}
	case OAshr:
		if c.nonneg(a) {
			return c.Bin(OLshr, a, b)
		}
		if isConst(b) && b.k == 0 {
			return a
		}
		if isConst(b) && b.k >= uint64(w) {
			b = c.BV(w, uint64(w)-1)
		}
	case OUdiv:
		if isConst(b) {
			if b.k == 1 {
				return a
			}
			if s, ok := log2exact(b.k); ok {
				return c.Bin(OLshr, a, c.BV(w, uint64(s)))
			}
		}
	case OUrem:
		if isConst(b) {
			if b.k == 1 {
				return c.BV(w, 0)
			}
			if _, ok := log2exact(b.k); ok {
				return c.Bin(OBand, a, c.BV(w, b.k-1))
			}
			if c.UB(a) < b.k {
				return a
			}
		}
	case OSdiv:
		if c.nonneg(a) && c.nonneg(b) {
			return c.Bin(OUdiv, a, b)
		}
		if isConst(b) && b.k == 1 {
			return a
		}
	case OSrem:
		if c.nonneg(a) && c.nonneg(b) {
			return c.Bin(OUrem, a, b)
		}
	}
	if (op == OBand || op == OBor || op == OBxor) && !isConst(b) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: op, sort: w, args: []*Term{a, b}})
}

func (c *Ctx) shrPoly(a *Term, s uint64) *Term {
	if a.op != OPoly {
		return nil
	}
	var hi, lo []Mon
	for _, mo := range a.mons {
		if mo.c&((1<<s)-1) == 0 {
			hi = append(hi, mo)
		} else {
			lo = append(lo, mo)
		}
	}
	if len(hi) == 0 {
		return nil
	}
	loT := c.fromMons(a.sort, append([]Mon{}, lo...))
	// constant part may exceed 2^s
	if isConst(loT) && loT.k >= 1<<s {
		extra := loT.k >> s << s
		hi = append(hi, Mon{c: extra})
		loT = c.BV(a.sort, loT.k-extra)
	}
	if c.UB(loT) >= 1<<s {
		return nil
	}
	hiT := c.fromMons(a.sort, append([]Mon{}, hi...))
	// need: no overflow in hiT+loT: UB as nonneg sum of monomials
	if c.UB(hiT) == mask(a.sort) {
		return nil
	}
	_, carry := bits.Add64(c.UB(hiT), c.UB(loT), 0)
	if carry != 0 || c.UB(hiT)+c.UB(loT) > mask(a.sort) {
		return nil
	}
	var r []Mon
	for _, mo := range hi {
		r = append(r, Mon{c: mo.c >> s, atoms: mo.atoms})
	}
	return c.fromMons(a.sort, r)
}

func constBin(op Op, a, b uint64, w Sort) (uint64, bool) {
	m := mask(w)
	switch op {
	case OBand:
		return a & b, true
	case OBor:
		return a | b, true
	case OBxor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m, true
	case OUdiv:
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case OUrem:
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case OSdiv:
		if b == 0 {
			return 0, false
		}
		sa, sb := sext64(a, w), sext64(b, w)
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OSrem:
		if b == 0 {
			return 0, false
		}
		sa, sb := sext64(a, w), sext64(b, w)
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	}
	return 0, false
}

func (c *Ctx) Zext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if isConst(a) {
		return c.BV(w, a.k)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	return c.mk(&Term{op: OZext, sort: w, args: []*Term{a}})
}
func (c *Ctx) Sext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if isConst(a) {
		return c.BV(w, uint64(sext64(a.k, a.sort)))
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.args[0], w)
	}
	return c.mk(&Term{op: OSext, sort: w, args: []*Term{a}})
}
func (c *Ctx) Trunc(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	switch a.op {
	case OConst:
		return c.BV(w, a.k)
	case OZext, OSext:
		in := a.args[0]
		if in.sort == w {
			return in
		}
		if in.sort > w {
			return c.Trunc(in, w)
		}
		if a.op == OZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	case OTrunc:
		return c.Trunc(a.args[0], w)
	case OPoly:
		r := c.BV(w, 0)
		for _, mo := range a.mons {
			p := c.BV(w, mo.c)
			for _, at := range mo.atoms {
				p = c.Mul(p, c.Trunc(at, w))
			}
			r = c.Add(r, p)
		}
		return r
	case OIte:
		return c.Ite(a.args[0], c.Trunc(a.args[1], w), c.Trunc(a.args[2], w))
	case OSum:
		v := c.Fresh("ob", 64)
		b := c.Subst(a.args[1], Subst{c.boundVar(int(a.k)): v})
		return c.Sum(v, a.args[0], c.Trunc(b, w))
	}
	return c.mk(&Term{op: OTrunc, sort: w, args: []*Term{a}})
}

func (c *Ctx) Resize(a *Term, w Sort) *Term {
	if a.sort < w {
		return c.Zext(a, w)
	}
	return c.Trunc(a, w)
}

func (c *Ctx) Rdiv(a, b *Term) *Term {
	if isConst(b) && b.rat.Sign() != 0 {
		return c.scaleR(a, new(big.Rat).Inv(b.rat))
	}
	if isConst(a) && a.rat.Sign() == 0 {
		return a
	}
	inv := c.mk(&Term{op: ORdiv, sort: SReal, args: []*Term{c.RealInt(1), b}})
	if isConst(a) && a.rat.Cmp(big.NewRat(1, 1)) == 0 {
		return inv
	}
	return c.Mul(a, inv)
}

// ---------- printing ----------

var opNames = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", ORlt: "<", ORle: "<=", OIte: "ite", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", ORdiv: "/", OZext: "zext", OSext: "sext", OTrunc: "trunc", OSum: "sum", OLam: "lam"}

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, 0)
	return b.String()
}
func (t *Term) print(b *strings.Builder, d int) {
	if b.Len() > 4000 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			b.WriteString([]string{"false", "true"}[t.k])
		case SReal:
			b.WriteString(t.rat.RatString())
		default:
			if k := sext64(t.k, t.sort); k < 0 && k > -1000000 {
				fmt.Fprintf(b, "%d", k)
			} else if t.k > 1<<40 {
				fmt.Fprintf(b, "%#x", t.k)
			} else {
				fmt.Fprintf(b, "%d", t.k)
			}
		}
	case OVar:
		b.WriteString(t.name)
	case OBound:
		fmt.Fprintf(b, "#%d", t.k)
	case OApp:
		b.WriteString(t.name + "(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(", ")
			}
			a.print(b, d+1)
		}
		b.WriteString(")")
	case OPoly:
		b.WriteString("(")
		for i, m := range t.mons {
			if i > 0 {
				b.WriteString(" + ")
			}
			if m.r != nil {
				b.WriteString(m.r.RatString())
			} else if k := sext64(m.c, t.sort); k < 0 && k > -1000000 {
				fmt.Fprintf(b, "%d", k)
			} else if m.c != 1 || len(m.atoms) == 0 {
				fmt.Fprintf(b, "%d", m.c)
			}
			for _, a := range m.atoms {
				b.WriteString("·")
				a.print(b, d+1)
			}
		}
		b.WriteString(")")
	default:
		b.WriteString("(" + opNames[t.op])
		if t.op == OSum || t.op == OLam {
			fmt.Fprintf(b, "#%d", t.k)
		}
		for _, a := range t.args {
			b.WriteString(" ")
			a.print(b, d+1)
		}
		b.WriteString(")")
	}
}
