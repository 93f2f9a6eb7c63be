package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// The specification constant "any" stands for an unspecified 64-bit value,
// fresh at every use of the contract (and for every element of the location
// set by the clause, and every iteration of the loops around the call). In a
// goal it is existentially quantified: a witness is searched in the value the
// code computed.

const anyPrefix = "any!"

func (e *specEnv) anyTerm() *Term {
	x := e.x
	if e.anyN == nil {
		specBail("any outside of a sets or result clause")
	}
	*e.anyN++
	args := append([]*Term{}, x.gen...)
	args = append(args, e.anyVars...)
	return x.c.App(fmt.Sprintf("%s%d!%d", anyPrefix, e.anyID, *e.anyN), 64, args...)
}

func (e *specEnv) withAny(vars []*Term) *specEnv {
	n := *e
	e.x.allocN++
	n.anyID = e.x.allocN
	n.anyN = new(int)
	n.anyVars = vars
	return &n
}

// isAnyClause: the right-hand side is the bare word any
func isAnyClause(ex ast.Expr) bool {
	id, ok := ex.(*ast.Ident)
	return ok && id.Name == "any"
}

// unspecified is the value of a bare any of type t.
func (e *specEnv) unspecified(t types.Type) Value {
	a := e.anyTerm()
	return e.x.initValue(a.name, a.args, t)
}

func isAnyApp(t *Term) bool {
	return (t.op == OApp || t.op == OVar) && strings.HasPrefix(t.name, anyPrefix)
}

// anyTerms collects the any-terms of t with the application each is an
// argument of (nil at the top).
func (c *Ctx) anyTerms(t *Term, keep func(*Term) bool) map[*Term]*Term {
	out := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t, parent *Term)
	rec = func(t, parent *Term) {
		if isAnyApp(t) && keep(t) {
			if out[t] == nil {
				out[t] = parent
			}
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		p := parent
		if t.op == OApp {
			p = t
		} else if t.op == OIte || t.op == OPoly {
			p = nil
		}
		for _, a := range t.children() {
			rec(a, p)
		}
	}
	rec(t, nil)
	return out
}

// apps collects the applications of a function inside t, in order.
func apps(t *Term, name string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.name == name {
			out = append(out, t)
		}
		for _, a := range t.children() {
			rec(a)
		}
	}
	rec(t)
	return out
}

// exEq: got = want for some values of the any-terms (kept by keep) of want.
func (x *Exec) exEq(st *State, got, want Value, keep func(*Term) bool) *Term {
	c := x.c
	g, ok1 := x.resolve(st, got).(*Term)
	w, ok2 := x.resolve(st, want).(*Term)
	if !ok1 || !ok2 {
		if gc, ok := x.resolve(st, got).(Cplx); ok {
			if wc, ok := x.resolve(st, want).(Cplx); ok {
				return c.And(x.exEq(st, gc.re, wc.re, keep), x.exEq(st, gc.im, wc.im, keep))
			}
		}
		return x.valEq(st, got, want)
	}
	// bare any: unspecified
	var strip func(t *Term) *Term
	strip = func(t *Term) *Term {
		if isAnyApp(t) && keep(t) {
			return g
		}
		if t.op == OIte {
			return c.Ite(t.args[0], strip(t.args[1]), strip(t.args[2]))
		}
		// any & mask: a value within the mask
		in := t
		for in.op == OTrunc || in.op == OZext {
			in = in.args[0]
		}
		if in.op == OBand && isConst(in.args[1]) && isAnyApp(in.args[0]) && keep(in.args[0]) && g.sort > 0 && in.args[1].k <= mask(g.sort) {
			return c.Bin(OBand, g, c.BV(g.sort, in.args[1].k))
		}
		return t
	}
	w = strip(w)
	anys := c.anyTerms(w, keep)
	if len(anys) == 0 {
		return c.Eq(g, w)
	}
	var list []*Term
	for a := range anys {
		list = append(list, a)
	}
	for i := range list {
		for j := i + 1; j < len(list); j++ {
			if list[j].id < list[i].id {
				list[i], list[j] = list[j], list[i]
			}
		}
	}
	subs := []Subst{{}}
	for _, a := range list {
		p := anys[a]
		if p == nil {
			specBail("any must be an argument of an uninterpreted function")
		}
		pos := -1
		for i, q := range p.args {
			if c.occurs(a, q) {
				pos = i
			}
		}
		if p.args[pos] != a {
			specBail("any must be a direct argument")
		}
		var next []Subst
		for _, cand := range apps(g, p.name) {
			if len(c.freeBounds(cand)) > 0 {
				continue
			}
			for _, s := range subs {
				n := Subst{}
				for k, v := range s {
					n[k] = v
				}
				n[a] = cand.args[pos]
				next = append(next, n)
			}
		}
		subs = next
		if len(subs) > 16 {
			subs = subs[:16]
		}
	}
	var alts []*Term
	for _, s := range subs {
		q := c.Eq(g, c.Subst(w, s))
		if q == c.T {
			return c.T
		}
		alts = append(alts, q)
	}
	return c.Or(alts...)
}

// like(x, EXPR): x equals EXPR for some value of the any in EXPR
func (e *specEnv) likeCall(n *ast.CallExpr) TV {
	v := e.eval(n.Args[0])
	ee := e.withAny(nil)
	pre := fmt.Sprintf("%s%d!", anyPrefix, ee.anyID)
	w := ee.coerce(ee.eval(n.Args[1]), v.t)
	return TV{v: e.x.exEq(e.cur, v.v, w.v, func(t *Term) bool { return strings.HasPrefix(t.name, pre) }), t: types.Typ[types.Bool]}
}

// distinct(x, y): x and y were computed from different unspecified values
// (no unspecified value occurs in both).
func (e *specEnv) distinctCall(n *ast.CallExpr) TV {
	x := e.x
	c := x.c
	a := x.resolve(e.cur, e.eval(n.Args[0]).v).(*Term)
	b := x.resolve(e.cur, e.eval(n.Args[1]).v).(*Term)
	all := func(*Term) bool { return true }
	r := c.T
	as, bs := c.anyTerms(a, all), c.anyTerms(b, all)
	if len(as) == 0 || len(bs) == 0 {
		return TV{v: c.F, t: types.Typ[types.Bool]}
	}
	for p := range as {
		for q := range bs {
			if p.name != q.name {
				continue
			}
			var eqs []*Term
			for i := range p.args {
				eqs = append(eqs, c.Eq(p.args[i], q.args[i]))
			}
			r = c.And(r, c.Not(c.And(eqs...)))
		}
	}
	return TV{v: r, t: types.Typ[types.Bool]}
}
