package main

// Loop summarisation: every loop is replaced by the effect of its generic
// iteration, generalised over the iteration number. The generalisation is
// justified by solver-checked non-interference between iterations (or by the
// pointwise-accumulation rule), i.e. the loop invariant is generated and
// checked rather than written by hand.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type LoopInfo struct {
	header map[*ssa.BasicBlock]*Loop
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
}

func analyseLoops(fn *ssa.Function) *LoopInfo {
	li := &LoopInfo{header: map[*ssa.BasicBlock]*Loop{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for _, u := range fn.Blocks {
		for _, h := range u.Succs {
			if h.Dominates(u) {
				lp := li.header[h]
				if lp == nil {
					lp = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					li.header[h] = lp
				}
				stack := []*ssa.BasicBlock{u}
				for len(stack) > 0 {
					b := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.blocks[b] {
						continue
					}
					lp.blocks[b] = true
					stack = append(stack, b.Preds...)
				}
			}
		}
	}
	// post-dominators, ignoring blocks that cannot reach a return
	n := len(fn.Blocks)
	canRet := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if canRet[b.Index] {
				continue
			}
			ok := false
			if len(b.Instrs) > 0 {
				_, ok = b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			}
			for _, s := range b.Succs {
				if canRet[s.Index] {
					ok = true
				}
			}
			if ok {
				canRet[b.Index] = true
				ch = true
			}
		}
	}
	pd := make([]map[int]bool, n) // n is the virtual exit
	all := map[int]bool{n: true}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	for i := range pd {
		pd[i] = all
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !canRet[i] {
				continue
			}
			var inter map[int]bool
			add := func(m map[int]bool) {
				if inter == nil {
					inter = map[int]bool{}
					for k := range m {
						inter[k] = true
					}
					return
				}
				for k := range inter {
					if !m[k] {
						delete(inter, k)
					}
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				add(map[int]bool{n: true})
			}
			for _, s := range b.Succs {
				if canRet[s.Index] {
					add(pd[s.Index])
				}
			}
			if inter == nil {
				inter = map[int]bool{}
			}
			inter[i] = true
			if len(inter) != len(pd[i]) {
				pd[i] = inter
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if !canRet[i] {
			continue
		}
		// immediate post-dominator: the strict post-dominator with the largest pd set
		best, bs := -1, -1
		for k := range pd[i] {
			if k == i || k == n {
				continue
			}
			if len(pd[k]) > bs {
				best, bs = k, len(pd[k])
			}
		}
		if best >= 0 {
			li.ipdom[b] = fn.Blocks[best]
		}
	}
	return li
}

type loopCtx struct {
	id    int
	snap  map[string]*Layer
	havoc map[string]bool
	reads []readRec
	rset  map[string]bool
	base  *Fact
	off   bool
}

func (cx *loopCtx) hname(lc string) string { return fmt.Sprintf("H%d:%s", cx.id, lc) }

func (cx *loopCtx) record(x *Exec, st *State, a Addr, miss *Term) {
	key := a.lc
	for _, i := range a.idx {
		key += fmt.Sprintf(",%d", i.id)
	}
	key += fmt.Sprintf("|%d", miss.id)
	var fs []*Term
	for f := st.facts; f != cx.base && f != nil; f = f.parent {
		fs = append(fs, f.t)
		key += fmt.Sprintf(";%d", f.t.id)
	}
	if cx.rset[key] {
		return
	}
	cx.rset[key] = true
	cx.reads = append(cx.reads, readRec{a.lc, a.idx, fs, miss})
}

const unrollLimit = 80

// loop executes a loop entered at its header from prev.
func (x *Exec) loop(f *Frame, lp *Loop, prev *ssa.BasicBlock, st *State) []Outcome {
	env0 := f.env
	f.env = copyEnv(env0)
	x.phis(f, lp.header, prev, st)
	return x.loopMerged(f, lp, st)
}

// loopMerged: the phi entry values are already in f.env.
func (x *Exec) loopMerged(f *Frame, lp *Loop, st *State) []Outcome {
	f.inUn[lp.header] = true
	defer delete(f.inUn, lp.header)
	var init []Value
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		init = append(init, f.env[p])
	}
	if outs, ok := x.summarise(f, lp, phis, init, st); ok {
		return outs
	}
	return x.unroll(f, lp, phis, init, st)
}

// unrollMax is the number of iterations up to which a loop with a constant count is unrolled.
func (x *Exec) unrollMax() int {
	if x.unrollN > 0 {
		return x.unrollN - 1
	}
	return x.env.unrollMax
}

// unroll executes iterations one by one while the branch conditions are decided.
func (x *Exec) unroll(f *Frame, lp *Loop, phis []*ssa.Phi, init []Value, st *State) []Outcome {
	env0 := copyEnv(f.env)
	var done []Outcome
	cur := st
	curEnv := copyEnv(f.env)
	for i, p := range phis {
		curEnv[p] = init[i]
	}
	stops := lp.stops()
	for n := 0; ; n++ {
		if n > x.unrollMax() {
			bail("loop at %s is neither summarisable nor bounded (%s)", x.env.pos(loopPos(lp)), x.lastLoopFail)
		}
		f.env = copyEnv(curEnv)
		base := cur
		s := cur.clone()
		outs, next := x.block(f, lp.header, s, stops)
		if next != nil {
			if lp.blocks[next] && next != lp.header {
				outs = x.run(f, next, lp.header, s, stops)
			} else {
				outs = []Outcome{{kind: 0, blk: next, prev: lp.header, st: s, env: f.env}}
			}
		}
		var back []Outcome
		for _, o := range outs {
			if o.kind == 0 && o.blk == lp.header {
				back = append(back, o)
			} else {
				done = append(done, o)
			}
		}
		if len(back) == 0 {
			break
		}
		m := x.mergeAt(f, base, lp.header, back, f.env)
		if len(back) == 1 {
			ne := copyEnv(back[0].env)
			for _, p := range phis {
				ne[p] = m.env[p]
			}
			m.env = ne
		}
		cur, curEnv = m.st, m.env
	}
	// join the exits that reach the same block
	var res []Outcome
	seen := map[*ssa.BasicBlock]bool{}
	for _, o := range done {
		if o.kind == 1 {
			res = append(res, o)
			continue
		}
		if seen[o.blk] {
			continue
		}
		seen[o.blk] = true
		var same []Outcome
		for _, q := range done {
			if q.kind == 0 && q.blk == o.blk {
				same = append(same, q)
			}
		}
		if len(same) == 1 {
			res = append(res, o)
			continue
		}
		m := x.mergeAt(f, st, o.blk, same, env0)
		// values defined inside the loop and used after it
		for key := range same[0].env {
			if _, ok := m.env[key]; ok && x.sameValue(m.env[key], same[0].env[key]) {
				continue
			}
			if p, ok := key.(*ssa.Phi); ok && p.Block() == o.blk {
				continue
			}
			v := same[len(same)-1].env[key]
			ok := v != nil
			for i := len(same) - 2; i >= 0 && ok; i-- {
				w, has := same[i].env[key]
				if !has || w == nil {
					ok = false
					break
				}
				v = x.iteValue(guardSince(x.c, same[i].st, st.facts), w, v)
			}
			if ok {
				m.env[key] = v
			}
		}
		m.blk, m.prev, m.merged = o.blk, nil, true
		res = append(res, m)
	}
	return res
}

// stops: the header and every block just outside the loop.
func (lp *Loop) stops() map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{lp.header: true}
	for b := range lp.blocks {
		for _, s := range b.Succs {
			if !lp.blocks[s] {
				r[s] = true
			}
		}
	}
	return r
}

func loopPos(lp *Loop) token.Pos {
	for _, in := range lp.header.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) phisInto(f *Frame, b, prev *ssa.BasicBlock, env map[ssa.Value]Value) {
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.val(f, p.Edges[k]))
	}
	for i, p := range ps {
		env[p] = vals[i]
	}
}

// headerCond finds the loop-exit branch in the header.
func headerExit(lp *Loop) (cond ssa.Value, bodyArm int, ok bool) {
	h := lp.header
	iff, is := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !is {
		return nil, 0, false
	}
	in0, in1 := lp.blocks[h.Succs[0]], lp.blocks[h.Succs[1]]
	if in0 == in1 {
		return nil, 0, false
	}
	if in0 {
		return iff.Cond, 0, true
	}
	return iff.Cond, 1, true
}

type closedForm func(k *Term) Value

// runHeader executes the non-phi header instructions (loads and arithmetic) and returns the condition.
func (x *Exec) runHeader(f *Frame, lp *Loop, cond ssa.Value, arm int, st *State) *Term {
	for _, in := range lp.header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
			continue
		}
		if !x.instr(f, in, st) {
			bail("loop header does not terminate normally")
		}
	}
	t, ok := x.val(f, cond).(*Term)
	if !ok {
		bail("loop condition")
	}
	if arm == 1 {
		return x.c.Not(t)
	}
	return t
}

// tripCount solves cond(k) for the number of iterations, assuming 64-bit
// loop bounds stay within ±2^62 (checked).
func (x *Exec) tripCount(st *State, cond, k *Term) *Term {
	c := x.c
	var d *Term
	strict := true
	w := Sort(64)
	switch cond.op {
	case OUlt, OSlt:
		d = c.Sub(cond.args[1], cond.args[0])
	case OUle, OSle:
		d = c.Sub(cond.args[1], cond.args[0])
		strict = false
	case ONot:
		e := cond.args[0]
		if e.op == OEq && e.args[0].sort == w {
			d = c.Sub(e.args[1], e.args[0])
			coef, d0, ok := c.linIn(d, k)
			if !ok {
				return nil
			}
			s := int64(coef)
			if s == 1 {
				d0 = c.Neg(d0)
				s = -1
			}
			if s == -1 && x.decide(st, c.Sle(c.Int(0), d0)) == 1 {
				return d0
			}
		}
		return nil
	default:
		return nil
	}
	if cond.args[0].sort != w {
		return nil
	}
	coef, d0, ok := c.linIn(d, k)
	if !ok {
		return nil
	}
	if !strict {
		d0 = c.Add(d0, c.Int(1))
	}
	s := int64(coef)
	if s >= 0 {
		return nil
	}
	// range side condition: both ends are small at k=0
	a0 := c.Subst(cond.args[0], Subst{k: c.Int(0)})
	b0 := c.Subst(cond.args[1], Subst{k: c.Int(0)})
	lim := c.Int(1 << 61)
	rng := func(t *Term) *Term {
		if cond.op == OUlt || cond.op == OUle {
			return c.Ule(t, lim)
		}
		return c.And(c.Sle(t, lim), c.Sle(c.Neg(lim), t))
	}
	if os.Getenv("GOWP_TRIP") != "" {
		fmt.Println("trip", a0, b0, x.decide(st, rng(a0)), x.decide(st, rng(b0)), st.factList())
	}
	if x.decide(st, rng(a0)) != 1 || x.decide(st, rng(b0)) != 1 {
		return nil
	}
	step := uint64(-s)
	up := c.Add(d0, c.Int(int64(step-1)))
	var trip *Term
	if step == 1 {
		trip = d0
	} else {
		trip = c.Bin(OUdiv, up, c.BV(64, step))
	}
	switch x.decide(st, c.Sle(c.Int(0), d0)) {
	case 1:
		return trip
	case -1:
		return c.Int(0)
	}
	return c.Ite(c.Slt(c.Int(0), d0), trip, c.Int(0))
}

func (x *Exec) summarise(f *Frame, lp *Loop, phis []*ssa.Phi, init []Value, st *State) (res []Outcome, ok bool) {
	c := x.c
	cond, arm, has := headerExit(lp)
	if !has {
		return nil, false
	}
	k := c.Fresh("k", 64)
	// initial classification of phis
	forms := make([]closedForm, len(phis))
	complexPhis := []int{}
	for i, p := range phis {
		i := i
		if t, isT := init[i].(*Term); isT && t.sort > 0 {
			if step, ok := constStep(x, p, lp); ok {
				forms[i] = func(k *Term) Value {
					return c.Add(t, c.Mul(c.Resize(k, t.sort), c.BV(t.sort, uint64(step))))
				}
				continue
			}
		}
		complexPhis = append(complexPhis, i)
	}
	// trip count using the affine phis
	x.quiet++
	envT := copyEnv(f.env)
	saveEnv := f.env
	f.env = envT
	for i, p := range phis {
		if forms[i] != nil {
			envT[p] = forms[i](k)
		} else {
			envT[p] = x.freshLike(init[i], "phi")
			if envT[p] == nil {
				envT[p] = init[i]
			}
		}
	}
	stT := st.clone()
	ct := x.runHeader(f, lp, cond, arm, stT)
	x.quiet--
	f.env = saveEnv
	trip := x.tripCount(st, ct, k)
	if trip == nil {
		return x.failSummary(f, lp, "no trip count for %s", describe(ct))
	}
	if isConst(trip) && trip.k <= uint64(x.unrollMax()) {
		return nil, false
	}
	if x.env.noSummary {
		return nil, false
	}

	bodyStart := lp.header.Succs[arm]
	exitBlk := lp.header.Succs[1-arm]
	var exits []*Term // conditions under which the generic iteration leaves the loop

	// runIter executes a generic iteration with the given phi values.
	g0 := x.ghosts(st)
	var gforms [nGhost]closedForm
	var gsym [nGhost]*Term
	runIter := func(vals []Value, cx *loopCtx, quiet bool) (latch Outcome, hasLatch bool) {
		if quiet {
			x.quiet++
			defer func() { x.quiet-- }()
		}
		s := st.clone()
		for i := range gforms {
			if gforms[i] != nil {
				s.ghost[i] = gforms[i](k).(*Term)
			} else if gsym[i] != nil {
				s.ghost[i] = gsym[i]
			}
		}
		s.assume(c.Ult(k, trip), false)
		cx.base = st.facts
		cx.snap = st.mem
		x.ctxs = append(x.ctxs, cx)
		x.gen = append(x.gen, k)
		saved := f.env
		defer func() {
			x.ctxs = x.ctxs[:len(x.ctxs)-1]
			x.gen = x.gen[:len(x.gen)-1]
			f.env = saved
		}()
		f.env = copyEnv(saved)
		for i, p := range phis {
			f.env[p] = vals[i]
		}
		cc := x.runHeader(f, lp, cond, arm, s)
		s.assume(cc, false)
		base := s
		outs := []Outcome{{kind: 0, blk: lp.header, prev: lp.header, st: s.clone(), env: f.env}}
		if bodyStart != lp.header {
			outs = x.run(f, bodyStart, lp.header, s.clone(), lp.stops())
		}
		var back []Outcome
		exits = nil
		for _, o := range outs {
			if o.kind == 0 && o.blk == lp.header {
				back = append(back, o)
			} else {
				// an exit from the middle of the body
				if !x.p.Prove(o.st.factList(), c.F) {
					exits = append(exits, guardSince(c, o.st, base.facts))
				}
			}
		}
		if len(back) == 0 {
			bail("loop body never reaches the next iteration")
		}
		m := x.mergeAt(f, base, lp.header, back, f.env)
		return m, true
	}
	newCtx := func() *loopCtx {
		x.ctxN++
		return &loopCtx{id: x.ctxN, havoc: map[string]bool{}, rset: map[string]bool{}}
	}

	// resolve complex phis
	if lp.streams(x) {
		for i := range gsym {
			gsym[i] = c.Fresh("ghost", g0[i].sort)
		}
	}
	if len(complexPhis) > 0 || gsym[0] != nil {
		vals := make([]Value, len(phis))
		sym := map[int]Value{}
		for i := range phis {
			if forms[i] != nil {
				vals[i] = forms[i](k)
				continue
			}
			v := x.freshLike(init[i], "phi")
			if v == nil {
				v = init[i]
			}
			sym[i] = v
			vals[i] = v
		}
		latch, _ := runIter(vals, newCtx(), true)
		subs := x.unfail(latch.st)
		symVars := map[*Term]bool{}
		for _, g := range gsym {
			if g != nil {
				symVars[g] = true
			}
		}
		for _, v := range sym {
			for _, t := range leafTerms(v) {
				if t.op == OVar {
					symVars[t] = true
				}
			}
		}
		mentions := func(t *Term) bool {
			for v := range symVars {
				if c.occurs(v, t) {
					return true
				}
			}
			return false
		}
		pending := map[int]bool{}
		for _, i := range complexPhis {
			pending[i] = true
		}
		gpending := 0
		if gsym[0] != nil {
			gpending = nGhost
		}
		for progress := true; progress && len(pending)+gpending > 0; {
			progress = false
			for i := range gsym {
				if gsym[i] == nil || gforms[i] != nil {
					continue
				}
				nv := c.Subst(c.Subst(latch.st.ghost[i], subs), x.unfailDeep(latch.st, subs))
				if fm, ok := x.scalarForm(g0[i], gsym[i], nv, k, mentions); ok {
					gforms[i] = fm
					gpending--
					subs[gsym[i]] = fm(k).(*Term)
					delete(symVars, gsym[i])
					for a, b := range subs {
						if b == c.F {
							subs[c.Subst(a, subs)] = b
						}
					}
					progress = true
				}
			}
			keys := []int{}
			for i := range pending {
				keys = append(keys, i)
			}
			sort.Ints(keys)
			for _, i := range keys {
				nv := x.substValue(latch.env[phis[i]], subs)
				if gsym[0] != nil {
					nv = x.resolve(latch.st, x.substValue(x.resolve(latch.st, nv), x.unfailDeep(latch.st, subs)))
				}
				fm, ok := x.phiForm(init[i], sym[i], nv, k, trip, mentions)
				if !ok {
					// invariant: if it has the initial value it keeps it
					i0, ok1 := init[i].(*Term)
					s0, ok2 := sym[i].(*Term)
					n0, ok3 := nv.(*Term)
					if ok1 && ok2 && ok3 && s0.op == OVar && x.decide(st, c.Eq(c.Subst(n0, Subst{s0: i0}), i0)) == 1 {
						fm, ok = func(*Term) Value { return i0 }, true
					}
				}
				if ok {
					forms[i] = fm
					delete(pending, i)
					// substitute into the others
					cf := fm(k)
					for a, b := range pairTerms(sym[i], cf) {
						subs[a] = b
						delete(symVars, a)
					}
					progress = true
				}
			}
		}
		if len(pending) > 0 && x.anyPhi {
			// carried values without a closed form: arbitrary after the first iteration
			for i := range pending {
				i0, ok := init[i].(*Term)
				if !ok {
					continue
				}
				x.allocN++
				nm := fmt.Sprintf("phi!%d", x.allocN)
				gen := append([]*Term{}, x.gen...)
				forms[i] = func(kk *Term) Value {
					return c.Ite(c.Eq(kk, c.Int(0)), i0, c.App(nm, i0.sort, append(append([]*Term{}, gen...), kk)...))
				}
				delete(pending, i)
			}
		}
		if len(pending) > 0 {
			for i := range pending {
				return x.failSummary(f, lp, "phi %s (%s) has no closed form: %v", phis[i].Name(), phis[i].Comment, describe(latch.env[phis[i]]))
			}
		}
	}

	if gsym[0] != nil {
		for i := range gforms {
			if gforms[i] == nil {
				return x.failSummary(f, lp, "stream state %d has no closed form", i)
			}
		}
	}
	vals := make([]Value, len(phis))
	for i := range phis {
		vals[i] = forms[i](k)
	}
	setGhosts := func(s *State, k *Term) {
		for i := range gforms {
			if gforms[i] != nil {
				s.ghost[i] = gforms[i](k).(*Term)
			}
		}
	}

	// first pass: optimistic (no interference)
	cx := newCtx()
	oblMark, failMark, panMark := len(x.obl), x.failed, len(x.panics)
	latch, _ := runIter(vals, cx, false)
	havoc := x.interfering(st, latch.st, cx, k, trip)
	if len(havoc) > 0 {
		// discard and redo with the interfering locations havocked
		x.obl, x.failed, x.panics = x.obl[:oblMark], failMark, x.panics[:panMark]
		for round := 0; ; round++ {
			if round > 4 {
				bail("loop interference does not stabilise")
			}
			cx = newCtx()
			for lc := range havoc {
				cx.havoc[lc] = true
			}
			latch, _ = runIter(vals, cx, false)
			h2 := x.interfering(st, latch.st, cx, k, trip)
			grow := false
			for lc := range h2 {
				if !havoc[lc] {
					havoc[lc] = true
					grow = true
				}
			}
			if !grow {
				break
			}
			x.obl, x.failed, x.panics = x.obl[:oblMark], failMark, x.panics[:panMark]
		}
	}
	// lift effects
	if len(exits) > 0 {
		return x.earlyExits(f, lp, phis, forms, setGhosts, cond, arm, st, latch.st, cx, k, trip, exits, func() {
			x.obl, x.failed, x.panics = x.obl[:oblMark], failMark, x.panics[:panMark]
		})
	}
	after := st.clone()
	lifted, why := x.lift(st, latch.st, cx, k, trip, after)
	if !lifted {
		x.obl, x.failed, x.panics = x.obl[:oblMark], failMark, x.panics[:panMark]
		return x.failSummary(f, lp, "%s", why)
	}
	setGhosts(after, trip)
	// panics inside the body mention k: generalise by leaving k free (any iteration)
	// exit: header once more at k = trip
	f.env = copyEnv(f.env)
	for i, p := range phis {
		f.env[p] = forms[i](trip)
	}
	x.quiet++
	x.runHeader(f, lp, cond, arm, after)
	x.quiet--
	return []Outcome{{kind: 0, blk: exitBlk, prev: lp.header, st: after, env: f.env}}, true
}

// earlyExits summarises a loop whose body can leave it. e is the number of
// iterations that stay in the loop: either e = trip, or iteration e leaves.
func (x *Exec) earlyExits(f *Frame, lp *Loop, phis []*ssa.Phi, forms []closedForm, setGhosts func(*State, *Term), cond ssa.Value, arm int, st, iter *State, cx *loopCtx, k, trip *Term, exits []*Term, undo func()) ([]Outcome, bool) {
	c := x.c
	e := c.Fresh("exit", 64)
	if len(x.gen) > 0 {
		e = c.App(fmt.Sprintf("exit!%d", cx.id), 64, append([]*Term{}, x.gen...)...)
	}
	env0 := f.env
	early, normal := st.clone(), st.clone()
	ste := st.clone()
	ste.assume(c.Ule(e, trip), false)
	if lifted, why := x.lift(ste, iter, cx, k, e, early); !lifted {
		undo()
		return x.failSummary(f, lp, "%s", why)
	}
	if lifted, why := x.lift(st, iter, cx, k, trip, normal); !lifted {
		undo()
		return x.failSummary(f, lp, "%s", why)
	}
	setGhosts(early, e)
	setGhosts(normal, trip)
	// no iteration before e leaves
	stay := c.Not(c.Or(exits...))
	old := map[*Term]bool{k: true}
	for _, t := range x.gen {
		old[t] = true
	}
	if x.closedIn(stay, old, cx) {
		if len(x.gen) == 0 {
			x.addSchema([]*Term{k}, stay, c.Implies(c.And(c.Ult(k, e), c.Ule(e, trip)), stay))
		} else if len(x.gen) <= 1 && x.closedIn(trip, old, cx) {
			// e is by definition the number of iterations that stay, whatever the iteration of the outer loops
			vars := append(append([]*Term{}, x.gen...), k)
			x.addSchema(vars, stay, c.And(c.Ule(e, trip), c.Implies(c.Ult(k, e), stay)))
			leaves := c.Implies(c.Ult(e, trip), c.Subst(c.Or(exits...), Subst{k: e}))
			x.addSchema(append([]*Term{}, x.gen...), e, c.And(c.Ule(e, trip), leaves))
		}
	}
	for _, s := range []*State{early, normal} {
		s.assume(c.Ule(e, trip), false)
	}
	early.assume(c.Ult(e, trip), true)
	normal.assume(c.Eq(e, trip), true)
	var res []Outcome
	f.env = copyEnv(env0)
	for i, p := range phis {
		f.env[p] = forms[i](e)
	}
	x.quiet++
	cc := x.runHeader(f, lp, cond, arm, early)
	early.assume(cc, false)
	for _, o := range x.run(f, lp.header.Succs[arm], lp.header, early, lp.stops()) {
		if o.kind == 0 && o.blk == lp.header {
			continue
		}
		if x.p.Prove(o.st.factList(), c.F) {
			continue
		}
		res = append(res, o)
	}
	f.env = copyEnv(env0)
	for i, p := range phis {
		f.env[p] = forms[i](trip)
	}
	x.runHeader(f, lp, cond, arm, normal)
	x.quiet--
	return append(res, Outcome{kind: 0, blk: lp.header.Succs[1-arm], prev: lp.header, st: normal, env: f.env}), true
}

// closedIn reports whether t mentions, besides vars, only symbols that do not
// depend on the iteration.
func (x *Exec) closedIn(t *Term, vars map[*Term]bool, cx *loopCtx) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == OVar && !vars[t] && strings.Contains(t.name, "!") {
			return false
		}
		if t.op == OApp && strings.HasPrefix(t.name, fmt.Sprintf("H%d:", cx.id)) {
			return false
		}
		for _, a := range t.children() {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (x *Exec) failSummary(f *Frame, lp *Loop, fm string, a ...interface{}) ([]Outcome, bool) {
	if x.env.verbose {
		fmt.Printf("    loop at %s: %s\n", x.env.pos(loopPos(lp)), fmt.Sprintf(fm, a...))
	}
	x.lastLoopFail = fmt.Sprintf(fm, a...)
	return nil, false
}

func describe(v Value) string {
	if t, ok := v.(*Term); ok {
		s := t.String()
		if len(s) > 300 {
			s = s[:300]
		}
		return s
	}
	return fmt.Sprintf("%T", v)
}

func constStep(x *Exec, p *ssa.Phi, lp *Loop) (int64, bool) {
	var step int64
	found := false
	for i, pr := range p.Block().Preds {
		if !lp.blocks[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return 0, false
		}
		var k *ssa.Const
		if b.X == p {
			k, _ = b.Y.(*ssa.Const)
		} else if b.Y == p && b.Op == token.ADD {
			k, _ = b.X.(*ssa.Const)
		}
		if k == nil || !isInteger(k.Type()) {
			return 0, false
		}
		t := x.constVal(k).(*Term)
		s := sext64(t.k, t.sort)
		if b.Op == token.SUB {
			s = -s
		}
		if found && s != step {
			return 0, false
		}
		step, found = s, true
	}
	return step, found
}

// freshLike makes a symbolic value of the same shape for scalar values.
func (x *Exec) freshLike(v Value, pfx string) Value {
	switch v := v.(type) {
	case *Term:
		return x.c.Fresh(pfx, v.sort)
	case Cplx:
		return Cplx{x.c.Fresh(pfx, SReal), x.c.Fresh(pfx, SReal)}
	}
	return nil
}

func leafTerms(v Value) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case Cplx:
		return []*Term{v.re, v.im}
	}
	return nil
}

func pairTerms(a, b Value) map[*Term]*Term {
	r := map[*Term]*Term{}
	la, lb := leafTerms(a), leafTerms(b)
	if len(la) == len(lb) {
		for i := range la {
			if la[i].op == OVar {
				r[la[i]] = lb[i]
			}
		}
	}
	return r
}

// phiForm finds the closed form of a phi from its value after one iteration.
func (x *Exec) phiForm(init, sym, nv Value, k, trip *Term, mentions func(*Term) bool) (closedForm, bool) {
	c := x.c
	switch s := sym.(type) {
	case *Term:
		n, ok := nv.(*Term)
		if !ok {
			return nil, false
		}
		return x.scalarForm(init.(*Term), s, n, k, mentions)
	case Cplx:
		n, ok := nv.(Cplx)
		if !ok {
			return nil, false
		}
		i := init.(Cplx)
		a, ok1 := x.scalarForm(i.re, s.re, n.re, k, mentions)
		b, ok2 := x.scalarForm(i.im, s.im, n.im, k, mentions)
		if !ok1 || !ok2 {
			return nil, false
		}
		return func(k *Term) Value { return Cplx{a(k).(*Term), b(k).(*Term)} }, true
	}
	if x.sameValue(init, nv) {
		return func(*Term) Value { return init }, true
	}
	_ = c
	return nil, false
}

func (x *Exec) scalarForm(init, s, n, k *Term, mentions func(*Term) bool) (closedForm, bool) {
	c := x.c
	if n == s {
		return func(*Term) Value { return init }, true
	}
	if !mentions(n) {
		// value of the previous iteration
		return func(kk *Term) Value {
			prev := c.Subst(n, Subst{k: c.Sub(kk, c.Int(1))})
			return c.Ite(c.Eq(kk, c.Int(0)), init, prev)
		}, true
	}
	if s.sort == SBool {
		return nil, false
	}
	d := x.subDeep(n, s)
	if d != nil && !mentions(d) {
		return func(kk *Term) Value {
			j := c.Fresh("j", 64)
			return c.Add(init, c.Sum(j, kk, c.Subst(d, Subst{k: j})))
		}, true
	}
	if s.sort > 0 {
		// geometric
		if n.op == OPoly && len(n.mons) == 1 && len(n.mons[0].atoms) == 1 && n.mons[0].atoms[0] == s {
			if sh, ok := log2exact(n.mons[0].c); ok {
				return func(kk *Term) Value {
					return c.Bin(OShl, init, c.Mul(c.Resize(kk, s.sort), c.BV(s.sort, uint64(sh))))
				}, true
			}
		}
		if n.op == OLshr && n.args[0] == s && isConst(n.args[1]) {
			return func(kk *Term) Value {
				return c.Bin(OLshr, init, c.Mul(c.Resize(kk, s.sort), n.args[1]))
			}, true
		}
	}
	return nil, false
}

// subDeep computes n - s, pushing the subtraction into ites; nil if s remains.
func (x *Exec) subDeep(n, s *Term) *Term {
	c := x.c
	if n.op == OIte {
		a := x.subDeep(x.unifyApps(n.args[1], s, n.args[0]), s)
		b := x.subDeep(n.args[2], s)
		if a == nil || b == nil {
			return nil
		}
		return c.Ite(n.args[0], a, b)
	}
	if n.op == OPoly {
		// a polynomial with one ite atom that contains s
		for _, m := range n.mons {
			if len(m.atoms) == 1 && m.atoms[0].op == OIte && c.occurs(s, m.atoms[0]) {
				it := m.atoms[0]
				na := c.Subst(n, Subst{it: it.args[1]})
				nb := c.Subst(n, Subst{it: it.args[2]})
				return c.Ite(it.args[0], x.subDeepN(na, s), x.subDeepN(nb, s))
			}
		}
	}
	return c.Sub(n, s)
}

// unifyApps rewrites applications that equal s under the equalities in cond.
func (x *Exec) unifyApps(t, s, cond *Term) *Term {
	if s.op != OApp || len(s.args) == 0 {
		return t
	}
	c := x.c
	eq := map[[2]*Term]bool{}
	var conj func(q *Term)
	conj = func(q *Term) {
		switch q.op {
		case OAnd:
			for _, a := range q.args {
				conj(a)
			}
		case OEq:
			eq[[2]*Term{q.args[0], q.args[1]}] = true
			eq[[2]*Term{q.args[1], q.args[0]}] = true
		}
	}
	conj(cond)
	sub := Subst{}
	seen := map[*Term]bool{}
	var visit func(q *Term)
	visit = func(q *Term) {
		if seen[q] {
			return
		}
		seen[q] = true
		if q.op == OApp && q != s && q.name == s.name && len(q.args) == len(s.args) {
			ok := true
			for i := range q.args {
				ok = ok && (q.args[i] == s.args[i] || eq[[2]*Term{q.args[i], s.args[i]}])
			}
			if ok {
				sub[q] = s
			}
		}
		for _, a := range q.children() {
			visit(a)
		}
	}
	visit(t)
	if len(sub) == 0 {
		return t
	}
	return c.Subst(t, sub)
}

func (x *Exec) subDeepN(n, s *Term) *Term {
	r := x.subDeep(n, s)
	if r == nil {
		return x.c.Sub(n, s)
	}
	return r
}

// overwritten splits the value e that iteration k leaves at a location of old content h into the region (a
// condition free of k) where the iteration may store something else, and what it adds elsewhere.
func (x *Exec) overwritten(e, h *Term, hp string, k *Term) (over, acc *Term, ok bool) {
	c := x.c
	region := func(q *Term) *Term {
		if hasPrefixApp(c, q, hp) {
			return c.T
		}
		if q.op != OAnd {
			if c.occurs(k, q) {
				return c.T
			}
			return q
		}
		var fs []*Term
		for _, a := range q.args {
			if !c.occurs(k, a) {
				fs = append(fs, a)
			}
		}
		return c.And(fs...)
	}
	if !hasPrefixApp(c, e, hp) {
		return c.T, c.zero(e.sort), true
	}
	if d := x.subDeepN(e, h); !hasPrefixApp(c, d, hp) {
		return c.F, d, true
	}
	if e.op == OIte {
		q := e.args[0]
		oa, da, ok1 := x.overwritten(x.unifyApps(e.args[1], h, q), h, hp, k)
		ob, db, ok2 := x.overwritten(e.args[2], h, hp, k)
		if ok1 && ok2 {
			qa, qb := region(q), region(c.Not(q))
			if c.occurs(k, da) || c.occurs(k, q) || da != db {
				da = c.Ite(q, da, db)
			}
			return c.Or(c.And(qa, oa), c.And(qb, ob)), da, true
		}
	}
	return nil, nil, false
}

// interfering returns the location classes that some iteration may read after
// an earlier iteration wrote them.
func (x *Exec) interfering(st0, st1 *State, cx *loopCtx, k, trip *Term) map[string]bool {
	c := x.c
	res := map[string]bool{}
	k2 := c.Fresh("k", 64)
	for _, rd := range cx.reads {
		if res[rd.lc] || cx.havoc[rd.lc] {
			continue
		}
		ls := layersSince(st1.mem[rd.lc], cx.snap[rd.lc])
		for _, l := range ls {
			sub := Subst{k: k2}
			var eqs []*Term
			for _, v := range l.vars {
				fv := c.Fresh("b", 64)
				sub[v.v] = fv
			}
			for _, v := range l.vars {
				if v.n != nil {
					eqs = append(eqs, c.Ult(sub[v.v], c.Subst(v.n, sub)))
				}
			}
			bad := false
			for i := range rd.idx {
				e := c.Eq(rd.idx[i], c.Subst(l.idx[i], sub))
				if e == c.F {
					bad = true
				}
				eqs = append(eqs, e)
			}
			if bad {
				continue
			}
			eqs = append(eqs, c.Subst(l.guard, sub), c.Ult(k2, k), c.Ult(k, trip), rd.miss)
			fs := append(st0.factList(), rd.facts...)
			if !x.p.Prove(fs, c.Not(c.And(eqs...))) {
				res[rd.lc] = true
				if x.env.verbose {
					fmt.Printf("    interference on %s: read %v after write %v\n", rd.lc, rd.idx, l.idx)
				}
				break
			}
		}
	}
	return res
}

func hasPrefixApp(c *Ctx, t *Term, pfx string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if (t.op == OApp || t.op == OVar) && len(t.name) > len(pfx) && t.name[:len(pfx)] == pfx {
			return true
		}
		for _, a := range t.children() {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func valueTerms(v Value) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case Cplx:
		return []*Term{v.re, v.im}
	case Slice:
		r := append([]*Term{}, v.idx...)
		return append(r, v.off, v.len, v.cap, v.nil_)
	case Ptr:
		r := append([]*Term{}, v.a.idx...)
		if v.hi != nil {
			r = append(r, v.hi)
		}
		return r
	case *Struct:
		var r []*Term
		for _, f := range v.fs {
			r = append(r, valueTerms(f)...)
		}
		return r
	case *ArrV:
		var r []*Term
		for _, f := range v.els {
			r = append(r, valueTerms(f)...)
		}
		return r
	case Tuple:
		var r []*Term
		for _, f := range v {
			r = append(r, valueTerms(f)...)
		}
		return r
	case Choice:
		return append(append([]*Term{v.c}, valueTerms(v.a)...), valueTerms(v.b)...)
	case Opaque:
		return v.idx
	case Iface:
		if v.val != nil {
			return valueTerms(v.val)
		}
	}
	return nil
}

// lift adds to after the effect of all iterations.
func (x *Exec) lift(st0, st1 *State, cx *loopCtx, k, trip *Term, after *State) (bool, string) {
	c := x.c
	hp := fmt.Sprintf("H%d:", cx.id)
	var lcs []string
	for lc := range st1.mem {
		if st1.mem[lc] != cx.snap[lc] {
			lcs = append(lcs, lc)
		}
	}
	sort.Strings(lcs)
	pos := c.Ult(c.Int(0), trip)
	// accumulators first: closed forms of havocked content
	type accum struct {
		vars  []*Term
		delta Value
		typ   types.Type
	}
	prefix := map[string]func(idx []*Term, upto *Term) Value{}
	private, shared := map[string][]*Layer{}, map[string][]*Layer{}
	for _, lc := range lcs {
		if !cx.havoc[lc] {
			continue
		}
		ls := layersSince(st1.mem[lc], cx.snap[lc])
		chain := st1.mem[lc]
		if as, ps := splitPrivate(c, ls, k); len(as) > 0 && len(ps) > 0 {
			// some locations are shared by all iterations, some belong to one iteration each
			if why := x.separable(st0, as, ps, lc, cx, k, trip); why != "" {
				return false, why
			}
			private[lc] = ps
			shared[lc] = as
			ls = as
			chain = cx.snap[lc]
			for i := len(as) - 1; i >= 0; i-- {
				n := *as[i]
				n.parent = chain
				chain = &n
			}
		}
		arity := len(ls[0].idx)
		r := make([]*Term, arity)
		for i := range r {
			r[i] = c.Fresh("r", 64)
		}
		t := typeOfValue(ls[0].val)
		if t == nil {
			return false, fmt.Sprintf("accumulation of %T at %s", ls[0].val, lc)
		}
		// read the iteration result pointwise with the havocked base
		x.ctxs = append(x.ctxs, cx)
		save := cx.reads
		e := x.readFrom(&State{mem: st1.mem, facts: st1.facts}, chain, Addr{lc, r}, t, c.T)
		cx.reads = save
		x.ctxs = x.ctxs[:len(x.ctxs)-1]
		h := x.initValue(cx.hname(lc), r, t)
		les, lhs := leafTerms(e), leafTerms(h)
		if len(les) == 0 || len(les) != len(lhs) {
			return false, fmt.Sprintf("accumulation of %T at %s", e, lc)
		}
		var deltas []*Term
		isAcc := true
		for i := range les {
			d := x.subDeepN(les[i], lhs[i])
			if hasPrefixApp(c, d, hp) {
				isAcc = false
				break
			}
			deltas = append(deltas, d)
		}
		lc := lc
		rv := r
		if isAcc {
			prefix[lc] = func(idx []*Term, upto *Term) Value {
				sub := Subst{}
				for i := range rv {
					sub[rv[i]] = idx[i]
				}
				x.ctxs = append(x.ctxs, &loopCtx{off: true})
				base := leafTerms(x.readFrom(st0, st0.mem[lc], Addr{lc, idx}, t, c.T))
				x.ctxs = x.ctxs[:len(x.ctxs)-1]
				var out []*Term
				for i, d := range deltas {
					j := c.Fresh("j", 64)
					dd := c.Subst(d, sub)
					out = append(out, c.Add(base[i], c.Sum(j, upto, c.Subst(dd, Subst{k: j}))))
				}
				if len(out) == 2 {
					return Cplx{out[0], out[1]}
				}
				return out[0]
			}
			continue
		}
		// some locations are overwritten by some iterations: their content is left open
		if len(les) == 1 {
			over, acc, ok := x.overwritten(les[0], lhs[0], hp, k)
			if ok && over != c.F {
				x.allocN++
				name := fmt.Sprintf("ow%d:%s", x.allocN, lc)
				gen := append([]*Term{}, x.gen...)
				prefix[lc] = func(idx []*Term, upto *Term) Value {
					sub := Subst{}
					for i := range rv {
						sub[rv[i]] = idx[i]
					}
					x.ctxs = append(x.ctxs, &loopCtx{off: true})
					base := leafTerms(x.readFrom(st0, st0.mem[lc], Addr{lc, idx}, t, c.T))[0]
					x.ctxs = x.ctxs[:len(x.ctxs)-1]
					j := c.Fresh("j", 64)
					open := leafTerms(x.initValue(name, append(append(append([]*Term{}, gen...), idx...), upto), t))[0]
					sum := c.Add(base, c.Sum(j, upto, c.Subst(c.Subst(acc, sub), Subst{k: j})))
					return c.Ite(c.Subst(over, sub), open, sum)
				}
				continue
			}
		}
		return false, fmt.Sprintf("recurrence at %s: %s", lc, describe(e))
	}
	replaceH := func(v Value) (Value, bool) {
		if len(prefix) == 0 {
			for _, t := range valueTerms(v) {
				if hasPrefixApp(c, t, hp) {
					return v, false
				}
			}
			return v, true
		}
		sub := Subst{}
		var visit func(t *Term, seen map[*Term]bool) bool
		visit = func(t *Term, seen map[*Term]bool) bool {
			if seen[t] {
				return true
			}
			seen[t] = true
			if t.op == OApp && len(t.name) > len(hp) && t.name[:len(hp)] == hp {
				if len(c.freeBounds(t)) > 0 {
					return false
				}
				lc := t.name[len(hp):]
				part := 0
				if len(lc) > 3 && (lc[len(lc)-3:] == ".re" || lc[len(lc)-3:] == ".im") {
					if _, ok := prefix[lc]; !ok {
						if lc[len(lc)-3:] == ".im" {
							part = 1
						}
						lc = lc[:len(lc)-3]
					}
				}
				pf, ok := prefix[lc]
				if !ok {
					return false
				}
				sub[t] = leafTerms(pf(t.args, k))[part]
				return true
			}
			for _, a := range t.children() {
				if !visit(a, seen) {
					return false
				}
			}
			return true
		}
		for _, t := range valueTerms(v) {
			if !visit(t, map[*Term]bool{}) {
				return v, false
			}
		}
		return x.substValue(v, sub), true
	}
	pushPrivate := func(lc string, ls []*Layer) (bool, string) {
		for i, l := range ls {
			nl := &Layer{vars: append(append([]BVar{}, l.vars...), BVar{k, trip}), guard: l.guard, idx: l.idx, val: l.val}
			test := make([]*Term, len(l.idx))
			for j := range test {
				test[j] = c.Fresh("q", 64)
			}
			if _, _, _, ok := x.trySolve(nl, test); !ok {
				return false, fmt.Sprintf("write index %v at %s not invertible", l.idx, lc)
			}
			for j := 0; j < i; j++ {
				if !x.disjointAcross(st0, ls[i], ls[j], k, trip) {
					return false, fmt.Sprintf("writes %v and %v at %s overlap across iterations", ls[i].idx, ls[j].idx, lc)
				}
			}
			v, ok := replaceH(l.val)
			if !ok {
				return false, "value depends on an unsolved recurrence"
			}
			g, ok := replaceH(l.guard)
			if !ok {
				return false, "guard depends on an unsolved recurrence"
			}
			nl.val, nl.guard = v, g.(*Term)
			x.pushLayer(after, lc, nl)
		}
		return true, ""
	}
	for _, lc := range lcs {
		ls := layersSince(st1.mem[lc], cx.snap[lc])
		if ps := private[lc]; ps != nil {
			if ok, why := pushPrivate(lc, ps); !ok {
				return false, why
			}
			ls = shared[lc]
		}
		if cx.havoc[lc] {
			arity := len(ls[0].idx)
			local := true // the touched locations are the same in every iteration
			for _, l := range ls {
				for _, e := range l.idx {
					local = local && !c.occurs(k, e)
				}
				for _, b := range l.vars {
					local = local && (b.n == nil || !c.occurs(k, b.n))
				}
			}
			if local {
				var nls []*Layer
				for _, l := range ls {
					nls = append(nls, &Layer{vars: l.vars, guard: c.T, idx: l.idx, val: prefix[lc](l.idx, trip)})
				}
				for _, nl := range nls {
					x.pushLayer(after, lc, nl)
				}
				continue
			}
			if private[lc] != nil {
				return false, "shared locations of a mixed loop vary"
			}
			var vars []BVar
			idx := make([]*Term, arity)
			for i := range idx {
				idx[i] = c.Fresh("r", 64)
				vars = append(vars, BVar{idx[i], nil})
			}
			x.pushLayer(after, lc, &Layer{vars: vars, guard: c.T, idx: idx, val: prefix[lc](idx, trip)})
			continue
		}
		if x.privateRoot(lc, k) {
			// storage allocated inside the iteration: indexed by k already
		}
		// classify
		nk := 0
		for _, l := range ls {
			for _, e := range l.idx {
				if c.occurs(k, e) {
					nk++
					break
				}
			}
		}
		switch {
		case nk == len(ls):
			// each address belongs to one iteration
			if ok, why := pushPrivate(lc, ls); !ok {
				return false, why
			}
		case nk == 0:
			last := Subst{k: c.Sub(trip, c.Int(1))}
			for _, l := range ls {
				if t := typeOfValue(l.val); c.occurs(k, l.guard) && t != nil {
					// some iterations write here: the content is left open
					x.allocN++
					var nv []BVar
					for _, b := range l.vars {
						if b.n != nil && c.occurs(k, b.n) {
							b.n = nil
						}
						nv = append(nv, b)
					}
					val := x.initValue(fmt.Sprintf("ow%d:%s", x.allocN, lc), append(append([]*Term{}, x.gen...), l.idx...), t)
					x.pushLayer(after, lc, &Layer{vars: nv, guard: c.T, idx: l.idx, val: val})
					continue
				}
				if c.occurs(k, l.guard) {
					// the last iteration must perform the write whenever any does: require guard monotone = constant
					return false, fmt.Sprintf("conditional overwrite at %s when %.300s", lc, l.guard)
				}
				v, ok := replaceH(l.val)
				if !ok {
					return false, "value depends on an unsolved recurrence"
				}
				var nv []BVar
				for _, b := range l.vars {
					n := b.n
					if n != nil && c.occurs(k, n) {
						return false, "overwrite range depends on the iteration"
					}
					nv = append(nv, b)
				}
				x.pushLayer(after, lc, &Layer{vars: nv, guard: c.And(l.guard, pos), idx: l.idx, val: x.substValue(v, last)})
			}
		default:
			return false, fmt.Sprintf("mixed writes at %s", lc)
		}
	}
	return true, ""
}

func (x *Exec) privateRoot(lc string, k *Term) bool { return false }

func (x *Exec) disjointAcross(st *State, a, b *Layer, k, trip *Term) bool {
	c := x.c
	k2 := c.Fresh("k", 64)
	sa, sb := Subst{}, Subst{k: k2}
	var cs []*Term
	for _, v := range a.vars {
		sa[v.v] = c.Fresh("b", 64)
	}
	for _, v := range b.vars {
		sb[v.v] = c.Fresh("b", 64)
	}
	for _, v := range a.vars {
		if v.n != nil {
			cs = append(cs, c.Ult(sa[v.v], c.Subst(v.n, sa)))
		}
	}
	for _, v := range b.vars {
		if v.n != nil {
			cs = append(cs, c.Ult(sb[v.v], c.Subst(v.n, sb)))
		}
	}
	for i := range a.idx {
		e := c.Eq(c.Subst(a.idx[i], sa), c.Subst(b.idx[i], sb))
		if e == c.F {
			return true
		}
		cs = append(cs, e)
	}
	cs = append(cs, c.Subst(a.guard, sa), c.Subst(b.guard, sb), c.Ult(k, trip), c.Ult(k2, trip), c.Not(c.Eq(k, k2)))
	return x.p.Prove(st.factList(), c.Not(c.And(cs...)))
}

func typeOfValue(v Value) types.Type {
	switch v := v.(type) {
	case *Term:
		switch v.sort {
		case SBool:
			return types.Typ[types.Bool]
		case SReal:
			return types.Typ[types.Float64]
		case 8:
			return types.Typ[types.Uint8]
		case 16:
			return types.Typ[types.Uint16]
		case 32:
			return types.Typ[types.Uint32]
		case 64:
			return types.Typ[types.Uint64]
		}
	case Cplx:
		return types.Typ[types.Complex128]
	}
	return nil
}

// splitPrivate separates the layers whose index depends on the iteration.
func splitPrivate(c *Ctx, ls []*Layer, k *Term) (shared, private []*Layer) {
	for _, l := range ls {
		dep := false
		for _, e := range l.idx {
			dep = dep || c.occurs(k, e)
		}
		if dep {
			private = append(private, l)
		} else {
			shared = append(shared, l)
		}
	}
	return
}

// separable: the locations ps belonging to one iteration each are never those
// written as (shared by the iterations), and no iteration reads those of an
// earlier one.
func (x *Exec) separable(st *State, as, ps []*Layer, lc string, cx *loopCtx, k, trip *Term) string {
	c := x.c
	for _, a := range as {
		for _, p := range ps {
			if !x.disjointAcross(st, a, p, k, trip) || !x.disjointSame(st, a, p, k, trip) {
				return fmt.Sprintf("writes %v and %v at %s overlap", a.idx, p.idx, lc)
			}
		}
	}
	k2 := c.Fresh("k", 64)
	for _, rd := range cx.reads {
		if rd.lc != lc {
			continue
		}
		for _, l := range ps {
			sub := Subst{k: k2}
			var eqs []*Term
			for _, v := range l.vars {
				sub[v.v] = c.Fresh("b", 64)
			}
			for _, v := range l.vars {
				if v.n != nil {
					eqs = append(eqs, c.Ult(sub[v.v], c.Subst(v.n, sub)))
				}
			}
			for i := range rd.idx {
				eqs = append(eqs, c.Eq(rd.idx[i], c.Subst(l.idx[i], sub)))
			}
			eqs = append(eqs, c.Subst(l.guard, sub), c.Ult(k2, k), c.Ult(k, trip), rd.miss)
			// a location read for the values of the variable of a sets clause
			for _, t := range rd.idx {
				for v := range c.freeVars(t) {
					if n := x.quantBound[v]; n != nil {
						eqs = append(eqs, c.Ult(v, n))
					}
				}
			}
			if !x.p.Prove(append(st.factList(), rd.facts...), c.Not(c.And(eqs...))) {
				if dbgSchema {
					fmt.Println("SEP", c.Not(c.And(eqs...)))
					for _, f := range append(st.factList(), rd.facts...) {
						fmt.Println("   F", f)
					}
				}
				return fmt.Sprintf("read %v at %s after the write %v of an earlier iteration", rd.idx, lc, l.idx)
			}
		}
	}
	return ""
}

// disjointSame: within one iteration
func (x *Exec) disjointSame(st *State, a, b *Layer, k, trip *Term) bool {
	c := x.c
	sa, sb := Subst{}, Subst{}
	var cs []*Term
	for _, v := range a.vars {
		sa[v.v] = c.Fresh("b", 64)
	}
	for _, v := range b.vars {
		sb[v.v] = c.Fresh("b", 64)
	}
	for _, v := range a.vars {
		if v.n != nil {
			cs = append(cs, c.Ult(sa[v.v], c.Subst(v.n, sa)))
		}
	}
	for _, v := range b.vars {
		if v.n != nil {
			cs = append(cs, c.Ult(sb[v.v], c.Subst(v.n, sb)))
		}
	}
	for i := range a.idx {
		e := c.Eq(c.Subst(a.idx[i], sa), c.Subst(b.idx[i], sb))
		if e == c.F {
			return true
		}
		cs = append(cs, e)
	}
	cs = append(cs, c.Subst(a.guard, sa), c.Subst(b.guard, sb), c.Ult(k, trip))
	return x.p.Prove(st.factList(), c.Not(c.And(cs...)))
}

// unfailDeep is unfail with the substitution applied to the excluded failures.
func (x *Exec) unfailDeep(st *State, sub Subst) Subst {
	r := Subst{}
	for a := range x.unfail(st) {
		r[a] = x.c.F
		r[x.c.Subst(a, sub)] = x.c.F
	}
	return r
}

// streams tells whether the loop (or something it calls) may use a stream.
func (lp *Loop) streams(x *Exec) bool {
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Write" {
				return true
			}
			for _, a := range cc.Args {
				if n, ok := types.Unalias(a.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
					return true
				}
			}
		}
	}
	return false
}
