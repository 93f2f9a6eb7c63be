package main

// Symbolic execution of go/ssa functions (verification condition generation).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	kind string
	pos  string
	ok   bool
	goal string
	fact string
}

type Exec struct {
	countOnly    bool // writes to a stream in loops are counted, their bytes not recorded
	skipBig      bool // loads of large reference-free arrays give a placeholder (freshness walk only)
	c            *Ctx
	p            *Prover
	env          *Env // program-wide: contracts, positions
	zeroRoots    map[string]bool
	pkg          string          // package of the function under proof
	expand       map[string]bool // macros to be expanded
	shares       map[string]bool
	unrollN      int    // unroll limit plus one, or 0
	specSt       *State // the state a contract is read in
	shapes       map[string]func(idx []*Term) *Term
	anyPhi       bool    // loop-carried values without a closed form are arbitrary
	entry        []*Term // the facts at entry
	capIsLen     bool
	ctxs         []*loopCtx
	obl          []Oblig
	failed       int
	quiet        int
	allocN       int
	depth        int
	gen          []*Term // open generic loop variables
	self         *ssa.Function
	panics       []panicRec
	allocs       []string
	calls        map[string]int // contracts relied upon
	deadline     time.Time
	steps        int
	noContract   bool
	ctxN         int
	lastLoopFail string
	solveSt      *State // where the layer being solved is read
	solveMiss    *Term
	quantBound   map[*Term]*Term // number of values of the variable of a sets clause
}

type panicRec struct {
	cond *Term
	pos  string
}

func NewExec(env *Env) *Exec {
	c := NewCtx()
	x := &Exec{c: c, p: NewProver(c), env: env, zeroRoots: map[string]bool{"nil": true}, shapes: map[string]func([]*Term) *Term{}, calls: map[string]int{}}
	return x
}

func sortStrings(s []string) { sort.Strings(s) }

func (x *Exec) oblige(kind string, pos token.Pos, st *State, goal *Term) bool {
	if goal == x.c.T {
		if x.quiet == 0 {
			x.obl = append(x.obl, Oblig{kind: kind, pos: x.env.pos(pos), ok: true})
		}
		return true
	}
	if x.quiet > 0 {
		return true
	}
	ok := x.p.ProveGoal(st.factList(), goal)
	o := Oblig{kind: kind, pos: x.env.pos(pos), ok: ok}
	if !ok {
		x.failed++
		o.goal = goal.String()
		var fs []string
		for _, f := range st.factList() {
			fs = append(fs, f.String())
		}
		o.fact = strings.Join(fs, "\n      ")
	}
	x.obl = append(x.obl, o)
	return ok
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	loops  *LoopInfo
	inUn   map[*ssa.BasicBlock]bool // loops currently being executed iteration by iteration
	fv     []Value
	defers []func(*State)
}

type Outcome struct {
	kind   int // 0 reached block, 1 return
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	st     *State
	env    map[ssa.Value]Value
	ret    Value
	merged bool // phis of blk already evaluated
}

func copyEnv(e map[ssa.Value]Value) map[ssa.Value]Value {
	r := make(map[ssa.Value]Value, len(e)+8)
	for k, v := range e {
		r[k] = v
	}
	return r
}

// callFn executes fn on args; returns the merged return value and state.
// ok is false when no path returns.
func (x *Exec) callFn(fn *ssa.Function, args []Value, fv []Value, st *State) (Value, *State, bool) {
	if fn.Blocks == nil {
		bail("external function %s", fn)
	}
	if x.depth > 40 {
		bail("call depth at %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: x.env.loopInfo(fn), inUn: map[*ssa.BasicBlock]bool{}, fv: fv}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = fv[i]
	}
	base := st
	outs := x.run(f, fn.Blocks[0], nil, st.clone(), nil)
	var ss []*State
	var gs []*Term
	var vs []Value
	for _, o := range outs {
		if o.kind == 1 {
			ss = append(ss, o.st)
			gs = append(gs, guardSince(x.c, o.st, base.facts))
			vs = append(vs, o.ret)
		}
	}
	if len(ss) == 0 {
		return nil, nil, false
	}
	if len(ss) == 1 {
		return vs[0], ss[0], true
	}
	v := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		if v == nil && vs[i] == nil {
			continue
		}
		v = x.iteValue(gs[i], vs[i], v)
	}
	return v, x.merge(base, ss, gs), true
}

// run executes from block b (entered from prev) until a block in stops.
func (x *Exec) run(f *Frame, b, prev *ssa.BasicBlock, st *State, stops map[*ssa.BasicBlock]bool) []Outcome {
	for {
		if !x.deadline.IsZero() && time.Now().After(x.deadline) {
			bail("time budget exhausted in %s", f.fn)
		}
		if stops[b] {
			return []Outcome{{kind: 0, blk: b, prev: prev, st: st, env: f.env}}
		}
		if lp := f.loops.header[b]; lp != nil && !f.inUn[b] {
			outs := x.loop(f, lp, prev, st)
			return x.continueOutcomes(f, outs, stops)
		}
		x.phis(f, b, prev, st)
		outs, next := x.block(f, b, st, stops)
		if next == nil {
			return outs
		}
		prev, b = b, next
	}
}

// continueOutcomes continues each outcome of a loop, merging those that reach the same block.
func (x *Exec) continueOutcomes(f *Frame, outs []Outcome, stops map[*ssa.BasicBlock]bool) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.kind == 1 {
			res = append(res, o)
			continue
		}
		f.env = o.env
		if stops[o.blk] {
			res = append(res, o)
			continue
		}
		if o.merged {
			if lp := f.loops.header[o.blk]; lp != nil && !f.inUn[o.blk] {
				res = append(res, x.continueOutcomes(f, x.loopMerged(f, lp, o.st), stops)...)
				continue
			}
			outs, next := x.block(f, o.blk, o.st, stops)
			if next != nil {
				outs = x.run(f, next, o.blk, o.st, stops)
			}
			res = append(res, outs...)
			continue
		}
		res = append(res, x.run(f, o.blk, o.prev, o.st, stops)...)
	}
	return res
}

func (x *Exec) phis(f *Frame, b, prev *ssa.BasicBlock, st *State) {
	if prev == nil {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.val(f, p.Edges[k]))
	}
	for i, p := range ps {
		f.env[p] = vals[i]
	}
}

// block executes the non-phi instructions of b; returns next block for a simple jump,
// or outcomes when control forks or ends.
func (x *Exec) block(f *Frame, b *ssa.BasicBlock, st *State, stops map[*ssa.BasicBlock]bool) ([]Outcome, *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return nil, b.Succs[0]
		case *ssa.Return:
			var v Value
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(f, in.Results[0])
			default:
				t := Tuple{}
				for _, r := range in.Results {
					t = append(t, x.val(f, r))
				}
				v = t
			}
			return []Outcome{{kind: 1, st: st, ret: v}}, nil
		case *ssa.Panic:
			x.panicAt(in.Pos(), st)
			return nil, nil
		case *ssa.If:
			cv := x.val(f, in.Cond)
			ct, ok := cv.(*Term)
			if !ok {
				bail("branch on %T at %s", cv, x.env.pos(in.Cond.Pos()))
			}
			switch x.decide(st, ct) {
			case 1:
				return nil, b.Succs[0]
			case -1:
				return nil, b.Succs[1]
			}
			return x.fork(f, b, ct, st, stops)
		default:
			if !x.instr(f, in, st) {
				return nil, nil
			}
		}
	}
	bail("block without terminator")
	return nil, nil
}

func (x *Exec) panicAt(pos token.Pos, st *State) {
	if x.quiet > 0 {
		return
	}
	fs := st.factList()
	if x.p.Prove(fs, x.c.F) {
		return
	}
	x.panics = append(x.panics, panicRec{x.c.And(fs...), x.env.pos(pos)})
}

func (x *Exec) fork(f *Frame, b *ssa.BasicBlock, ct *Term, st *State, stops map[*ssa.BasicBlock]bool) ([]Outcome, *ssa.BasicBlock) {
	join := f.loops.ipdom[b]
	if join != nil && stops[join] {
		// run arms to the enclosing stop; merging is done by the caller
	}
	base := st
	env0 := f.env
	var outs []Outcome
	s2 := map[*ssa.BasicBlock]bool{}
	for k := range stops {
		s2[k] = true
	}
	if join != nil {
		s2[join] = true
	}
	for arm := 0; arm < 2; arm++ {
		s := base.clone()
		cnd := ct
		if arm == 1 {
			cnd = x.c.Not(ct)
		}
		s.assume(cnd, true)
		f.env = copyEnv(env0)
		outs = append(outs, x.run(f, b.Succs[arm], b, s, s2)...)
	}
	f.env = env0
	if join == nil {
		return outs, nil
	}
	var rest []Outcome
	var at []Outcome
	for _, o := range outs {
		if o.kind == 0 && o.blk == join {
			at = append(at, o)
		} else {
			rest = append(rest, o)
		}
	}
	if len(at) == 0 {
		return rest, nil
	}
	m := x.mergeAt(f, base, join, at, env0)
	if stops[join] {
		// phis at a stop block are evaluated by whoever asked for the stop
		if len(at) == 1 {
			return append(rest, at[0]), nil
		}
		return append(rest, Outcome{kind: 0, blk: join, prev: nil, st: m.st, env: m.env, merged: true}), nil
	}
	f.env = m.env
	// continue after the join without re-evaluating phis
	if lp := f.loops.header[join]; lp != nil && !f.inUn[join] {
		// the join is itself a loop header: its entry phis were merged in m.env
		lo := x.loopMerged(f, lp, m.st)
		return append(rest, x.continueOutcomes(f, lo, stops)...), nil
	}
	o2, next := x.block(f, join, m.st, stops)
	if next != nil {
		return append(rest, x.run(f, next, join, m.st, stops)...), nil
	}
	return append(rest, o2...), nil
}

// mergeAt joins outcomes that reach block j; phi values of j are put in the environment.
func (x *Exec) mergeAt(f *Frame, base *State, j *ssa.BasicBlock, at []Outcome, env0 map[ssa.Value]Value) Outcome {
	var ss []*State
	var gs []*Term
	for _, o := range at {
		ss = append(ss, o.st)
		gs = append(gs, guardSince(x.c, o.st, base.facts))
	}
	env := copyEnv(env0)
	// phi values per outcome
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Value
		for i := len(at) - 1; i >= 0; i-- {
			o := at[i]
			var pv Value
			if o.prev == nil {
				pv = o.env[p]
			} else {
				fe := f.env
				f.env = o.env
				for k, pr := range j.Preds {
					if pr == o.prev {
						pv = x.val(f, p.Edges[k])
					}
				}
				f.env = fe
			}
			if i == len(at)-1 {
				v = pv
			} else {
				v = x.iteValue(gs[i], pv, v)
			}
		}
		env[p] = v
	}
	var st *State
	if len(at) == 1 {
		st = at[0].st
		// values defined on the single surviving arm may be used after the join only through phis
	} else {
		st = x.merge(base, ss, gs)
	}
	return Outcome{kind: 0, blk: j, st: st, env: env}
}

// ---------- values ----------

func (x *Exec) val(f *Frame, v ssa.Value) Value {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Closure{fn: v}
	case *ssa.Global:
		return Ptr{a: Addr{"g:" + v.Pkg.Pkg.Name() + "/" + v.Name(), nil}, typ: v.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return Opaque{name: "builtin:" + v.Name()}
	}
	bail("undefined value %s (%T) in %s", v.Name(), v, f.fn)
	return nil
}

func (x *Exec) constVal(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return x.zeroValue(t)
	}
	c := x.c
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return c.Bool(constant.BoolVal(v.Value))
		case b.Info()&types.IsString != 0:
			return Str(constant.StringVal(v.Value))
		case b.Info()&types.IsInteger != 0:
			w := widthOf(t)
			iv := constant.ToInt(v.Value)
			if u, ok := constant.Uint64Val(iv); ok {
				return c.BV(w, u)
			}
			if i, ok := constant.Int64Val(iv); ok {
				return c.BV(w, uint64(i))
			}
		case b.Info()&types.IsFloat != 0:
			return c.Rat(ratOf(v.Value))
		case b.Info()&types.IsComplex != 0:
			return Cplx{c.Rat(ratOf(constant.Real(v.Value))), c.Rat(ratOf(constant.Imag(v.Value)))}
		}
	}
	if _, ok := under(t).(*types.Interface); ok {
		return Opaque{name: "const:" + v.String(), typ: t}
	}
	bail("constant %s", v)
	return nil
}

func ratOf(v constant.Value) *big.Rat {
	v = constant.ToFloat(v)
	if r, ok := new(big.Rat).SetString(v.ExactString()); ok {
		return r
	}
	f, _ := constant.Float64Val(v)
	return new(big.Rat).SetFloat64(f)
}

func (x *Exec) term(f *Frame, v ssa.Value) *Term {
	r := x.val(f, v)
	t, ok := r.(*Term)
	if !ok {
		bail("expected scalar for %s, got %T", v, r)
	}
	return t
}

// asInt widens an integer value to 64 bits according to its type.
func (x *Exec) asInt(t *Term, typ types.Type) *Term {
	if t.sort == 64 {
		return t
	}
	if isUnsigned(typ) {
		return x.c.Zext(t, 64)
	}
	return x.c.Sext(t, 64)
}

func (x *Exec) newRoot(pfx string, zero bool) string {
	x.allocN++
	n := fmt.Sprintf("%s@%d", pfx, x.allocN)
	x.zeroRoots[n] = zero
	x.allocs = append(x.allocs, n)
	return n
}

// instr executes one instruction; false means the path ends here.
func (x *Exec) instr(f *Frame, in ssa.Instruction, st *State) bool {
	c := x.c
	switch in := in.(type) {
	case *ssa.Alloc:
		n := x.newRoot("new", true)
		f.env[in] = Ptr{a: Addr{n, append([]*Term{}, x.gen...)}, typ: in.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.BinOp:
		f.env[in] = x.binop(in.Op, x.resolve(st, x.val(f, in.X)), x.resolve(st, x.val(f, in.Y)), in.X.Type(), in.Y.Type(), st, in.Pos())
	case *ssa.UnOp:
		f.env[in] = x.unop(f, in, st)
	case *ssa.Convert:
		f.env[in] = x.convert(st, x.val(f, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.env[in] = x.convert(st, x.val(f, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		v := x.val(f, in.X)
		if s, ok := v.(*Struct); ok {
			v = &Struct{typ: in.Type(), fs: s.fs}
		}
		f.env[in] = v
	case *ssa.ChangeInterface:
		f.env[in] = x.val(f, in.X)
	case *ssa.MakeInterface:
		f.env[in] = Iface{typ: in.X.Type(), val: x.val(f, in.X)}
	case *ssa.MakeClosure:
		cl := Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.binds = append(cl.binds, x.val(f, b))
		}
		f.env[in] = cl
	case *ssa.Extract:
		t, ok := x.val(f, in.Tuple).(Tuple)
		if !ok {
			bail("extract from %T", x.val(f, in.Tuple))
		}
		f.env[in] = t[in.Index]
	case *ssa.Field:
		v := x.resolve(st, x.val(f, in.X))
		f.env[in] = x.fieldOf(v, in.Field)
	case *ssa.FieldAddr:
		f.env[in] = x.fieldAddr(st, x.val(f, in.X), in.X.Type(), in.Field, in.Pos())
	case *ssa.Index:
		v := x.resolve(st, x.val(f, in.X))
		i := x.asInt(x.term(f, in.Index), in.Index.Type())
		switch v := v.(type) {
		case *ArrV:
			x.oblige("bounds", in.Pos(), st, c.Ult(i, c.Int(int64(len(v.els)))))
			if isConst(i) && int(i.k) < len(v.els) {
				f.env[in] = v.els[i.k]
			} else {
				r := v.els[len(v.els)-1]
				for j := len(v.els) - 2; j >= 0; j-- {
					r = x.iteValue(c.Eq(i, c.Int(int64(j))), v.els[j], r)
				}
				f.env[in] = r
			}
		default:
			bail("index of %T", v)
		}
	case *ssa.IndexAddr:
		f.env[in] = x.indexAddr(st, x.val(f, in.X), in.X.Type(), x.asInt(x.term(f, in.Index), in.Index.Type()), in.Pos())
	case *ssa.MakeSlice:
		n := x.newRoot("make", true)
		ln := x.asInt(x.term(f, in.Len), in.Len.Type())
		cp := x.asInt(x.term(f, in.Cap), in.Cap.Type())
		x.oblige("make-length", in.Pos(), st, c.And(c.Sle(c.Int(0), ln), c.Sle(ln, cp)))
		f.env[in] = Slice{lc: n + "*", idx: append([]*Term{}, x.gen...), off: c.Int(0), len: ln, cap: cp, nil_: c.F, elem: in.Type().Underlying().(*types.Slice).Elem()}
	case *ssa.Slice:
		f.env[in] = x.sliceOp(f, in, st)
	case *ssa.SliceToArrayPointer:
		bail("slice to array pointer")
	case *ssa.Store:
		x.storePtr(st, x.val(f, in.Addr), in.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(f, in.Val), c.T, in.Pos())
	case *ssa.TypeAssert:
		v := x.resolve(st, x.val(f, in.X))
		iv, ok := v.(Iface)
		if !ok || iv.typ == nil {
			if o, isO := v.(Opaque); isO {
				// opaque interface value: outcome unknown
				okT := c.App("typeassert:"+in.AssertedType.String()+":"+o.name, SBool, o.idx...)
				val := x.initValue(o.name+"~"+typeKey(in.AssertedType), o.idx, in.AssertedType)
				if in.CommaOk {
					f.env[in] = Tuple{val, okT}
				} else {
					f.env[in] = val
				}
				return true
			}
			if !ok {
				bail("type assert on %T", v)
			}
		}
		match := false
		if iv.typ != nil {
			if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				match = types.Implements(iv.typ, it)
			} else {
				match = types.Identical(iv.typ, in.AssertedType)
			}
		}
		var r Value
		if match {
			if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				r = iv
			} else {
				r = iv.val
			}
		} else if in.CommaOk {
			r = x.zeroValue(in.AssertedType)
		} else {
			x.panicAt(in.Pos(), st)
			return false
		}
		if in.CommaOk {
			f.env[in] = Tuple{r, c.Bool(match)}
		} else {
			f.env[in] = r
		}
	case *ssa.Call:
		v, ok := x.call(f, in.Common(), st, in.Pos(), in.Type())
		if !ok {
			return false
		}
		f.env[in] = v
	case *ssa.Lookup:
		f.env[in] = x.lookup(f, in, st)
	case *ssa.MakeMap:
		n := x.newRoot("map", true)
		f.env[in] = Opaque{name: n, idx: append([]*Term{}, x.gen...), typ: in.Type()}
	case *ssa.MapUpdate:
		m, ok := x.resolve(st, x.val(f, in.Map)).(Opaque)
		if !ok {
			bail("map update")
		}
		k := x.term(f, in.Key)
		mt := in.Map.Type().Underlying().(*types.Map)
		k = x.asInt(k, mt.Key())
		x.store(st, Addr{m.name + "{}", appendIdx(m.idx, k)}, mt.Elem(), x.val(f, in.Value))
		x.store(st, Addr{m.name + "{?}", appendIdx(m.idx, k)}, types.Typ[types.Bool], c.T)
	case *ssa.RunDefers:
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Range, *ssa.Next, *ssa.MakeChan:
		bail("instruction %T outside the subset", in)
	default:
		bail("instruction %T", in)
	}
	return true
}

func typeKey(t types.Type) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(".*[]^{}", r) {
			return '_'
		}
		return r
	}, t.String())
}

func (x *Exec) lookup(f *Frame, in *ssa.Lookup, st *State) Value {
	m, ok := x.resolve(st, x.val(f, in.X)).(Opaque)
	if !ok {
		bail("lookup in %T", x.val(f, in.X))
	}
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		bail("string index")
	}
	k := x.asInt(x.term(f, in.Index), mt.Key())
	has := x.load(st, Addr{m.name + "{?}", appendIdx(m.idx, k)}, types.Typ[types.Bool]).(*Term)
	v := x.load(st, Addr{m.name + "{}", appendIdx(m.idx, k)}, mt.Elem())
	if in.CommaOk {
		return Tuple{x.iteValue(has, v, x.zeroValue(mt.Elem())), has}
	}
	switch x.decide(st, has) {
	case 1:
		return v
	}
	return x.iteValue(has, v, x.zeroValue(mt.Elem()))
}

func (x *Exec) fieldOf(v Value, i int) Value {
	switch v := v.(type) {
	case *Struct:
		return v.fs[i]
	case Choice:
		return x.iteValue(v.c, x.fieldOf(v.a, i), x.fieldOf(v.b, i))
	}
	bail("field of %T", v)
	return nil
}

func (x *Exec) fieldAddr(st *State, v Value, pt types.Type, field int, pos token.Pos) Value {
	v = x.resolve(st, v)
	switch p := v.(type) {
	case Ptr:
		if p.null {
			x.oblige("nil-dereference", pos, st, x.c.F)
			bail("nil dereference")
		}
		stt := under(pt).(*types.Pointer).Elem()
		fl := under(stt).(*types.Struct).Field(field)
		return Ptr{a: Addr{p.a.lc + "." + fl.Name(), p.a.idx}, typ: fl.Type()}
	case Choice:
		return Choice{p.c, x.fieldAddr(st, p.a, pt, field, pos), x.fieldAddr(st, p.b, pt, field, pos)}
	}
	bail("field address of %T", v)
	return nil
}

func (x *Exec) indexAddr(st *State, v Value, vt types.Type, i *Term, pos token.Pos) Value {
	c := x.c
	v = x.resolve(st, v)
	switch s := v.(type) {
	case Slice:
		if i.sort != 64 {
			bail("index width")
		}
		x.oblige("bounds", pos, st, c.Ult(i, s.len))
		return Ptr{a: s.elemAddr(c, i), typ: s.elem, hi: c.Add(s.off, s.cap)}
	case Ptr:
		if s.null {
			x.oblige("nil-dereference", pos, st, c.F)
			bail("nil dereference")
		}
		at := under(under(vt).(*types.Pointer).Elem()).(*types.Array)
		x.oblige("bounds", pos, st, c.Ult(i, c.Int(at.Len())))
		if s.view {
			return Ptr{a: x.viewElem(s.a, i), typ: at.Elem(), hi: s.hi}
		}
		return Ptr{a: Addr{s.a.lc + "[]", appendIdx(s.a.idx, i)}, typ: at.Elem(), hi: c.Int(at.Len())}
	case Choice:
		return Choice{s.c, x.indexAddr(st, s.a, vt, i, pos), x.indexAddr(st, s.b, vt, i, pos)}
	}
	bail("index address of %T", v)
	return nil
}

func (x *Exec) loadPtr(st *State, v Value, t types.Type, pos token.Pos) Value {
	v = x.resolve(st, v)
	switch p := v.(type) {
	case Ptr:
		if p.null {
			x.oblige("nil-dereference", pos, st, x.c.F)
			bail("nil dereference")
		}
		if p.boff != nil {
			bail("load at a byte offset")
		}
		if p.view {
			if at, ok := under(t).(*types.Array); ok {
				x.oblige("unsafe-bounds", pos, st, x.viewOK(p, at.Len()))
				return x.loadView(st, p.a, at, t)
			}
			bail("view load of %s", t)
		}
		return x.load(st, p.a, t)
	case Choice:
		return x.iteValue(p.c, x.loadPtr(st, p.a, t, pos), x.loadPtr(st, p.b, t, pos))
	}
	bail("load through %T", v)
	return nil
}

// viewOK: the n elements from the view base lie within the underlying storage.
func (x *Exec) viewOK(p Ptr, n int64) *Term {
	c := x.c
	if p.hi == nil {
		return c.F
	}
	last := p.a.idx[len(p.a.idx)-1]
	return c.And(c.Ule(c.Add(last, c.Int(n)), p.hi), c.Ule(last, p.hi))
}

func (x *Exec) storePtr(st *State, v Value, t types.Type, val Value, guard *Term, pos token.Pos) {
	v = x.resolve(st, v)
	switch p := v.(type) {
	case Ptr:
		if p.null {
			x.oblige("nil-dereference", pos, st, x.c.F)
			bail("nil dereference")
		}
		if p.boff != nil {
			bail("store at a byte offset")
		}
		if p.view {
			at, ok := under(t).(*types.Array)
			if !ok {
				bail("view store of %s", t)
			}
			x.oblige("unsafe-bounds", pos, st, x.viewOK(p, at.Len()))
			for i, e := range val.(*ArrV).els {
				x.storeG(st, x.viewElem(p.a, x.c.Int(int64(i))), at.Elem(), e, guard)
			}
			return
		}
		x.storeG(st, p.a, t, val, guard)
	case Choice:
		x.storePtr(st, p.a, t, val, x.c.And(guard, p.c), pos)
		x.storePtr(st, p.b, t, val, x.c.And(guard, x.c.Not(p.c)), pos)
	default:
		bail("store through %T", v)
	}
}

func (x *Exec) unop(f *Frame, in *ssa.UnOp, st *State) Value {
	c := x.c
	v := x.val(f, in.X)
	switch in.Op {
	case token.MUL:
		return x.loadPtr(st, v, in.Type(), in.Pos())
	case token.SUB:
		switch v := v.(type) {
		case *Term:
			return c.Neg(v)
		case Cplx:
			return Cplx{c.Neg(v.re), c.Neg(v.im)}
		}
	case token.NOT:
		return c.Not(v.(*Term))
	case token.XOR:
		t := v.(*Term)
		return c.Sub(c.Neg(t), c.one(t.sort))
	}
	bail("unop %s on %T", in.Op, v)
	return nil
}

func (x *Exec) sliceOp(f *Frame, in *ssa.Slice, st *State) Value {
	c := x.c
	v := x.resolve(st, x.val(f, in.X))
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.asInt(x.term(f, v), v.Type())
	}
	var do func(v Value) Value
	do = func(v Value) Value {
		switch s := v.(type) {
		case Slice:
			lo := get(in.Low, c.Int(0))
			hi := get(in.High, s.len)
			mx := get(in.Max, s.cap)
			x.oblige("slice-bounds", in.Pos(), st, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, s.cap)))
			r := s
			r.off = c.Add(s.off, lo)
			r.len = c.Sub(hi, lo)
			r.cap = c.Sub(mx, lo)
			return r
		case Ptr:
			if s.view {
				bail("slice of a view pointer")
			}
			at := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			n := c.Int(at.Len())
			lo := get(in.Low, c.Int(0))
			hi := get(in.High, n)
			mx := get(in.Max, n)
			x.oblige("slice-bounds", in.Pos(), st, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, n)))
			return Slice{lc: s.a.lc, idx: s.a.idx, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo), nil_: c.F, elem: at.Elem()}
		case Choice:
			return Choice{s.c, do(s.a), do(s.b)}
		}
		bail("slice of %T", v)
		return nil
	}
	return do(v)
}

func (x *Exec) binop(op token.Token, a, b Value, ta, tb types.Type, st *State, pos token.Pos) Value {
	c := x.c
	// comparisons with nil and of references
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		switch av := a.(type) {
		case *Term:
			if bv, ok := b.(*Term); ok {
				r = c.Eq(av, bv)
			}
		case Cplx:
			if bv, ok := b.(Cplx); ok {
				r = c.And(c.Eq(av.re, bv.re), c.Eq(av.im, bv.im))
			}
		case Slice:
			if bv, ok := b.(Slice); ok {
				if bv.lc == "nil" {
					r = av.nil_
				} else if av.lc == "nil" {
					r = bv.nil_
				}
			}
		case Ptr:
			if bv, ok := b.(Ptr); ok {
				if av.null && bv.null {
					r = c.T
				} else if av.null != bv.null {
					r = c.F
				} else if av.a.lc == bv.a.lc {
					var cs []*Term
					for i := range av.a.idx {
						cs = append(cs, c.Eq(av.a.idx[i], bv.a.idx[i]))
					}
					r = c.And(cs...)
				} else {
					r = c.F
				}
			}
		case Str:
			if bv, ok := b.(Str); ok {
				r = c.Bool(av == bv)
			}
		case Iface:
			if bv, ok := b.(Iface); ok {
				if av.typ == nil && bv.typ == nil {
					r = c.T
				} else if (av.typ == nil) != (bv.typ == nil) {
					r = c.F
				} else if !types.Identical(av.typ, bv.typ) {
					r = c.F
				} else {
					r = x.binop(token.EQL, av.val, bv.val, av.typ, bv.typ, st, pos).(*Term)
				}
			} else if _, ok := b.(Opaque); ok {
				return x.binop(op, b, a, tb, ta, st, pos)
			}
		case Opaque:
			if bv, ok := b.(Opaque); ok && bv.name == av.name && sameTerms(av.idx, bv.idx) {
				r = c.T
			} else if ok && bv.name == "nil" || isNilIface(b) {
				if strings.HasPrefix(av.name, "nonnil:") || strings.HasPrefix(av.name, "g:io/Err") {
					r = c.F
				} else if av.name == "nil" {
					r = c.T
				} else {
					r = c.App("isnil:"+av.name, SBool, av.idx...)
				}
			} else if av.name == "nil" {
				if bv, ok := b.(Opaque); ok {
					r = c.App("isnil:"+bv.name, SBool, bv.idx...)
				}
			}
		case Choice:
			ra := x.binop(token.EQL, av.a, b, ta, tb, st, pos).(*Term)
			rb := x.binop(token.EQL, av.b, b, ta, tb, st, pos).(*Term)
			r = c.Ite(av.c, ra, rb)
		case Closure:
			r = c.F
		}
		if ch, ok := b.(Choice); ok && r == nil {
			ra := x.binop(token.EQL, a, ch.a, ta, tb, st, pos).(*Term)
			rb := x.binop(token.EQL, a, ch.b, ta, tb, st, pos).(*Term)
			r = c.Ite(ch.c, ra, rb)
		}
		if r == nil {
			bail("comparison of %T and %T", a, b)
		}
		if op == token.NEQ {
			return c.Not(r)
		}
		return r
	}
	if av, ok := a.(Cplx); ok {
		bv, ok := b.(Cplx)
		if !ok {
			bail("complex op with %T", b)
		}
		switch op {
		case token.ADD:
			return Cplx{c.Add(av.re, bv.re), c.Add(av.im, bv.im)}
		case token.SUB:
			return Cplx{c.Sub(av.re, bv.re), c.Sub(av.im, bv.im)}
		case token.MUL:
			return Cplx{c.Sub(c.Mul(av.re, bv.re), c.Mul(av.im, bv.im)), c.Add(c.Mul(av.re, bv.im), c.Mul(av.im, bv.re))}
		case token.QUO:
			den := c.Add(c.Mul(bv.re, bv.re), c.Mul(bv.im, bv.im))
			n := Cplx{c.Add(c.Mul(av.re, bv.re), c.Mul(av.im, bv.im)), c.Sub(c.Mul(av.im, bv.re), c.Mul(av.re, bv.im))}
			return Cplx{c.Rdiv(n.re, den), c.Rdiv(n.im, den)}
		}
		bail("complex op %s", op)
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if sa, ok := a.(Str); ok && op == token.ADD {
			if sb, ok := b.(Str); ok {
				return sa + sb
			}
		}
		bail("binop %s on %T, %T", op, a, b)
	}
	return x.scalarOp(op, at, bt, ta, tb, st, pos)
}

func isNilIface(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.typ == nil
}

func (x *Exec) scalarOp(op token.Token, a, b *Term, ta, tb types.Type, st *State, pos token.Pos) *Term {
	c := x.c
	if a.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
		bail("bool op %s", op)
	}
	if a.sort == SReal {
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			return c.Rdiv(a, b)
		case token.LSS:
			return c.Rlt(a, b)
		case token.LEQ:
			return c.Rle(a, b)
		case token.GTR:
			return c.Rlt(b, a)
		case token.GEQ:
			return c.Rle(b, a)
		}
		bail("float op %s", op)
	}
	uns := isUnsigned(ta)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.AND:
		return c.Bin(OBand, a, b)
	case token.OR:
		return c.Bin(OBor, a, b)
	case token.XOR:
		return c.Bin(OBxor, a, b)
	case token.AND_NOT:
		return c.Bin(OBand, a, c.Sub(c.Neg(b), c.one(b.sort)))
	case token.QUO, token.REM:
		if st != nil {
			x.oblige("division-by-zero", pos, st, c.Not(c.Eq(b, c.zero(b.sort))))
		}
		if st := st; st != nil || x.specSt != nil {
			if st == nil {
				st = x.specSt
			}
			if q := x.exactQuo(st, a, b); q != nil {
				if op == token.QUO {
					return q
				}
				return c.zero(a.sort)
			}
		}
		if op == token.QUO {
			if uns {
				return c.Bin(OUdiv, a, b)
			}
			if st != nil && !c.nonneg(a) && x.nonnegUnder(st, a) && (c.nonneg(b) || x.nonnegUnder(st, b)) {
				return c.Bin(OUdiv, a, b)
			}
			return c.Bin(OSdiv, a, b)
		}
		if uns {
			return c.Bin(OUrem, a, b)
		}
		if st != nil && !c.nonneg(a) && x.nonnegUnder(st, a) && (c.nonneg(b) || x.nonnegUnder(st, b)) {
			return c.Bin(OUrem, a, b)
		}
		return c.Bin(OSrem, a, b)
	case token.SHL, token.SHR:
		if !isUnsigned(tb) && st != nil && !c.nonneg(b) {
			x.oblige("shift-amount", pos, st, c.Sle(c.zero(b.sort), b))
		}
		w := a.sort
		wide := b.sort
		if wide < w {
			b = c.Zext(b, w)
			wide = w
		}
		var ax *Term
		if uns || op == token.SHL {
			ax = c.Zext(a, wide)
		} else {
			ax = c.Sext(a, wide)
		}
		if isConst(b) && b.k >= uint64(w) {
			b2 := uint64(w)
			if op == token.SHL || uns {
				_ = b2
				return c.BV(w, 0)
			}
			return c.Bin(OAshr, a, c.BV(w, uint64(w)-1))
		}
		if isConst(b) {
			o := OShl
			if op == token.SHR {
				o = OLshr
				if !uns {
					o = OAshr
				}
			}
			return c.Bin(o, a, c.BV(w, b.k))
		}
		if op == token.SHL && !isConst(a) {
			// a << b = a * (1 << b) in the ring of w-bit words
			return c.Mul(a, c.Trunc(c.Bin(OShl, c.BV(wide, 1), b), w))
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if !uns {
				o = OAshr
			}
		}
		return c.Trunc(c.Bin(o, ax, b), w)
	case token.LSS:
		if uns {
			return c.Ult(a, b)
		}
		return c.Slt(a, b)
	case token.LEQ:
		if uns {
			return c.Ule(a, b)
		}
		return c.Sle(a, b)
	case token.GTR:
		if uns {
			return c.Ult(b, a)
		}
		return c.Slt(b, a)
	case token.GEQ:
		if uns {
			return c.Ule(b, a)
		}
		return c.Sle(b, a)
	}
	bail("integer op %s", op)
	return nil
}

// exactQuo returns a/b for a constant b > 1 dividing every coefficient of the
// polynomial a, when the multiplication back cannot wrap around.
func (x *Exec) exactQuo(st *State, a, b *Term) *Term {
	c := x.c
	if a.op != OPoly || !isConst(b) || sext64(b.k, b.sort) <= 1 || len(a.mons) == 0 {
		return nil
	}
	var q []Mon
	for _, m := range a.mons {
		k := sext64(m.c, a.sort)
		if k%int64(b.k) != 0 {
			return nil
		}
		q = append(q, Mon{c: uint64(k/int64(b.k)) & mask(a.sort), atoms: m.atoms})
	}
	qt := c.fromMons(a.sort, q)
	if x.decide(st, c.Ule(qt, c.BV(a.sort, (mask(a.sort)>>1)/b.k))) != 1 {
		return nil
	}
	return qt
}

func (x *Exec) nonnegUnder(st *State, a *Term) bool {
	if x.c.nonneg(a) {
		return true
	}
	return x.decide(st, x.c.Sle(x.c.zero(a.sort), a)) == 1
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	v = x.resolve(st, v)
	fu, tu := under(from), under(to)
	switch s := v.(type) {
	case *Term:
		if s.sort == SBool {
			return s
		}
		switch {
		case isInteger(from) && isInteger(to):
			w := widthOf(to)
			if s.sort < w {
				if isUnsigned(from) {
					return c.Zext(s, w)
				}
				return c.Sext(s, w)
			}
			return c.Trunc(s, w)
		case isInteger(from) && isFloat(to):
			if isUnsigned(from) {
				return c.AppS("u2r", SReal, c.Zext(s, 64))
			}
			return c.AppS("s2r", SReal, c.Sext(s, 64))
		case isFloat(from) && isFloat(to):
			if b := tu.(*types.Basic); b.Kind() == types.Float32 {
				return c.AppS("toF32", SReal, s)
			}
			return s
		case isFloat(from) && isInteger(to):
			w := widthOf(to)
			if isUnsigned(to) {
				return c.App(fmt.Sprintf("r2u%d", int(w)), w, s)
			}
			return c.App(fmt.Sprintf("r2s%d", int(w)), w, s)
		case isInteger(from) && isComplex(to):
			bail("int to complex")
		}
	case Cplx:
		return s
	case Ptr:
		// conversions between unsafe.Pointer and *T
		if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if pt, ok := tu.(*types.Pointer); ok {
				return x.castPtr(st, s, pt.Elem())
			}
		}
		if b, ok := tu.(*types.Basic); ok {
			if b.Kind() == types.UnsafePointer {
				return s
			}
		}
	case Str:
		return s
	case Opaque:
		return s
	case Choice:
		return Choice{s.c, x.convert(st, s.a, from, to), x.convert(st, s.b, from, to)}
	}
	bail("conversion of %T from %s to %s", v, from, to)
	return nil
}

// castPtr reinterprets an unsafe pointer whose tracked pointee type is s.typ as *to.
func (x *Exec) castPtr(st *State, s Ptr, to types.Type) Value {
	if types.Identical(s.typ, to) || types.Identical(under(s.typ), under(to)) {
		return s
	}
	if at, ok := under(to).(*types.Array); ok {
		if types.Identical(under(at.Elem()), under(s.typ)) && strings.HasSuffix(s.a.lc, "[]") && !s.view {
			r := s
			r.view = true
			r.typ = to
			return r
		}
	}
	bail("unsafe cast from *%s to *%s", s.typ, to)
	return nil
}

// unsafeAdd advances an element pointer by n bytes.
func (x *Exec) unsafeAdd(st *State, s Ptr, n *Term, pos token.Pos) Value {
	c := x.c
	sz := uint64(stdSizes.Sizeof(s.typ))
	if s.view || !strings.HasSuffix(s.a.lc, "[]") {
		bail("unsafe.Add on a non-element pointer")
	}
	q := c.divExact(n, sz)
	if q == nil {
		bail("unsafe.Add with offset not a multiple of the element size: %s", n)
	}
	r := s
	r.a = x.viewElem(s.a, q)
	return r
}

// divExact divides a polynomial by a constant when every coefficient is a multiple.
func (c *Ctx) divExact(t *Term, k uint64) *Term {
	if k == 1 {
		return t
	}
	var ms []Mon
	for _, m := range c.polyOf(t) {
		s := int64(m.c)
		if s%int64(k) != 0 {
			return nil
		}
		ms = append(ms, Mon{c: uint64(s / int64(k)), atoms: m.atoms})
	}
	return c.fromMons(t.sort, ms)
}
