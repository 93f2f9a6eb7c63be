package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(f *Frame, cc *ssa.CallCommon, st *State, pos token.Pos, rt types.Type) (Value, bool) {
	if cc.IsInvoke() {
		recv := x.resolve(st, x.val(f, cc.Value))
		if iv, ok := recv.(Iface); ok && iv.typ != nil {
			fn := x.env.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				bail("no method %s on %s", cc.Method.Name(), iv.typ)
			}
			args := []Value{iv.val}
			for _, a := range cc.Args {
				args = append(args, x.val(f, a))
			}
			return x.callStatic(fn, args, nil, st, pos)
		}
		if o, ok := recv.(Opaque); ok {
			var args []Value
			for _, a := range cc.Args {
				args = append(args, x.val(f, a))
			}
			if v, ok := x.invokeModel(o, cc.Method.Name(), args, st, rt, pos); ok {
				return v, true
			}
		}
		bail("dynamic call of %s on %T", cc.Method.Name(), recv)
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(f, a))
	}
	switch fnv := cc.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(f, fnv.Name(), cc, args, st, pos, rt)
	case *ssa.Function:
		return x.callStatic(fnv, args, nil, st, pos)
	}
	v := x.resolve(st, x.val(f, cc.Value))
	switch cl := v.(type) {
	case Closure:
		return x.callStatic(cl.fn, args, cl.binds, st, pos)
	case Opaque:
		// function-valued parameter: an uninterpreted pure function of its scalar arguments
		var ts []*Term
		for _, a := range args {
			switch a := a.(type) {
			case *Term:
				ts = append(ts, a)
			case Cplx:
				ts = append(ts, a.re, a.im)
			default:
				bail("call of an unknown function with %T", a)
			}
		}
		return x.initValue("call:"+cl.name, append(append([]*Term{}, cl.idx...), ts...), rt), true
	}
	bail("call through %T", v)
	return nil, false
}

func fnKey(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	p := ""
	if o.Pkg != nil {
		p = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		p = o.Object().Pkg().Path()
	}
	if i := strings.LastIndex(p, "tfhe-go/"); i >= 0 {
		p = p[i+8:]
	}
	name := o.Name()
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok {
			name = "(" + star + n.Obj().Name() + ")." + name
		}
	}
	return p + ":" + name
}

// covers tells whether the contract is verified at the function's type arguments.
func (ct *Contract) covers(fn *ssa.Function) bool {
	ta := fn.TypeArgs()
	if len(ct.types) == 0 || len(ta) == 0 || ct.trusted != "" {
		return true
	}
	for _, tl := range ct.types {
		ok := len(tl) == len(ta)
		for i := range tl {
			ok = ok && i < len(ta) && tl[i] == ta[i].String()
		}
		if ok {
			return true
		}
	}
	return false
}

func (x *Exec) callStatic(fn *ssa.Function, args, fv []Value, st *State, pos token.Pos) (Value, bool) {
	key := fnKey(fn)
	if v, ok := x.stdModel(key, fn, args, st, pos); ok {
		return v, true
	}
	if ct := x.env.contracts[key]; ct != nil && fn != x.self && !ct.inline && !ct.open && ct.covers(fn) {
		return x.applyContract(ct, fn, args, st, pos)
	}
	if fn == x.self {
		if ct := x.env.contracts[key]; ct != nil {
			return x.applyContract(ct, fn, args, st, pos)
		}
	}
	if fn.Blocks == nil {
		if tr := x.env.asmImpl(fn); tr != nil {
			fn = tr
		} else {
			bail("external function %s has no contract", key)
		}
	}
	v, s2, ok := x.callFn(fn, args, fv, st)
	if !ok {
		return nil, false
	}
	st.mem, st.facts, st.ghost = s2.mem, s2.facts, s2.ghost
	return v, true
}

func (x *Exec) builtin(f *Frame, name string, cc *ssa.CallCommon, args []Value, st *State, pos token.Pos, rt types.Type) (Value, bool) {
	c := x.c
	switch name {
	case "len", "cap":
		var do func(v Value) *Term
		do = func(v Value) *Term {
			v = x.resolve(st, v)
			switch s := v.(type) {
			case Slice:
				if name == "len" {
					return s.len
				}
				return s.cap
			case Choice:
				return c.Ite(s.c, do(s.a), do(s.b))
			case *ArrV:
				return c.Int(int64(len(s.els)))
			case Str:
				return c.Int(int64(len(s)))
			case Opaque:
				if _, ok := under(s.typ).(*types.Map); ok {
					c.ubound["maplen:"+s.name] = 1 << 40
					return c.App("maplen:"+s.name, 64, s.idx...)
				}
			}
			bail("%s of %T", name, v)
			return nil
		}
		return do(args[0]), true
	case "copy":
		dst, ok1 := x.resolve(st, args[0]).(Slice)
		src, ok2 := x.resolve(st, args[1]).(Slice)
		if !ok1 || !ok2 {
			bail("copy of %T, %T", args[0], args[1])
		}
		var n *Term
		switch {
		case dst.len == src.len:
			n = dst.len
		case x.decide(st, c.Ule(dst.len, src.len)) == 1:
			n = dst.len
		case x.decide(st, c.Ule(src.len, dst.len)) == 1:
			n = src.len
		default:
			n = c.Ite(c.Ult(dst.len, src.len), dst.len, src.len)
		}
		x.copyElems(st, dst, c.Int(0), src, n)
		return n, true
	case "append":
		return x.appendOp(args, st, cc, pos), true
	case "real":
		return args[0].(Cplx).re, true
	case "imag":
		return args[0].(Cplx).im, true
	case "complex":
		return Cplx{args[0].(*Term), args[1].(*Term)}, true
	case "Add": // unsafe.Add
		p, ok := x.resolve(st, args[0]).(Ptr)
		if !ok {
			bail("unsafe.Add on %T", args[0])
		}
		n := x.asInt(args[1].(*Term), cc.Args[1].Type())
		return x.unsafeAdd(st, p, n, pos), true
	case "min", "max":
		r := args[0].(*Term)
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			at := a.(*Term)
			lt := x.scalarOp(token.LSS, at, r, t, t, st, pos)
			if name == "max" {
				lt = x.scalarOp(token.LSS, r, at, t, t, st, pos)
			}
			r = c.Ite(lt, at, r)
		}
		return r, true
	case "clear":
		s, ok := x.resolve(st, args[0]).(Slice)
		if !ok {
			bail("clear")
		}
		b := c.Fresh("cl", 64)
		x.storeRange(st, s, b, s.len, x.zeroValue(s.elem), s.elem)
		return nil, true
	case "Sizeof":
		return c.Int(types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type())), true
	case "ssa:wrapnilchk":
		return args[0], true
	case "print", "println":
		return nil, true
	}
	bail("builtin %s", name)
	return nil, false
}

// copyElems copies n elements of src to dst[at:].
func (x *Exec) copyElems(st *State, dst Slice, at *Term, src Slice, n *Term) {
	x.copyElemsIf(st, dst, at, src, n, x.c.T)
}

func (x *Exec) copyElemsIf(st *State, dst Slice, at *Term, src Slice, n, guard *Term) {
	c := x.c
	if n.op == OConst && n.k == 0 {
		return
	}
	if isConst(n) && n.k <= 4 && guard == c.T {
		var vals []Value
		for i := uint64(0); i < n.k; i++ {
			vals = append(vals, x.load(st, src.elemAddr(c, c.BV(64, i)), src.elem))
		}
		for i := uint64(0); i < n.k; i++ {
			x.store(st, dst.elemAddr(c, c.Add(at, c.BV(64, i))), dst.elem, vals[i])
		}
		return
	}
	b := c.Fresh("cp", 64)
	s2 := st.clone()
	s2.assume(c.Ult(b, n), false)
	v := x.load(s2, src.elemAddr(c, b), src.elem)
	d := dst
	d.off = c.Add(d.off, at)
	x.storeVars(st, d.elemAddr(c, b), dst.elem, v, []BVar{{b, n}}, guard)
}

// storeRange sets s[b] = v(b) for b < n.
func (x *Exec) storeRange(st *State, s Slice, b, n *Term, v Value, t types.Type) {
	x.storeVars(st, s.elemAddr(x.c, b), t, v, []BVar{{b, n}}, x.c.T)
}

func (x *Exec) storeVars(st *State, a Addr, t types.Type, v Value, vars []BVar, guard *Term) {
	switch u := under(t).(type) {
	case *types.Struct:
		s, ok := v.(*Struct)
		if !ok {
			bail("range store of %T", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			x.storeVars(st, Addr{a.lc + "." + u.Field(i).Name(), a.idx}, u.Field(i).Type(), s.fs[i], vars, guard)
		}
		return
	case *types.Array:
		for i, e := range v.(*ArrV).els {
			x.storeVars(st, Addr{a.lc + "[]", appendIdx(a.idx, x.c.Int(int64(i)))}, u.Elem(), e, vars, guard)
		}
		return
	}
	x.pushLayer(st, a.lc, &Layer{vars: vars, guard: guard, idx: a.idx, val: v})
}

func (x *Exec) appendOp(args []Value, st *State, cc *ssa.CallCommon, pos token.Pos) Value {
	c := x.c
	dst, ok := x.resolve(st, args[0]).(Slice)
	if !ok {
		bail("append to %T", args[0])
	}
	if len(args) == 1 {
		return dst
	}
	src, ok := x.resolve(st, args[1]).(Slice)
	if !ok {
		bail("append of %T", args[1])
	}
	n := c.Add(dst.len, src.len)
	fits := x.decide(st, c.Ule(n, dst.cap))
	if fits == 1 && dst.lc != "nil" {
		x.copyElems(st, dst, dst.len, src, src.len)
		r := dst
		r.len = n
		return r
	}
	if src.lc == "nil" || (isConst(src.len) && src.len.k == 0) {
		return dst
	}
	if fits == -1 || x.zeroRoots[rootOf(dst.lc)] {
		// reallocation (for freshly made slices the old storage is not observable otherwise only
		// when it is not used again; be conservative)
		if fits != -1 {
			bail("append to a slice whose capacity is not decided")
		}
		nr := x.newRoot("app", true)
		r := Slice{lc: nr + "*", idx: append([]*Term{}, x.gen...), off: c.Int(0), len: n, cap: c.App("appcap:"+nr, 64, x.gen...), nil_: c.F, elem: dst.elem}
		c.axioms[r.cap] = []*Term{c.Ule(n, r.cap), c.Ule(r.cap, c.Int(1<<42))}
		x.copyElems(st, r, c.Int(0), dst, dst.len)
		x.copyElems(st, r, dst.len, src, src.len)
		return r
	}
	// undecided: the elements go behind the old ones when they fit, into new storage otherwise
	g := c.Ule(n, dst.cap)
	in := dst
	in.len = n
	x.copyElemsIf(st, dst, dst.len, src, src.len, g)
	nr := x.newRoot("app", true)
	r := Slice{lc: nr + "*", idx: append([]*Term{}, x.gen...), off: c.Int(0), len: n, cap: c.App("appcap:"+nr, 64, x.gen...), nil_: c.F, elem: dst.elem}
	c.axioms[r.cap] = []*Term{c.Ule(n, r.cap), c.Ule(r.cap, c.Int(1<<42))}
	x.copyElems(st, r, c.Int(0), dst, dst.len)
	x.copyElems(st, r, dst.len, src, src.len)
	return Choice{g, in, r}
}

// stdModel models standard-library functions.
func (x *Exec) stdModel(key string, fn *ssa.Function, args []Value, st *State, pos token.Pos) (Value, bool) {
	c := x.c
	i := strings.Index(key, ":")
	pkg, name := key[:i], key[i+1:]
	switch pkg {
	case "math":
		switch name {
		case "Abs":
			t := args[0].(*Term)
			return c.Ite(c.Rlt(t, c.RealInt(0)), c.Neg(t), t), true
		case "FMA":
			return c.Add(c.Mul(args[0].(*Term), args[1].(*Term)), args[2].(*Term)), true
		case "Float64bits", "Float64frombits":
			t := args[0].(*Term)
			if name == "Float64bits" {
				return c.App("f64bits", 64, t), true
			}
			if t.op == OApp && t.name == "f64bits" {
				return t.args[0], true
			}
			return c.App("f64frombits", SReal, t), true
		}
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				return nil, false
			}
			ts = append(ts, t)
		}
		res := fn.Signature.Results()
		if res.Len() == 2 {
			return Tuple{x.initValue("math."+name+"#0", ts, res.At(0).Type()), x.initValue("math."+name+"#1", ts, res.At(1).Type())}, true
		}
		return x.initValue("math."+name, ts, res.At(0).Type()), true
	case "math/bits":
		t, ok := args[0].(*Term)
		if !ok {
			return nil, false
		}
		switch name {
		case "Len", "Len64", "Len32", "Len8", "Len16":
			return x.bitLen(t), true
		case "TrailingZeros", "TrailingZeros64", "TrailingZeros32":
			r := c.Int(int64(t.sort))
			for b := int(t.sort) - 1; b >= 0; b-- {
				r = c.Ite(c.Not(c.Eq(c.Bin(OBand, t, c.BV(t.sort, 1<<uint(b))), c.BV(t.sort, 0))), c.Int(int64(b)), r)
			}
			return r, true
		case "LeadingZeros", "LeadingZeros64":
			return c.Sub(c.Int(int64(t.sort)), x.bitLen(t)), true
		case "OnesCount64", "OnesCount":
			r := c.Int(0)
			for b := 0; b < int(t.sort); b++ {
				r = c.Add(r, c.Zext(c.Bin(OBand, c.Bin(OLshr, t, c.BV(t.sort, uint64(b))), c.BV(t.sort, 1)), 64))
			}
			return r, true
		}
	case "encoding/binary":
		// the word made of bytes p.. of record j of the stream has a name of its own
		if n := map[string]int{"(bigEndian).Uint64": 8, "(bigEndian).Uint32": 4}[name]; n > 0 && len(args) == 2 {
			b, ok := x.resolve(st, args[1]).(Slice)
			if !ok || x.decide(st, c.Ule(c.Int(int64(n)), b.len)) != 1 {
				return nil, false
			}
			var j, p *Term
			for i := 0; i < n; i++ {
				t, ok := x.load(st, b.elemAddr(c, c.Int(int64(i))), b.elem).(*Term)
				if ok && t.op == OIte { // the bytes of the last of several reads
					t, ok = c.decideIte(x, st, t), true
				}
				if !ok || t.op != OApp || t.name != "rrec" {
					return nil, false
				}
				if i == 0 {
					j, p = t.args[0], t.args[1]
				} else if t.args[0] != j || c.Eq(t.args[1], c.Add(p, c.Int(int64(i)))) != c.T {
					return nil, false
				}
			}
			return c.App(fmt.Sprintf("be%d", 8*n), Sort(8*n), j, p), true
		}
	case "io":
		if name == "ReadFull" {
			if b, ok := x.resolve(st, args[1]).(Slice); ok {
				return x.streamOp(st, b, false), true
			}
		}
	case "errors", "fmt":
		if name == "New" || name == "Errorf" {
			x.allocN++
			return Opaque{name: fmt.Sprintf("nonnil:err%d", x.allocN), typ: fn.Signature.Results().At(0).Type()}, true
		}
		if name == "Sprintf" {
			return Opaque{name: "str", typ: types.Typ[types.String]}, true
		}
	}
	return nil, false
}

func (x *Exec) bitLen(t *Term) *Term {
	c := x.c
	r := c.Int(0)
	for b := 0; b < int(t.sort); b++ {
		r = c.Ite(c.Ule(c.BV(t.sort, 1<<uint(b)), t), c.Int(int64(b+1)), r)
	}
	return r
}

// invokeModel models calls on opaque interface values (streams).
func (x *Exec) invokeModel(o Opaque, name string, args []Value, st *State, rt types.Type, pos token.Pos) (Value, bool) {
	if name != "Write" || len(args) != 1 {
		return nil, false
	}
	b, ok := x.resolve(st, args[0]).(Slice)
	if !ok {
		return nil, false
	}
	return x.streamOp(st, b, true), true
}

// streamOp models one call of Write or io.ReadFull. The stream is a sequence of records, one per call; the call
// number j fails when the arbitrary predicate strfail(j) holds, after an arbitrary number of bytes below or equal to
// the length. A written record's bytes are stored in the ghost location wrec; a record read has arbitrary bytes.
func (x *Exec) streamOp(st *State, b Slice, write bool) Value {
	c := x.c
	g := x.ghosts(st)
	sub := x.unfail(st)
	for i := range g {
		g[i] = c.Subst(g[i], sub)
		for n := 0; n < 64; n++ {
			f := findIteCond(g[i], map[*Term]bool{})
			if f == nil {
				break
			}
			d := x.decide(st, f)
			if d == 0 {
				break
			}
			g[i] = c.Subst(g[i], Subst{f: c.Bool(d == 1)})
		}
	}
	j := g[gCnt]
	fail := c.App("strfail", SBool, j)
	m := c.App("strpart", 64, j)
	if write {
		c.axioms[m] = []*Term{c.Ule(m, b.len)}
	} else {
		c.axioms[m] = []*Term{c.Or(c.Ult(m, b.len), c.Eq(b.len, c.Int(0)))}
		if x.decide(st, c.Eq(b.len, c.Int(0))) != -1 {
			fail = c.And(fail, c.Not(c.Eq(b.len, c.Int(0))))
		}
	}
	n := c.Ite(fail, m, b.len)
	v := c.Fresh("by", 64)
	if write && x.countOnly && len(x.ctxs) > 0 {
	} else if write {
		s2 := st.clone()
		s2.assume(c.Ult(v, b.len), false)
		val := x.load(s2, b.elemAddr(c, v), b.elem)
		x.pushLayer(st, "$wrec*[]", &Layer{vars: []BVar{{v, b.len}}, guard: c.T, idx: []*Term{j, v}, val: val})
	} else {
		x.storeRange(st, b, v, b.len, c.App("rrec", 8, j, v), b.elem)
	}
	st.ghost = [nGhost]*Term{c.Add(g[gPos], n), c.Add(j, c.Int(1)), c.Or(g[gFailed], fail)}
	et := types.Universe.Lookup("error").Type()
	x.allocN++
	bad := Opaque{name: fmt.Sprintf("nonnil:err%d", x.allocN), typ: et}
	var err Value = Choice{fail, bad, x.zeroValue(et)}
	if fail == c.F {
		err = x.zeroValue(et)
	}
	return Tuple{n, err}
}

// unfail substitutes the stream failures excluded by the facts.
func (x *Exec) unfail(st *State) Subst {
	sub := Subst{}
	for _, f := range st.factList() {
		if f.op == ONot && f.args[0].op == OApp && f.args[0].name == "strfail" {
			sub[f.args[0]] = x.c.F
		}
	}
	return sub
}

// decideIte follows the decided branches of t.
func (c *Ctx) decideIte(x *Exec, st *State, t *Term) *Term {
	for t.op == OIte {
		switch x.decide(st, t.args[0]) {
		case 1:
			t = t.args[1]
		case -1:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

// findIteCond returns the condition of some ite in t.
func findIteCond(t *Term, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.op == OIte {
		return t.args[0]
	}
	for _, a := range t.args {
		if f := findIteCond(a, seen); f != nil {
			return f
		}
	}
	for _, m := range t.mons {
		for _, a := range m.atoms {
			if f := findIteCond(a, seen); f != nil {
				return f
			}
		}
	}
	return nil
}
