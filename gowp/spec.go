package main

// Contracts: parsing, evaluation, application at call sites, verification.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type BindC struct {
	name   string
	lo, hi ast.Expr
}

type SetC struct {
	lhs  ast.Expr
	vars []BindC
	cond ast.Expr
	rhs  ast.Expr
	text string
}

type ShapeC struct {
	path ast.Expr
	n    ast.Expr
	text string
}

type Contract struct {
	key       string
	file      string
	line      int
	tparams   []string
	params    []string
	props     []string
	types     [][]string
	requires  []ast.Expr
	reqText   []string
	shapes    []ShapeC
	stride    int // residue classes of the last index are proved one by one
	alias     [][]string
	sets      []SetC
	scratch   []ast.Expr
	anyPhi    bool
	views     bool // ... except that results may share new storage among themselves
	shares    map[string]bool
	countOnly bool // bytes written in loops are counted, not recorded
	fresh     bool // results are checked to be new, mutually separate storage although the contract is open
	result    []ast.Expr
	ensures   []ast.Expr
	ensText   []string
	lemma     []bool
	buffers   []ast.Expr
	panics    ast.Expr
	lets      []letC
	cases     []caseC
	expand    map[string]bool
	trusted   string // reason; not verified
	bounded   string
	inline    bool
	open      bool
	hard      int
	variants  []string
	caplen    bool
	used      bool
	quick     ast.Expr
	thorough  bool // verified in the thorough tier only
	unroll    int
}

type letC struct {
	name string
	e    ast.Expr
}
type caseC struct {
	e       ast.Expr
	vals    []int64
	boolean bool // the values of a condition
}

type Macro struct {
	params []string
	body   ast.Expr
}

func parseContracts(dir string, cs map[string]*Contract, macros map[string]*Macro) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gowp"))
	sort.Strings(files)
	for _, fn := range files {
		scanTemplates(fn)
	}
	for _, fn := range files {
		if err := parseContractFile(fn, cs, macros); err != nil {
			return err
		}
	}
	return nil
}

func pe(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("in %q: %v", s, err)
	}
	return e, nil
}

// splitTop splits s at the separator outside parentheses and brackets.
func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i+len(sep) <= len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && s[i:i+len(sep)] == sep {
			out = append(out, s[last:i])
			last = i + len(sep)
			i += len(sep) - 1
		}
	}
	return append(out, s[last:])
}

// templates: named lists of clauses, separated by ;;
var templates = map[string][]string{}

func scanTemplates(fn string) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return
	}
	cur := ""
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "//@"))
		if !strings.HasPrefix(strings.TrimSpace(l), "//@") {
			continue
		}
		if strings.HasPrefix(t, "template ") {
			i := strings.Index(t, "=")
			cur = strings.TrimSpace(t[9:i])
			templates[cur] = nil
			t = t[i+1:]
		} else if strings.HasPrefix(t, "|") && cur != "" {
			t = t[1:]
		} else {
			cur = ""
			continue
		}
		for _, cl := range strings.Split(t, ";;") {
			if cl = strings.TrimSpace(cl); cl != "" {
				templates[cur] = append(templates[cur], cl)
			}
		}
	}
}

func parseContractFile(fn string, cs map[string]*Contract, macros map[string]*Macro) error {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	var lines []string
	var nums []int
	for i, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(t, "//@") {
			continue
		}
		t = strings.TrimPrefix(t, "//@")
		if strings.TrimSpace(t) == "" {
			continue
		}
		// continuation: starts with "|"
		tt := strings.TrimSpace(t)
		if strings.HasPrefix(tt, "|") && len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(tt[1:])
			continue
		}
		lines = append(lines, tt)
		nums = append(nums, i+1)
	}
	// use NAME(args): the clauses of a template, with $i replaced
	for i := 0; i < len(lines); i++ {
		w := strings.Fields(lines[i])
		if w[0] == "template" {
			lines[i] = ""
			continue
		}
		if w[0] != "use" {
			continue
		}
		h := strings.TrimSpace(lines[i][3:])
		o := strings.Index(h, "(")
		if o < 0 || !strings.HasSuffix(h, ")") {
			return fmt.Errorf("%s:%d: bad use", fn, nums[i])
		}
		body, ok := templates[h[:o]]
		if !ok {
			return fmt.Errorf("%s:%d: unknown template %s", fn, nums[i], h[:o])
		}
		args := splitTop(h[o+1:len(h)-1], ",")
		var nl []string
		var nn []int
		for _, cl := range body {
			for k, a := range args {
				cl = strings.ReplaceAll(cl, fmt.Sprintf("$%d", k+1), strings.TrimSpace(a))
			}
			nl = append(nl, cl)
			nn = append(nn, nums[i])
		}
		lines = append(append(append([]string{}, lines[:i]...), nl...), lines[i+1:]...)
		nums = append(append(append([]int{}, nums[:i]...), nn...), nums[i+1:]...)
		i--
	}
	pkg := ""
	var cur []*Contract
	curProps := []string{}
	defTypes := [][]string{}
	for li, l := range lines {
		bad := func(e error) error { return fmt.Errorf("%s:%d: %v", fn, nums[li], e) }
		if l == "" {
			continue
		}
		word, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i >= 0 {
			word, rest = l[:i], strings.TrimSpace(l[i:])
		}
		switch word {
		case "package":
			pkg = rest
			continue
		case "props":
			curProps = strings.Fields(rest)
			continue
		case "deftypes":
			defTypes = nil
			for _, t := range strings.Fields(rest) {
				defTypes = append(defTypes, strings.Split(t, ","))
			}
			continue
		case "define", "defineat":
			at := "" // defineat PKG: the definition seen by proofs of that package only
			if word == "defineat" {
				i := strings.IndexAny(rest, " \t")
				at, rest = "@"+rest[:i], strings.TrimSpace(rest[i:])
			}
			i := strings.Index(rest, "=")
			// find the '=' after the parameter list
			j := strings.Index(rest, ")")
			i = j + 1 + strings.Index(rest[j+1:], "=")
			h, err := pe(strings.TrimSpace(rest[:i]))
			if err != nil {
				return bad(err)
			}
			call := h.(*ast.CallExpr)
			m := &Macro{}
			for _, a := range call.Args {
				m.params = append(m.params, a.(*ast.Ident).Name)
			}
			if m.body, err = pe(rest[i+1:]); err != nil {
				return bad(err)
			}
			macros[call.Fun.(*ast.Ident).Name+at] = m
			continue
		case "func":
			// func Name[T](a, b)   or  func (*Recv[T]).Name(e, a, b); several names separated by |
			var tps []string
			h := rest
			i := strings.LastIndex(h, "(")
			plist := strings.TrimSuffix(h[i+1:], ")")
			head := strings.TrimSpace(h[:i])
			var params []string
			for _, p := range strings.Split(plist, ",") {
				if p = strings.TrimSpace(p); p != "" {
					params = append(params, p)
				}
			}
			if a := strings.Index(head, "["); a >= 0 {
				b := strings.Index(head, "]")
				for _, p := range strings.Split(head[a+1:b], ",") {
					tps = append(tps, strings.TrimSpace(p))
				}
				head = head[:a] + head[b+1:]
			}
			cur = nil
			for _, nm := range strings.Split(head, "|") {
				ct := &Contract{key: pkg + ":" + strings.TrimSpace(nm), file: filepath.Base(fn), line: nums[li], tparams: tps, params: params, props: curProps}
				if len(tps) > 0 {
					ct.types = defTypes
				}
				if cs[ct.key] != nil {
					return bad(fmt.Errorf("duplicate contract %s", ct.key))
				}
				cs[ct.key] = ct
				cur = append(cur, ct)
			}
			continue
		}
		for _, ct := range cur {
			if err := ct.clause(word, rest); err != nil {
				return bad(err)
			}
		}
	}
	return nil
}

func parseBinds(s string) ([]BindC, error) {
	// k < n, j in lo..hi
	var r []BindC
	for _, p := range splitTop(s, ",") {
		p = strings.TrimSpace(p)
		if i := strings.Index(p, " in "); i >= 0 {
			rg := splitTop(p[i+4:], "..")
			lo, err := pe(rg[0])
			if err != nil {
				return nil, err
			}
			hi, err := pe(rg[1])
			if err != nil {
				return nil, err
			}
			r = append(r, BindC{strings.TrimSpace(p[:i]), lo, hi})
			continue
		}
		i := strings.Index(p, "<")
		if i < 0 {
			return nil, fmt.Errorf("bad binder %q", p)
		}
		hi, err := pe(p[i+1:])
		if err != nil {
			return nil, err
		}
		r = append(r, BindC{strings.TrimSpace(p[:i]), nil, hi})
	}
	return r, nil
}

func (ct *Contract) clause(word, rest string) error {
	switch word {
	case "prop":
		ct.props = strings.Fields(rest)
	case "types":
		ct.types = nil
		for _, t := range strings.Fields(rest) {
			ct.types = append(ct.types, strings.Split(t, ","))
		}
	case "requires":
		e, err := pe(rest)
		if err != nil {
			return err
		}
		ct.requires = append(ct.requires, e)
		ct.reqText = append(ct.reqText, rest)
	case "ensures", "lemma": // a lemma is proved like a postcondition but not handed to callers
		e, err := pe(rest)
		if err != nil {
			return err
		}
		ct.lemma = append(ct.lemma, word == "lemma")
		ct.ensures = append(ct.ensures, e)
		ct.ensText = append(ct.ensText, rest)
	case "shape":
		i := strings.Index(rest, " = ")
		p, err := pe(rest[:i])
		if err != nil {
			return err
		}
		n, err := pe(rest[i+3:])
		if err != nil {
			return err
		}
		ct.shapes = append(ct.shapes, ShapeC{p, n, rest})
	case "alias":
		ct.alias = append(ct.alias, strings.Fields(rest))
	case "let":
		i := strings.Index(rest, "=")
		e, err := pe(rest[i+1:])
		if err != nil {
			return err
		}
		ct.lets = append(ct.lets, letC{strings.TrimSpace(rest[:i]), e})
	case "sets":
		// lhs [for binds] [if cond] = rhs
		parts := splitTop(rest, " = ")
		if len(parts) != 2 {
			return fmt.Errorf("bad sets clause %q", rest)
		}
		s := SetC{text: rest}
		l := parts[0]
		if i := strings.Index(l, " if "); i >= 0 {
			e, err := pe(l[i+4:])
			if err != nil {
				return err
			}
			s.cond = e
			l = l[:i]
		}
		if i := strings.Index(l, " for "); i >= 0 {
			bs, err := parseBinds(l[i+5:])
			if err != nil {
				return err
			}
			s.vars = bs
			l = l[:i]
		}
		var err error
		if s.lhs, err = pe(l); err != nil {
			return err
		}
		if s.rhs, err = pe(parts[1]); err != nil {
			return err
		}
		ct.sets = append(ct.sets, s)
	case "fresh":
		ct.fresh = true
		ct.views = rest == "views"
	case "shares": // pkg.Type.field: read-only parts a new result may share
		for _, n := range strings.Fields(rest) {
			if ct.shares == nil {
				ct.shares = map[string]bool{}
			}
			ct.shares[n] = true
		}
	case "scratch":
		for _, p := range splitTop(rest, ",") {
			e, err := pe(p)
			if err != nil {
				return err
			}
			ct.scratch = append(ct.scratch, e)
		}
	case "result":
		rest = strings.TrimSpace(strings.TrimPrefix(rest, "="))
		for _, p := range splitTop(rest, ";") {
			e, err := pe(p)
			if err != nil {
				return err
			}
			ct.result = append(ct.result, e)
		}
	case "panics":
		e, err := pe(rest)
		if err != nil {
			return err
		}
		ct.panics = e
	case "cases":
		// cases expr in lo..hi
		i := strings.Index(rest, " in ")
		if i < 0 { // a condition: both truth values
			e, err := pe(rest)
			if err != nil {
				return err
			}
			ct.cases = append(ct.cases, caseC{e: e, vals: []int64{0, 1}, boolean: true})
			return nil
		}
		e, err := pe(rest[:i])
		if err != nil {
			return err
		}
		c := caseC{e: e}
		for _, p := range strings.Split(rest[i+4:], ",") {
			if q := strings.TrimSpace(p); strings.HasPrefix(q, "2^") { // 2^lo..hi
				j := strings.Index(q, "..")
				lo, _ := strconv.Atoi(q[2:j])
				hi, _ := strconv.Atoi(q[j+2:])
				for v := lo; v <= hi; v++ {
					c.vals = append(c.vals, int64(uint64(1)<<uint(v)))
				}
				continue
			}
			if j := strings.Index(p, ".."); j >= 0 {
				lo, _ := strconv.ParseInt(strings.TrimSpace(p[:j]), 0, 64)
				hi, _ := strconv.ParseInt(strings.TrimSpace(p[j+2:]), 0, 64)
				for v := lo; v <= hi; v++ {
					c.vals = append(c.vals, v)
				}
			} else {
				v, err := strconv.ParseInt(strings.TrimSpace(p), 0, 64)
				if err != nil {
					return err
				}
				c.vals = append(c.vals, v)
			}
		}
		ct.cases = append(ct.cases, c)
	case "expand": // use NAMEDef for the macro NAME in this proof
		for _, n := range strings.Fields(rest) {
			if ct.expand == nil {
				ct.expand = map[string]bool{}
			}
			ct.expand[n] = true
		}
	case "trusted":
		ct.trusted = rest
	case "bounded":
		ct.bounded = rest
	case "inline":
		ct.inline = true
	case "open": // verified, but callers execute the body
		ct.open = true
	case "stride":
		n, err := strconv.Atoi(strings.TrimSpace(rest))
		if err != nil || n < 2 || n > 64 {
			return fmt.Errorf("bad stride %q", rest)
		}
		ct.stride = n
	case "anyphi":
		ct.anyPhi = true
	case "caplen":
		ct.caplen = true
	case "countonly":
		ct.countOnly = true
	case "unroll":
		ct.unroll, _ = strconv.Atoi(rest)
		ct.unroll++
	case "thorough":
		ct.thorough = true
	case "buffer": // working storage that may be reallocated; only for open contracts
		e, err := pe(rest)
		if err != nil {
			return err
		}
		ct.buffers = append(ct.buffers, e)
	case "quick": // the cases verified in the quick tier
		e, err := pe(rest)
		if err != nil {
			return err
		}
		ct.quick = e
	case "hard":
		ct.hard, _ = strconv.Atoi(rest)
	case "variants":
		ct.variants = strings.Fields(rest)
	default:
		return fmt.Errorf("unknown clause %q", word)
	}
	return nil
}

// ---------- evaluation ----------

type TV struct {
	v Value
	t types.Type // nil for untyped constants
	k constant.Value
}

type specEnv struct {
	x      *Exec
	ct     *Contract
	pre    *State
	cur    *State
	vars   map[string]TV
	types  map[string]types.Type
	root   string
	roots  map[string]string // macro parameter -> contract parameter it stands for
	reads  *[]specRead
	depth  int
	lenFor types.Type

	anyID   int // see anyval.go
	anyN    *int
	anyVars []*Term
}

type specRead struct {
	root string
	a    Addr
}

func (e *specEnv) with(name string, v TV) *specEnv {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func specBail(f string, a ...interface{}) { bail("contract: "+f, a...) }

func (e *specEnv) boolE(ex ast.Expr) *Term {
	r := e.eval(ex)
	t, ok := r.v.(*Term)
	if !ok || t.sort != SBool {
		specBail("boolean expected in %s", exprString(ex))
	}
	return t
}

func exprString(ex ast.Expr) string { return types.ExprString(ex) }

func (e *specEnv) intE(ex ast.Expr) *Term {
	r := e.eval(ex)
	r = e.coerce(r, types.Typ[types.Int])
	t, ok := r.v.(*Term)
	if !ok {
		specBail("integer expected in %s", exprString(ex))
	}
	return e.x.asInt(t, r.t)
}

func (e *specEnv) coerce(v TV, t types.Type) TV {
	if v.t != nil {
		return v
	}
	c := e.x.c
	switch {
	case isComplex(t):
		return TV{v: Cplx{c.Rat(ratOf(v.k)), c.RealInt(0)}, t: t}
	case isFloat(t):
		return TV{v: c.Rat(ratOf(v.k)), t: t}
	}
	iv := constant.ToInt(v.k)
	w := widthOf(t)
	if u, ok := constant.Uint64Val(iv); ok {
		return TV{v: c.BV(w, u), t: t}
	}
	if i, ok := constant.Int64Val(iv); ok {
		return TV{v: c.BV(w, uint64(i)), t: t}
	}
	// large constants modulo 2^w
	if bi, ok := new(big.Int).SetString(iv.ExactString(), 10); ok {
		m := new(big.Int).And(bi, new(big.Int).SetUint64(^uint64(0)))
		return TV{v: c.BV(w, m.Uint64()), t: t}
	}
	specBail("constant %s", v.k)
	return v
}

func (e *specEnv) isType(ex ast.Expr) (types.Type, bool) {
	switch n := ex.(type) {
	case *ast.Ident:
		if t, ok := e.types[n.Name]; ok {
			return t, true
		}
		if o := types.Universe.Lookup(n.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), true
			}
		}
	case *ast.ParenExpr:
		return e.isType(n.X)
	}
	return nil, false
}

func (e *specEnv) load(a Addr, t types.Type) Value {
	if e.reads != nil {
		e.recordLeaves(a, t)
	}
	return e.x.load(e.cur, a, t)
}

func (e *specEnv) recordLeaves(a Addr, t types.Type) {
	*e.reads = append(*e.reads, specRead{e.root, a})
}

func (e *specEnv) addr(ex ast.Expr) (Addr, types.Type) {
	x := e.x
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.addr(n.X)
	case *ast.StarExpr:
		b := e.eval(n.X)
		p, ok := x.resolve(e.cur, b.v).(Ptr)
		if !ok {
			specBail("dereference of %T", b.v)
		}
		return p.a, under(b.t).(*types.Pointer).Elem()
	case *ast.IndexExpr:
		b := e.eval(n.X)
		i := e.intE(n.Index)
		switch s := x.resolve(e.cur, b.v).(type) {
		case Slice:
			return s.elemAddr(x.c, i), s.elem
		case Ptr:
			at := under(under(b.t).(*types.Pointer).Elem()).(*types.Array)
			return Addr{s.a.lc + "[]", appendIdx(s.a.idx, i)}, at.Elem()
		case Opaque:
			if mt, ok := under(b.t).(*types.Map); ok {
				return Addr{s.name + "{}", appendIdx(s.idx, i)}, mt.Elem()
			}
		}
		// array-valued field
		if _, ok := under(b.t).(*types.Array); ok {
			a, t := e.addr(n.X)
			return Addr{a.lc + "[]", appendIdx(a.idx, i)}, under(t).(*types.Array).Elem()
		}
		specBail("address of %s", exprString(ex))
	case *ast.SelectorExpr:
		b := e.eval(n.X)
		if p, ok := x.resolve(e.cur, b.v).(Ptr); ok {
			st := under(b.t).(*types.Pointer).Elem()
			a := p.a
			path, ft := e.findField(st, n.Sel.Name)
			for i, f := range path {
				a = Addr{a.lc + "." + f.Name(), a.idx}
				if i+1 < len(path) {
					if pt, ok := under(f.Type()).(*types.Pointer); ok {
						q := e.load(a, f.Type()).(Ptr)
						a = q.a
						_ = pt
					}
				}
			}
			return a, ft
		}
		a, t := e.addr(n.X)
		path, ft := e.findField(t, n.Sel.Name)
		for i, f := range path {
			a = Addr{a.lc + "." + f.Name(), a.idx}
			if i+1 < len(path) {
				if _, ok := under(f.Type()).(*types.Pointer); ok {
					a = e.load(a, f.Type()).(Ptr).a
				}
			}
		}
		return a, ft
	}
	specBail("not addressable: %s", exprString(ex))
	return Addr{}, nil
}

// findField resolves a (possibly promoted) field.
func (e *specEnv) findField(t types.Type, name string) ([]*types.Var, types.Type) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		specBail("field %s of %s", name, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []*types.Var{st.Field(i)}, st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		if p, ok := under(ft).(*types.Pointer); ok {
			ft = p.Elem()
		}
		if _, ok := under(ft).(*types.Struct); ok {
			if path, rt := e.tryField(ft, name); path != nil {
				return append([]*types.Var{f}, path...), rt
			}
		}
	}
	specBail("no field %s in %s", name, t)
	return nil, nil
}
func (e *specEnv) tryField(t types.Type, name string) (p []*types.Var, r types.Type) {
	defer func() {
		if q := recover(); q != nil {
			if _, ok := q.(unsupported); !ok {
				panic(q)
			}
			p, r = nil, nil
		}
	}()
	return e.findField(t, name)
}

func leftmost(ex ast.Expr) string {
	for {
		switch n := ex.(type) {
		case *ast.Ident:
			return n.Name
		case *ast.SelectorExpr:
			ex = n.X
		case *ast.IndexExpr:
			ex = n.X
		case *ast.ParenExpr:
			ex = n.X
		case *ast.StarExpr:
			ex = n.X
		case *ast.SliceExpr:
			ex = n.X
		default:
			return ""
		}
	}
}

func (e *specEnv) rootOf(ex ast.Expr) string {
	r := leftmost(ex)
	if q, ok := e.roots[r]; ok {
		return q
	}
	return r
}

func (e *specEnv) eval(ex ast.Expr) TV {
	x := e.x
	c := x.c
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		return TV{k: constant.MakeFromLiteral(n.Value, n.Kind, 0)}
	case *ast.Ident:
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return TV{v: c.T, t: types.Typ[types.Bool]}
		case "false":
			return TV{v: c.F, t: types.Typ[types.Bool]}
		case "any":
			return TV{v: e.anyTerm(), t: types.Typ[types.Int]}
		}
		specBail("unknown name %s", n.Name)
	case *ast.UnaryExpr:
		v := e.eval(n.X)
		switch n.Op {
		case token.NOT:
			return TV{v: c.Not(v.v.(*Term)), t: v.t}
		case token.SUB:
			if v.t == nil {
				return TV{k: constant.UnaryOp(token.SUB, v.k, 0)}
			}
			switch t := v.v.(type) {
			case *Term:
				return TV{v: c.Neg(t), t: v.t}
			case Cplx:
				return TV{v: Cplx{c.Neg(t.re), c.Neg(t.im)}, t: v.t}
			}
		case token.XOR:
			t := v.v.(*Term)
			return TV{v: c.Sub(c.Neg(t), c.one(t.sort)), t: v.t}
		}
		specBail("unary %s", n.Op)
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		b := e.eval(n.X)
		switch s := x.resolve(e.cur, b.v).(type) {
		case *Struct:
			return e.structField(s, b.t, n.Sel.Name)
		case Ptr, Choice:
			save := e.root
			e2 := *e
			if save == "" {
				e2.root = e.rootOf(ex)
			}
			if _, ok := s.(Choice); ok {
				specBail("undecided pointer in %s", exprString(ex))
			}
			a, t := e2.addr(ex)
			return TV{v: e2.load(a, t), t: t}
		}
		specBail("selector on %T in %s", b.v, exprString(ex))
	case *ast.IndexExpr:
		b := e.eval(n.X)
		switch s := x.resolve(e.cur, b.v).(type) {
		case *ArrV:
			i := e.intE(n.Index)
			if isConst(i) {
				return TV{v: s.els[i.k], t: under(s.typ).(*types.Array).Elem()}
			}
		}
		e2 := *e
		if e2.root == "" {
			e2.root = e.rootOf(ex)
		}
		a, t := e2.addr(ex)
		return TV{v: e2.load(a, t), t: t}
	case *ast.StarExpr:
		a, t := e.addr(n)
		return TV{v: e.load(a, t), t: t}
	case *ast.CallExpr:
		return e.callE(n)
	}
	specBail("expression %s (%T)", exprString(ex), ex)
	return TV{}
}

func (e *specEnv) structField(s *Struct, t types.Type, name string) TV {
	path, ft := e.findField(t, name)
	var v Value = s
	cur := t
	for i, f := range path {
		sv, ok := v.(*Struct)
		if !ok {
			if p, isP := v.(Ptr); isP {
				a := Addr{p.a.lc + "." + f.Name(), p.a.idx}
				v = e.load(a, f.Type())
				cur = f.Type()
				continue
			}
			specBail("field %s of %T", name, v)
		}
		u := under(cur).(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j) == f || u.Field(j).Name() == f.Name() {
				v = sv.fs[j]
			}
		}
		cur = f.Type()
		if i+1 < len(path) {
			if p, ok := under(cur).(*types.Pointer); ok {
				cur = p.Elem()
			}
		}
	}
	return TV{v: v, t: ft}
}

func (e *specEnv) binary(n *ast.BinaryExpr) TV {
	x := e.x
	c := x.c
	a := e.eval(n.X)
	// short circuit keeps guards out of evaluation only syntactically
	b := e.eval(n.Y)
	boolT := types.Typ[types.Bool]
	switch n.Op {
	case token.LAND:
		return TV{v: c.And(a.v.(*Term), b.v.(*Term)), t: boolT}
	case token.LOR:
		return TV{v: c.Or(a.v.(*Term), b.v.(*Term)), t: boolT}
	}
	if n.Op == token.SHL || n.Op == token.SHR {
		if a.t == nil && b.t == nil {
			s, _ := constant.Uint64Val(b.k)
			return TV{k: constant.Shift(a.k, n.Op, uint(s))}
		}
		if a.t == nil {
			a = e.coerce(a, types.Typ[types.Int])
		}
		bi := e.coerce(b, types.Typ[types.Uint64])
		return TV{v: x.scalarOp(n.Op, a.v.(*Term), x.asInt(bi.v.(*Term), bi.t), a.t, types.Typ[types.Uint64], nil, 0), t: a.t}
	}
	if a.t == nil && b.t == nil {
		switch n.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return TV{v: c.Bool(constant.Compare(a.k, n.Op, b.k)), t: boolT}
		case token.QUO:
			if a.k.Kind() == constant.Int && b.k.Kind() == constant.Int {
				return TV{k: constant.BinaryOp(a.k, token.QUO_ASSIGN, b.k)}
			}
		}
		return TV{k: constant.BinaryOp(a.k, n.Op, b.k)}
	}
	if a.t == nil {
		a = e.coerce(a, b.t)
	}
	if b.t == nil {
		b = e.coerce(b, a.t)
	}
	if isComplex(a.t) {
		if t, ok := b.v.(*Term); ok {
			b.v = Cplx{t, c.RealInt(0)}
		}
	} else if isComplex(b.t) {
		if t, ok := a.v.(*Term); ok {
			a.v = Cplx{t, c.RealInt(0)}
			a.t = b.t
		}
	}
	if _, ok := a.v.(*Struct); ok && (n.Op == token.EQL || n.Op == token.NEQ) {
		if _, ok := b.v.(*Struct); ok {
			r := x.valEq(e.cur, a.v, b.v)
			if n.Op == token.NEQ {
				r = c.Not(r)
			}
			return TV{v: r, t: boolT}
		}
	}
	switch n.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return TV{v: x.binop(n.Op, a.v, b.v, a.t, b.t, nil, 0), t: boolT}
	}
	if n.Op == token.QUO || n.Op == token.REM {
		save := x.specSt
		x.specSt = e.cur
		defer func() { x.specSt = save }()
	}
	return TV{v: x.binop(n.Op, a.v, b.v, a.t, b.t, nil, 0), t: a.t}
}

func (e *specEnv) callE(n *ast.CallExpr) TV {
	x := e.x
	c := x.c
	boolT := types.Typ[types.Bool]
	intT := types.Typ[types.Int]
	// conversion
	if t, ok := e.isType(n.Fun); ok && len(n.Args) == 1 {
		v := e.eval(n.Args[0])
		if v.t == nil {
			return e.coerce(v, t)
		}
		return TV{v: x.convert(e.cur, v.v, v.t, t), t: t}
	}
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		specBail("call %s", exprString(n))
	}
	if m, ok := x.macro(id.Name); ok {
		if len(m.params) != len(n.Args) {
			specBail("arity of %s", id.Name)
		}
		if e.depth > 60 {
			specBail("recursive macro %s", id.Name)
		}
		e2 := *e
		e2.depth++
		e2.vars = map[string]TV{}
		for k, v := range e.vars {
			e2.vars[k] = v
		}
		e2.roots = map[string]string{}
		for k, v := range e.roots {
			e2.roots[k] = v
		}
		for i, p := range m.params {
			e2.vars[p] = e.eval(n.Args[i])
			e2.roots[p] = e.rootOf(n.Args[i])
		}
		return e2.eval(m.body)
	}
	switch id.Name {
	case "len":
		v := e.eval(n.Args[0])
		switch s := x.resolve(e.cur, v.v).(type) {
		case Slice:
			return TV{v: s.len, t: intT}
		case *ArrV:
			return TV{v: c.Int(int64(len(s.els))), t: intT}
		case Choice:
			ln := func(v Value) *Term {
				return e.with("$len", TV{v: v, t: e.eval(n.Args[0]).t}).eval(&ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent("$len")}}).v.(*Term)
			}
			return TV{v: c.Ite(s.c, ln(s.a), ln(s.b)), t: intT}
		case Opaque:
			c.ubound["maplen:"+s.name] = 1 << 40
			return TV{v: c.App("maplen:"+s.name, 64, s.idx...), t: intT}
		}
		specBail("len of %T", v.v)
	case "cap":
		v := e.eval(n.Args[0])
		return TV{v: v.v.(Slice).cap, t: intT}
	case "old":
		e2 := *e
		e2.cur = e.pre
		return e2.eval(n.Args[0])
	case "ite":
		g := e.boolE(n.Args[0])
		if g == c.T {
			return e.eval(n.Args[1])
		}
		if g == c.F {
			return e.eval(n.Args[2])
		}
		e1, e2 := *e, *e
		s1, s2 := e.cur.clone(), e.cur.clone()
		s1.assume(g, true)
		s2.assume(c.Not(g), true)
		e1.cur, e2.cur = s1, s2
		if e.pre == e.cur {
			e1.pre, e2.pre = s1, s2
		}
		a, b := e1.eval(n.Args[1]), e2.eval(n.Args[2])
		if a.t == nil && b.t == nil {
			a, b = e.coerce(a, intT), e.coerce(b, intT)
		}
		if a.t == nil {
			a = e.coerce(a, b.t)
		}
		if b.t == nil {
			b = e.coerce(b, a.t)
		}
		return TV{v: x.iteValue(g, a.v, b.v), t: a.t}
	case "implies":
		g := e.boolE(n.Args[0])
		if g == c.F {
			return TV{v: c.T, t: boolT}
		}
		e2 := *e
		s := e.cur.clone()
		s.assume(g, true)
		e2.cur = s
		if e.pre == e.cur {
			e2.pre = s
		}
		return TV{v: c.Implies(g, e2.boolE(n.Args[1])), t: boolT}
	case "forall":
		// forall(k, lo, hi, body): skolemised; only valid in positive positions
		nm := n.Args[0].(*ast.Ident).Name
		lo, hi := e.intE(n.Args[1]), e.intE(n.Args[2])
		k := c.Fresh("q_"+nm, 64)
		g := c.And(c.Sle(lo, k), c.Slt(k, hi))
		e2 := e.with(nm, TV{v: k, t: intT})
		s := e2.cur.clone()
		s.assume(g, true)
		if e.pre == e.cur {
			e2.pre = s
		}
		e2.cur = s
		return TV{v: c.Implies(g, e2.boolE(n.Args[3])), t: boolT}
	case "sum":
		nm := n.Args[0].(*ast.Ident).Name
		lo, hi := e.intE(n.Args[1]), e.intE(n.Args[2])
		num := c.Sub(hi, lo)
		if num.op == OConst && num.k >= 1 && num.k <= 8 {
			var acc *Term
			for i := uint64(0); i < num.k; i++ {
				b := e.with(nm, TV{v: c.Add(lo, c.Int(int64(i))), t: intT}).eval(n.Args[3])
				t, ok := b.v.(*Term)
				if !ok {
					acc = nil
					break
				}
				if acc == nil {
					acc = t
				} else {
					acc = c.Add(acc, t)
				}
				if i+1 == num.k {
					return TV{v: acc, t: b.t}
				}
			}
		}
		k := c.Fresh("s_"+nm, 64)
		c.ubound[k.name] = 1<<64 - 2 // below some 64-bit length
		s := e.cur.clone()
		s.assume(c.Ult(k, num), false)
		e2 := e.with(nm, TV{v: c.Add(lo, k), t: intT})
		if e.pre == e.cur {
			e2.pre = s
		}
		e2.cur = s
		b := e2.eval(n.Args[3])
		switch t := b.v.(type) {
		case *Term:
			return TV{v: c.Sum(k, num, t), t: b.t}
		case Cplx:
			return TV{v: Cplx{c.Sum(k, num, t.re), c.Sum(k, num, t.im)}, t: b.t}
		}
	case "lam":
		nm := n.Args[0].(*ast.Ident).Name
		hi := e.intE(n.Args[1])
		k := c.Fresh("l_"+nm, 64)
		c.ubound[k.name] = 1<<64 - 2
		s := e.cur.clone()
		s.assume(c.Ult(k, hi), false)
		e2 := e.with(nm, TV{v: k, t: intT})
		if e.pre == e.cur {
			e2.pre = s
		}
		e2.cur = s
		b := e2.eval(n.Args[2])
		return TV{v: c.Lam(k, hi, b.v.(*Term)), t: types.Typ[types.Invalid]}
	case "uf", "ufR", "ufB":
		// uf(T, "name", args...) / ufR("name", args...) / ufB
		args := n.Args
		var rt types.Type = types.Typ[types.Float64]
		if id.Name == "ufB" {
			rt = boolT
		}
		if id.Name == "uf" {
			t, ok := e.isType(args[0])
			if !ok {
				specBail("uf type")
			}
			rt = t
			args = args[1:]
		}
		nm, _ := strconv.Unquote(args[0].(*ast.BasicLit).Value)
		if id.Name == "uf" {
			nm += ":" + rt.String()
		}
		var ts []*Term
		for _, a := range args[1:] {
			v := e.coerce(e.eval(a), intT)
			switch t := v.v.(type) {
			case *Term:
				ts = append(ts, t)
			case Cplx:
				ts = append(ts, t.re, t.im)
			default:
				specBail("uf argument %T", v.v)
			}
		}
		return TV{v: x.initValue(nm, ts, rt), t: rt}
	case "like":
		return e.likeCall(n)
	case "distinct":
		return e.distinctCall(n)
	case "callf":
		// callf(T, f, args...): result of calling an opaque function value
		rt, ok := e.isType(n.Args[0])
		if !ok {
			specBail("callf type")
		}
		fv := e.eval(n.Args[1])
		o, ok := fv.v.(Opaque)
		if !ok {
			specBail("callf on %T", fv.v)
		}
		ts := append([]*Term{}, o.idx...)
		for _, a := range n.Args[2:] {
			v := e.coerce(e.eval(a), intT)
			ts = append(ts, v.v.(*Term))
		}
		return TV{v: x.initValue("call:"+o.name, ts, rt), t: rt}
	case "real":
		return TV{v: e.eval(n.Args[0]).v.(Cplx).re, t: types.Typ[types.Float64]}
	case "imag":
		return TV{v: e.eval(n.Args[0]).v.(Cplx).im, t: types.Typ[types.Float64]}
	case "complex":
		a := e.coerce(e.eval(n.Args[0]), types.Typ[types.Float64])
		b := e.coerce(e.eval(n.Args[1]), types.Typ[types.Float64])
		return TV{v: Cplx{a.v.(*Term), b.v.(*Term)}, t: types.Typ[types.Complex128]}
	case "has":
		// has(m, k): map membership
		m := e.eval(n.Args[0])
		o, ok := x.resolve(e.cur, m.v).(Opaque)
		if !ok {
			specBail("membership in %T", m.v)
		}
		k := e.intE(n.Args[1])
		return TV{v: x.load(e.cur, Addr{o.name + "{?}", appendIdx(o.idx, k)}, boolT), t: boolT}
	case "sizeT":
		t, _ := e.isType(n.Args[0])
		return TV{k: constant.MakeInt64(int64(widthOf(t)))}
	case "bitlen": // number of significant bits
		a := e.eval(n.Args[0])
		t := a.v.(*Term)
		if t.sort < 64 {
			t = c.Zext(t, 64)
		}
		return TV{v: e.x.bitLen(t), t: types.Typ[types.Int]}
	case "signedT":
		t, _ := e.isType(n.Args[0])
		return TV{v: c.Bool(!isUnsigned(t)), t: boolT}
	case "slt", "sle": // signed comparison of same-width integers
		a := e.eval(n.Args[0])
		b := e.eval(n.Args[1])
		if a.t == nil {
			a = e.coerce(a, b.t)
		}
		b = e.coerce(b, a.t)
		if id.Name == "slt" {
			return TV{v: c.Slt(a.v.(*Term), b.v.(*Term)), t: boolT}
		}
		return TV{v: c.Sle(a.v.(*Term), b.v.(*Term)), t: boolT}
	case "same":
		// same(a, b): identical references
		a, b := e.eval(n.Args[0]), e.eval(n.Args[1])
		return TV{v: c.Bool(x.sameValue(a.v, b.v)), t: boolT}
	case "sameloc":
		// sameloc(a, b): the same storage location
		a, _ := e.addr(n.Args[0])
		b, _ := e.addr(n.Args[1])
		r := c.Bool(a.lc == b.lc && len(a.idx) == len(b.idx))
		if a.lc == b.lc && len(a.idx) == len(b.idx) {
			for i := range a.idx {
				r = c.And(r, c.Eq(a.idx[i], b.idx[i]))
			}
		}
		return TV{v: r, t: boolT}
	case "isnil":
		a := e.eval(n.Args[0])
		return TV{v: x.binop(token.EQL, a.v, x.zeroValue(a.t), a.t, a.t, nil, 0), t: boolT}
	case "smod":
		// smod(a, n): mathematical residue in [0,n)
		a := e.coerce(e.eval(n.Args[0]), intT)
		m := e.coerce(e.eval(n.Args[1]), a.t)
		at, mt := a.v.(*Term), m.v.(*Term)
		r := c.Bin(OSrem, at, mt)
		return TV{v: c.Ite(c.Slt(r, c.zero(at.sort)), c.Add(r, mt), r), t: a.t}
	case "iopos":
		return TV{v: x.ghosts(e.cur)[gPos], t: intT}
	case "iocnt":
		return TV{v: x.ghosts(e.cur)[gCnt], t: intT}
	case "iofail":
		return TV{v: x.ghosts(e.cur)[gFailed], t: boolT}
	case "strfail":
		return TV{v: c.App("strfail", SBool, e.coerce(e.eval(n.Args[0]), intT).v.(*Term)), t: boolT}
	case "be64", "be32":
		w, bt := 64, types.Typ[types.Uint64]
		if id.Name == "be32" {
			w, bt = 32, types.Typ[types.Uint32]
		}
		return TV{v: c.App(id.Name, Sort(w), e.coerce(e.eval(n.Args[0]), intT).v.(*Term), e.coerce(e.eval(n.Args[1]), intT).v.(*Term)), t: bt}
	case "wrec", "rrec":
		j := e.coerce(e.eval(n.Args[0]), intT).v.(*Term)
		k := e.coerce(e.eval(n.Args[1]), intT).v.(*Term)
		bt := types.Typ[types.Uint8]
		if id.Name == "rrec" {
			return TV{v: c.App("rrec", 8, j, k), t: bt}
		}
		return TV{v: x.read(e.cur, e.cur.mem["$wrec*[]"], Addr{"$wrec*[]", []*Term{j, k}}, bt), t: bt}
	case "fresh":
		specBail("fresh is only allowed in ensures")
	}
	specBail("unknown function %s", id.Name)
	return TV{}
}

// ---------- binding ----------

func (x *Exec) bindContract(ct *Contract, fn *ssa.Function, args []Value, st *State) *specEnv {
	e := &specEnv{x: x, ct: ct, pre: st, cur: st, vars: map[string]TV{}, types: map[string]types.Type{}}
	if len(ct.params) != len(fn.Params) {
		specBail("%s: contract names %d parameters, the function has %d", ct.key, len(ct.params), len(fn.Params))
	}
	for i, p := range ct.params {
		e.vars[p] = TV{v: args[i], t: fn.Params[i].Type()}
	}
	ta := fn.TypeArgs()
	for i, t := range ct.tparams {
		if i < len(ta) {
			e.types[t] = ta[i]
		}
	}
	if len(ct.lets) > 0 {
		for _, l := range ct.lets {
			e.vars[l.name] = e.eval(l.e)
		}
	}
	return e
}

// leaves enumerates the scalar leaves reachable inside a location of type t
// (through slices, not through pointers).
func (x *Exec) leaves(st *State, a Addr, t types.Type, nfix int, fn func(lc string, fixed []*Term, arity int, t types.Type)) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.leaves(st, Addr{a.lc + "." + u.Field(i).Name(), a.idx}, u.Field(i).Type(), nfix, fn)
		}
	case *types.Array:
		x.leaves(st, Addr{a.lc + "[]", appendIdx(a.idx, x.c.Fresh("w", 64))}, u.Elem(), nfix, fn)
	case *types.Slice:
		v := x.load(st, a, t)
		s, ok := x.resolve(st, v).(Slice)
		if !ok || s.lc == "nil" {
			return
		}
		x.leaves(st, Addr{s.lc + "[]", appendIdx(s.idx, x.c.Fresh("w", 64))}, u.Elem(), nfix, fn)
	case *types.Basic:
		fn(a.lc, a.idx[:nfix], len(a.idx), t)
	case *types.Pointer:
	default:
	}
}

func (e *specEnv) scratchLeaves(st *State, fn func(root, lc string, fixed []*Term, arity int, t types.Type)) {
	for _, s := range e.ct.scratch {
		x := e.x
		e2 := e.with("_", TV{})
		// an index _ stands for any: it becomes a nil entry of the fixed indices
		wild := x.c.Fresh("w", 64)
		e2.vars["_"] = TV{v: wild, t: types.Typ[types.Int]}
		e2.cur = st
		v := e2.eval(s)
		root := leftmost(s)
		cb := func(lc string, fixed []*Term, ar int, t types.Type) {
			fs := append([]*Term{}, fixed...)
			for i, f := range fs {
				if f == wild {
					fs[i] = nil
				}
			}
			fn(root, lc, fs, ar, t)
		}
		switch p := x.resolve(st, v.v).(type) {
		case Slice:
			x.leaves(st, Addr{p.lc + "[]", appendIdx(p.idx, x.c.Fresh("w", 64))}, p.elem, len(p.idx), cb)
		case Ptr:
			x.leaves(st, p.a, under(v.t).(*types.Pointer).Elem(), len(p.a.idx), cb)
		default:
			if isAddressable(s) {
				a, t := e2.addr(s)
				x.leaves(st, a, t, len(a.idx), cb)
			} else {
				// a struct value parameter: walk its slices
				x.leavesOfValue(st, v.v, v.t, cb)
			}
		}
	}
}

func (x *Exec) leavesOfValue(st *State, v Value, t types.Type, cb func(lc string, fixed []*Term, ar int, t types.Type)) {
	switch s := v.(type) {
	case *Struct:
		u := under(t).(*types.Struct)
		for i, f := range s.fs {
			x.leavesOfValue(st, f, u.Field(i).Type(), cb)
		}
	case Slice:
		x.leaves(st, Addr{s.lc + "[]", appendIdx(s.idx, x.c.Fresh("w", 64))}, s.elem, len(s.idx), cb)
	}
}

func isAddressable(ex ast.Expr) bool {
	switch n := ex.(type) {
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return isAddressable(n.X)
	}
	return false
}

type setEffect struct {
	root  string
	a     Addr
	vars  []BVar
	guard *Term
	val   Value
	t     types.Type
	reads []specRead
	text  string
}

// effects evaluates the sets clauses in the given pre-state.
func (e *specEnv) effects() []setEffect {
	x := e.x
	c := x.c
	var out []setEffect
	for _, s := range e.ct.sets {
		e2 := *e
		st := e.cur.clone()
		e2.cur, e2.pre = st, st
		var vars []BVar
		ee := &e2
		for _, b := range s.vars {
			k := c.Fresh("e_"+b.name, 64)
			lo := c.Int(0)
			if b.lo != nil {
				lo = ee.intE(b.lo)
			}
			n := c.Sub(ee.intE(b.hi), lo)
			st.assume(c.Ult(k, n), false)
			vars = append(vars, BVar{k, n})
			if x.quantBound == nil {
				x.quantBound = map[*Term]*Term{}
			}
			x.quantBound[k] = n
			ee = ee.with(b.name, TV{v: c.Add(lo, k), t: types.Typ[types.Int]})
			ee.cur, ee.pre = st, st
		}
		g := c.T
		if s.cond != nil {
			g = ee.boolE(s.cond)
			st.assume(g, true)
		}
		a, t := ee.addr(s.lhs)
		var reads []specRead
		ee.reads = &reads
		var vts []*Term
		for _, v := range vars {
			vts = append(vts, v.v)
		}
		ee = ee.withAny(vts)
		ee.reads = &reads
		var v TV
		if isAnyClause(s.rhs) {
			v = TV{v: ee.unspecified(t), t: t}
		} else {
			v = ee.coerce(ee.eval(s.rhs), t)
		}
		ee.reads = nil
		out = append(out, setEffect{leftmost(s.lhs), a, vars, g, v.v, t, reads, s.text})
	}
	return out
}

func (e *specEnv) aliasAllowed(p, q string) bool {
	for _, g := range e.ct.alias {
		a, b := false, false
		for _, n := range g {
			if n == p {
				a = true
			}
			if n == q {
				b = true
			}
		}
		if a && b {
			return true
		}
	}
	return false
}

// applyContract uses the callee's contract at a call site.
func (x *Exec) applyContract(ct *Contract, fn *ssa.Function, args []Value, st *State, pos token.Pos) (Value, bool) {
	c := x.c
	x.calls[ct.key]++
	e := x.bindContract(ct, fn, args, st)
	for i, r := range ct.requires {
		x.oblige("precondition of "+ct.key+": "+ct.reqText[i], pos, st, e.boolE(r))
	}
	for _, s := range ct.shapes {
		x.oblige("shape precondition of "+ct.key+": "+s.text, pos, st, e.shapeGoal(s))
	}
	if ct.panics != nil {
		pc := e.boolE(ct.panics)
		if pc != c.F {
			bad := st.clone()
			bad.assume(pc, true)
			x.panicAt(pos, bad)
			st.assume(c.Not(pc), true)
		}
	}
	effs := e.effects()
	// aliasing side conditions
	type wr struct {
		root  string
		lc    string
		idx   []*Term
		facts []*Term
	}
	var ws []wr
	for _, f := range effs {
		var fs []*Term
		for _, v := range f.vars {
			if v.n != nil {
				fs = append(fs, c.Ult(v.v, v.n))
			}
		}
		ws = append(ws, wr{f.root, f.a.lc, f.a.idx, append(fs, f.guard)})
	}
	e.scratchLeaves(st, func(root, lc string, fixed []*Term, ar int, t types.Type) {
		idx := append([]*Term{}, fixed...)
		for i, f := range idx {
			if f == nil {
				idx[i] = c.Fresh("w", 64)
			}
		}
		for len(idx) < ar {
			idx = append(idx, c.Fresh("w", 64))
		}
		ws = append(ws, wr{root, lc, idx, nil})
	})
	for _, f := range effs {
		for _, rd := range f.reads {
			for _, w := range ws {
				if w.root == rd.root || w.lc != rd.a.lc {
					continue
				}
				if e.aliasAllowed(w.root, rd.root) {
					wv, rv := x.derefLike(st, e.vars[w.root], e.vars[rd.root])
					if x.sameValue(wv, rv) || x.provablySame(st, wv, rv) {
						continue
					}
				}
				sub := Subst{}
				var fs []*Term
				for _, v := range f.vars {
					nv := c.Fresh("b", 64)
					sub[v.v] = nv
					if v.n != nil {
						fs = append(fs, c.Ult(nv, c.Subst(v.n, sub)))
					}
				}
				var eqs []*Term
				for i := range w.idx {
					eqs = append(eqs, c.Eq(w.idx[i], c.Subst(rd.a.idx[i], sub)))
				}
				goal := c.Not(c.And(append(append(eqs, fs...), w.facts...)...))
				x.oblige(fmt.Sprintf("no overlap of %s and %s in call of %s", w.root, rd.root, ct.key), pos, st, goal)
			}
		}
	}
	// scratch first, then the specified writes (all evaluated in the pre-state)
	pre := st.clone()
	e.scratchLeaves(pre, func(root, lc string, fixed []*Term, ar int, t types.Type) {
		x.allocN++
		var vars []BVar
		var idx []*Term
		g := c.T
		for i := 0; i < ar; i++ {
			if i < len(fixed) && fixed[i] != nil {
				idx = append(idx, fixed[i])
				continue
			}
			v := c.Fresh("z", 64)
			vars = append(vars, BVar{v, nil})
			idx = append(idx, v)
		}
		vidx := append(append([]*Term{}, x.gen...), idx...)
		x.pushLayer(st, lc, &Layer{vars: vars, guard: g, idx: idx, val: x.initValue(fmt.Sprintf("scratch%d:%s", x.allocN, lc), vidx, t)})
	})
	for _, f := range effs {
		x.storeVars(st, f.a, f.t, f.val, f.vars, f.guard)
	}
	// results
	var rv Value
	res := fn.Signature.Results()
	mk := func(i int) Value {
		rt := res.At(i).Type()
		if i < len(ct.result) {
			if id, ok := ct.result[i].(*ast.Ident); !ok || id.Name != "_" {
				e2 := *e
				e2.cur, e2.pre = pre, pre
				ee := e2.withAny(nil)
				return ee.coerce(ee.eval(ct.result[i]), rt).v
			}
		}
		x.allocN++
		return x.initValue(fmt.Sprintf("ret@%d", x.allocN), append([]*Term{}, x.gen...), rt)
	}
	switch res.Len() {
	case 0:
	case 1:
		rv = mk(0)
	default:
		t := Tuple{}
		for i := 0; i < res.Len(); i++ {
			t = append(t, mk(i))
		}
		rv = t
	}
	if len(ct.ensures) > 0 {
		e2 := *e
		e2.pre, e2.cur = pre, st
		ee := &e2
		ee = bindResults(ee, rv, res)
		for i, en := range ct.ensures {
			if _, _, q := forallHyp(en); q || ct.lemma[i] {
				continue // only a proof goal: as an assumption it would need an existential
			}
			x.assumeSpec(st, ee, en)
		}
	}
	return rv, true
}

func bindResults(e *specEnv, rv Value, res *types.Tuple) *specEnv {
	switch res.Len() {
	case 0:
	case 1:
		e = e.with("result", TV{v: rv, t: res.At(0).Type()})
	default:
		for i := 0; i < res.Len(); i++ {
			e = e.with(fmt.Sprintf("result%d", i), TV{v: rv.(Tuple)[i], t: res.At(i).Type()})
		}
	}
	return e
}

// provablySame: two reference values denote the same object.
// derefLike loads through a pointer when it is compared with a value.
func (x *Exec) derefLike(st *State, a, b TV) (Value, Value) {
	av, bv := x.resolve(st, a.v), x.resolve(st, b.v)
	ap, aok := av.(Ptr)
	bp, bok := bv.(Ptr)
	if aok && !bok {
		av = x.load(st, ap.a, ap.typ)
	}
	if bok && !aok {
		bv = x.load(st, bp.a, bp.typ)
	}
	return av, bv
}

func (x *Exec) provablySame(st *State, a, b Value) bool {
	a, b = x.resolve(st, a), x.resolve(st, b)
	switch av := a.(type) {
	case Slice:
		bv, ok := b.(Slice)
		if !ok || av.lc != bv.lc {
			return false
		}
		cs := []*Term{x.c.Eq(av.off, bv.off), x.c.Eq(av.len, bv.len)}
		for i := range av.idx {
			cs = append(cs, x.c.Eq(av.idx[i], bv.idx[i]))
		}
		return x.decide(st, x.c.And(cs...)) == 1
	case *Struct:
		bv, ok := b.(*Struct)
		if !ok || len(av.fs) != len(bv.fs) {
			return false
		}
		for i := range av.fs {
			if !x.provablySame(st, av.fs[i], bv.fs[i]) {
				return false
			}
		}
		return true
	case Ptr:
		bv, ok := b.(Ptr)
		if !ok || av.a.lc != bv.a.lc {
			return false
		}
		var cs []*Term
		for i := range av.a.idx {
			cs = append(cs, x.c.Eq(av.a.idx[i], bv.a.idx[i]))
		}
		return x.decide(st, x.c.And(cs...)) == 1
	case *Term:
		bv, ok := b.(*Term)
		return ok && av.sort == bv.sort && x.decide(st, x.c.Eq(av, bv)) == 1
	}
	return false
}

// shape path: expression with _ as index wildcard, e.g. ct.Value[_].Coeffs
func (e *specEnv) shapeGoal(s ShapeC) *Term {
	c := e.x.c
	st := e.cur.clone()
	e2 := *e
	e2.cur, e2.pre = st, st
	ee := &e2
	p, guard := ee.openWild(s.path)
	ee = p.env
	v := ee.eval(p.ex)
	rv := e.x.resolve(st, v.v)
	if t, ok := rv.(*Term); ok {
		n := ee.coerce(ee.eval(s.n), v.t)
		return c.Implies(guard, c.Eq(t, n.v.(*Term)))
	}
	sl, ok := rv.(Slice)
	if !ok {
		specBail("shape of %T: %s", v.v, s.text)
	}
	n := ee.intE(s.n)
	return c.Implies(guard, c.Eq(sl.len, n))
}

type opened struct {
	ex  ast.Expr
	env *specEnv
}

func isMap(t types.Type) bool {
	_, ok := under(t).(*types.Map)
	return ok
}

// openWild replaces each _ (and $1, ...) index by a fresh in-range constant.
func (e *specEnv) openWild(ex ast.Expr) (opened, *Term) {
	c := e.x.c
	switch n := ex.(type) {
	case *ast.IndexExpr:
		o, g := e.openWild(n.X)
		if id, ok := n.Index.(*ast.Ident); ok && (id.Name == "_" || strings.HasPrefix(id.Name, "i_")) {
			w := c.Fresh("wild", 64)
			nm := fmt.Sprintf("_w%d", w.id)
			if id.Name != "_" {
				nm = id.Name
			}
			b := o.env.eval(o.ex)
			if sl, ok := e.x.resolve(e.cur, b.v).(Slice); ok {
				r := c.Ult(w, sl.len)
				g = c.And(g, r)
				o.env.cur.assume(r, false)
			} else if m, ok := e.x.resolve(e.cur, b.v).(Opaque); ok && isMap(b.t) {
				g = c.And(g, e.x.load(e.cur, Addr{m.name + "{?}", appendIdx(m.idx, w)}, types.Typ[types.Bool]).(*Term))
			} else {
				specBail("wildcard index over %T", b.v)
			}
			env := o.env.with(nm, TV{v: w, t: types.Typ[types.Int]})
			return opened{&ast.IndexExpr{X: o.ex, Index: ast.NewIdent(nm)}, env}, g
		}
		return opened{&ast.IndexExpr{X: o.ex, Index: n.Index}, o.env}, g
	case *ast.SelectorExpr:
		o, g := e.openWild(n.X)
		return opened{&ast.SelectorExpr{X: o.ex, Sel: n.Sel}, o.env}, g
	case *ast.StarExpr:
		o, g := e.openWild(n.X)
		return opened{&ast.StarExpr{X: o.ex}, o.env}, g
	case *ast.ParenExpr:
		return e.openWild(n.X)
	}
	return opened{ex, e}, c.T
}

// macro finds a definition; proofs of the package that owns it may see a more
// detailed one (the same function of the same arguments).
func (x *Exec) macro(name string) (*Macro, bool) {
	if x.expand[name] {
		if m, ok := x.env.macros[name+"Def"]; ok {
			return m, true
		}
	}
	if m, ok := x.env.macros[name+"@"+x.pkg]; ok {
		return m, true
	}
	m, ok := x.env.macros[name]
	return m, ok
}

// assumeSpec assumes a contract expression; quantified facts become instantiation schemas.
func (x *Exec) assumeSpec(st *State, e *specEnv, ex ast.Expr) {
	if b, ok := ex.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		x.assumeSpec(st, e, b.X)
		x.assumeSpec(st, e, b.Y)
		return
	}
	if call, ok := ex.(*ast.CallExpr); ok {
		if id, ok := call.Fun.(*ast.Ident); ok {
			if m, isM := x.macro(id.Name); isM {
				e2 := *e
				e2.vars = map[string]TV{}
				for k, v := range e.vars {
					e2.vars[k] = v
				}
				for i, p := range m.params {
					e2.vars[p] = e.eval(call.Args[i])
				}
				x.assumeSpec(st, &e2, m.body)
				return
			}
			if id.Name == "forall" {
				x.assumeForall(st, e, call, nil, nil)
				return
			}
		}
	}
	e2 := *e
	st.assume(e2.boolE(ex), false)
}

// forallHyp splits implies(A, B) where A is quantified.
func forallHyp(ex ast.Expr) (a, b ast.Expr, ok bool) {
	c, isC := ex.(*ast.CallExpr)
	if !isC {
		return
	}
	if id, isI := c.Fun.(*ast.Ident); !isI || id.Name != "implies" {
		return
	}
	ast.Inspect(c.Args[0], func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is && id.Name == "forall" {
			ok = true
		}
		return true
	})
	return c.Args[0], c.Args[1], ok
}

func (x *Exec) assumeForall(st *State, e *specEnv, call *ast.CallExpr, vars []*Term, guards []*Term) {
	c := x.c
	nm := call.Args[0].(*ast.Ident).Name
	lo, hi := e.intE(call.Args[1]), e.intE(call.Args[2])
	k := c.Fresh("u_"+nm, 64)
	e2 := e.with(nm, TV{v: k, t: types.Typ[types.Int]})
	g := c.And(c.Sle(lo, k), c.Slt(k, hi))
	s := e2.cur.clone()
	s.assume(g, false)
	e2.cur = s
	if e.pre == e.cur {
		e2.pre = s
	}
	vars = append(vars, k)
	guards = append(guards, g)
	if inner, ok := call.Args[3].(*ast.CallExpr); ok {
		if id, ok := inner.Fun.(*ast.Ident); ok && id.Name == "forall" {
			x.assumeForall(st, e2, inner, vars, guards)
			return
		}
	}
	body := e2.boolE(call.Args[3])
	full := c.Implies(c.And(guards...), body)
	if !x.addSchema(vars, body, full) {
		specBail("no trigger for quantified assumption %s", exprString(call))
	}
}

// addSchema makes a fact that holds for all values of vars available by
// instantiation; applications in body having all of vars as direct
// arguments are the triggers.
func (x *Exec) addSchema(vars []*Term, body, full *Term) bool {
	if dbgSchema {
		fmt.Println("SCHEMA", vars, body, full)
	}
	c := x.c
	// triggers: applications having all variables as direct arguments
	seen := map[*Term]bool{}
	var rec func(t *Term)
	done := map[string]bool{}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp {
			pos := map[*Term]int{}
			for i, a := range t.args {
				for _, v := range vars {
					if a == v {
						pos[v] = i
					}
				}
			}
			if len(pos) == len(vars) && !done[t.name] {
				done[t.name] = true
				name := t.name
				old := x.p.schema[name]
				pattern := t
				x.p.schema[name] = func(args []*Term) []*Term {
					var r []*Term
					if old != nil {
						r = old(args)
					}
					sub := Subst{}
					for v, i := range pos {
						sub[v] = args[i]
					}
					var eqs []*Term
					for i, a := range pattern.args {
						isV := false
						for _, v := range vars {
							if a == v {
								isV = true
							}
						}
						if !isV {
							eqs = append(eqs, c.Eq(c.Subst(a, sub), args[i]))
						}
					}
					return append(r, c.Implies(c.And(eqs...), c.Subst(full, sub)))
				}
			}
		}
		if t.op == OApp && !done[t.name] {
			// one argument is a sum in which the variables occur: try the variables and applications of the actual argument
			at := -1
			for i, a := range t.args {
				if mentionsAny(a, vars) {
					if at >= 0 {
						at = -2
						break
					}
					at = i
				}
			}
			ok := at >= 0 && t.args[at].op != OApp
			for _, v := range vars {
				ok = ok && mentionsAny(t.args[at], []*Term{v})
			}
			if ok {
				done[t.name] = true
				old := x.p.schema[t.name]
				pattern := t
				x.p.schema[t.name] = func(args []*Term) []*Term {
					var r []*Term
					if old != nil {
						r = old(args)
					}
					atoms := leafAtoms(args[at])
					if len(atoms) > 8 {
						return r
					}
					atoms = append(atoms, c.Int(0))
					sub := Subst{}
					var best Subst // the match with the simplest remainder
					bestN := 0
					var try func(i int)
					try = func(i int) {
						if i == len(vars)-1 {
							// the last variable is what is left when it has coefficient 1
							sub[vars[i]] = c.Int(0)
							rest := c.Sub(args[at], c.Subst(pattern.args[at], sub))
							sub[vars[i]] = rest
							if c.Subst(pattern.args[at], sub) != args[at] {
								return
							}
							if n := len(rest.mons); best == nil || n < bestN {
								best, bestN = Subst{}, n
								for a, b := range sub {
									best[a] = b
								}
							}
							return
						}
						for _, a := range atoms {
							if a.sort == vars[i].sort {
								sub[vars[i]] = a
								try(i + 1)
							}
						}
					}
					try(0)
					if best != nil {
						var eqs []*Term
						for j, a := range pattern.args {
							if j != at {
								eqs = append(eqs, c.Eq(a, args[j]))
							}
						}
						r = append(r, c.Implies(c.And(eqs...), c.Subst(full, best)))
					}
					return r
				}
			}
		}
		for _, a := range t.children() {
			rec(a)
		}
	}
	rec(body)
	return len(done) > 0
}

func mentionsAny(t *Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, v := range vars {
			if t == v {
				return true
			}
		}
		for _, a := range t.children() {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// leafAtoms returns the variables and applications a sum is made of.
func leafAtoms(t *Term) []*Term {
	if t.op == OVar || t.op == OApp {
		return []*Term{t}
	}
	var r []*Term
	seen := map[*Term]bool{}
	for _, a := range t.children() {
		for _, l := range leafAtoms(a) {
			if !seen[l] {
				seen[l] = true
				r = append(r, l)
			}
		}
	}
	return r
}

// ---------- verification of a contract ----------

type Verdict struct {
	Key     string
	Inst    string
	OK      bool
	Obl     []Oblig
	Err     string
	Panics  []string
	Calls   map[string]int
	Wall    time.Duration
	Variant string
}

// aliasConfigs enumerates representatives: every assignment of alias-group
// members to an earlier member or to itself.
func aliasConfigs(ct *Contract) []map[string]string {
	cfgs := []map[string]string{{}}
	for _, g := range ct.alias {
		var next []map[string]string
		for _, base := range cfgs {
			parts := partitions(g)
			for _, p := range parts {
				m := map[string]string{}
				for k, v := range base {
					m[k] = v
				}
				for k, v := range p {
					m[k] = v
				}
				next = append(next, m)
			}
		}
		cfgs = next
	}
	return cfgs
}

func partitions(g []string) []map[string]string {
	var out []map[string]string
	var rec func(i int, reps []string, m map[string]string)
	rec = func(i int, reps []string, m map[string]string) {
		if i == len(g) {
			n := map[string]string{}
			for k, v := range m {
				n[k] = v
			}
			out = append(out, n)
			return
		}
		rec(i+1, append(append([]string{}, reps...), g[i]), m)
		for _, r := range reps {
			m[g[i]] = r
			rec(i+1, reps, m)
			delete(m, g[i])
		}
	}
	rec(0, nil, map[string]string{})
	return out
}

func (env *Env) verify(ct *Contract, fn *ssa.Function, cfg map[string]string, caseVals []int64, inst string) (v Verdict) {
	t0 := time.Now()
	x := NewExec(env)
	x.pkg = strings.SplitN(ct.key, ":", 2)[0]
	x.expand = ct.expand
	x.shares = ct.shares
	x.unrollN = ct.unroll
	x.countOnly = ct.countOnly
	defer x.p.Close()
	v = Verdict{Key: ct.key, Inst: inst}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			v.Err = u.msg
			v.OK = false
		}
		v.Obl = x.obl
		v.Calls = x.calls
		v.Wall = time.Since(t0)
		if x.failed > 0 {
			v.OK = false
		}
	}()
	x.self = fn
	if ct.hard > 0 {
		x.p.hardMS = ct.hard
	}
	x.deadline = time.Now().Add(env.fnBudget)
	x.capIsLen = ct.caplen
	x.anyPhi = ct.anyPhi
	c := x.c
	if fn.Blocks == nil {
		tr := env.asmImpl(fn)
		if tr == nil {
			bail("no body")
		}
		fn = tr
		x.self = tr
	}
	// parameters
	st := &State{mem: map[string]*Layer{}}
	args := make([]Value, len(fn.Params))
	mkArgs := func() {
		byName := map[string]Value{}
		for i, p := range fn.Params {
			nm := ct.params[i]
			if rep, ok := cfg[nm]; ok {
				args[i] = byName[rep]
				// a pointer receiver aliased with a value of the pointed-to type
				if rp, isP := args[i].(Ptr); isP {
					if _, want := under(p.Type()).(*types.Pointer); !want {
						args[i] = x.load(st, rp.a, rp.typ)
					}
				}
			} else {
				args[i] = x.initValue(nm, nil, p.Type())
			}
			byName[nm] = args[i]
		}
	}
	if len(ct.params) != len(fn.Params) {
		bail("contract names %d parameters, the function has %d", len(ct.params), len(fn.Params))
	}
	mkArgs()
	// shapes: install one after the other, rebuilding the argument values
	shapes := func() {
		for _, s := range ct.shapes {
			x.installShape(ct, fn, args, st, s)
			mkArgs()
		}
	}
	shapes()
	var caseFacts []*Term
	e := x.bindContract(ct, fn, args, st)
	// case split: substitute concrete values via memory overrides
	for i, cs := range ct.cases {
		if cs.boolean {
			g := e.boolE(cs.e)
			if caseVals[i] == 0 {
				g = c.Not(g)
			}
			caseFacts = append(caseFacts, g)
			continue
		}
		t := e.coerce(e.eval(cs.e), types.Typ[types.Int]).v.(*Term)
		val := c.BV(t.sort, uint64(caseVals[i]))
		ok := false
		for j := range args {
			if t.op == OVar {
				break // see below
			}
			if s, isS := args[j].(*Struct); isS {
				if r := replaceTerm(s, t, val); r != s {
					args[j] = r
					ok = true
				}
			}
		}
		if ok {
		} else if t.op == OVar {
			// a parameter or a scalar location of the initial memory: it is the constant from here on
			c.leafCase[t] = val
			x.shapes = map[string]func(idx []*Term) *Term{}
			mkArgs()
			shapes()
		} else if isAddressable(cs.e) {
			a, at := e.addr(cs.e)
			x.store(st, a, at, val)
		} else {
			// a parameter or an expression
			for j := range args {
				if at, isT := args[j].(*Term); isT && at == t {
					args[j] = val
					ok = true
				}
			}
			if !ok && (t.op == OApp || t.op == OVar) && len(t.args) > 0 {
				// an element of the initial memory: it is the constant from here on
				c.leafCase[t] = val
				x.shapes = map[string]func(idx []*Term) *Term{}
				mkArgs()
				shapes()
				ok = true
			}
			if !ok {
				caseFacts = append(caseFacts, c.Eq(t, val))
			}
		}
		e = x.bindContract(ct, fn, args, st)
	}
	for _, f := range caseFacts {
		st.assume(f, false)
	}
	init := st.clone()
	e = x.bindContract(ct, fn, args, init)
	for _, r := range ct.requires {
		x.assumeSpec(init, e, r)
		e = x.bindContract(ct, fn, args, init)
	}
	st = init.clone()
	if ct.quick != nil && !env.thorough && e.boolE(ct.quick) == c.F {
		v.OK = true
		v.Inst += " (deferred case)"
		return
	}
	if x.p.Prove(st.factList(), c.F) {
		if len(caseVals) > 0 {
			v.OK = true // this case is excluded by the precondition
			v.Inst += " (vacuous case)"
			return
		}
		bail("precondition is unsatisfiable")
	}
	x.entry = init.factList()
	any0 := x.allocN
	effs := e.effects()
	any1 := x.allocN
	isMine := func(t *Term) bool {
		var id, n int
		fmt.Sscanf(t.name, anyPrefix+"%d!%d", &id, &n)
		return id > any0 && id <= any1
	}
	exp := init.clone()
	for _, f := range effs {
		x.storeVars(exp, f.a, f.t, f.val, f.vars, f.guard)
	}
	ret, fin, ok := x.callFn(fn, args, nil, st)
	v.OK = true
	// panics
	var pc *Term
	if ct.panics != nil {
		pc = e.boolE(ct.panics)
	}
	for _, p := range x.panics {
		if pc == nil {
			x.obligeAt("panic only as specified", p.pos, init, c.Not(p.cond))
			continue
		}
		ps := init.clone()
		if p.cond.op == OAnd {
			for _, a := range p.cond.args {
				ps.assume(a, false)
			}
		} else {
			ps.assume(p.cond, false)
		}
		x.obligeAt("panic only as specified", p.pos, ps, pc)
	}
	if !ok {
		if pc == nil {
			x.obligeAt("returns", env.pos(fn.Pos()), init, c.F)
		}
		return
	}
	if pc != nil {
		x.obligeAt("panics as specified", env.pos(fn.Pos()), fin, c.Not(pc))
	} else if x.p.prove(fin.factList(), c.F, 200, false) {
		// everything would follow from the facts assumed on the way (contracts of
		// callees included): nothing is proved by such a verdict
		bail("the facts at the return contradict each other")
	}
	if env.verbose {
		fmt.Println("    ret:", describe(ret))
	}
	// results
	res := fn.Signature.Results()
	for i, re := range ct.result {
		if id, ok := re.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		var rv Value = ret
		if res.Len() > 1 {
			rv = ret.(Tuple)[i]
		}
		ee := *e
		ee.cur, ee.pre = init, init
		ew := ee.withAny(nil)
		mine := fmt.Sprintf("%s%d!", anyPrefix, ew.anyID)
		want := ew.coerce(ew.eval(re), res.At(i).Type()).v
		goal := c.F
		if *ew.anyN > 0 {
			goal = x.exEq(fin, rv, want, func(t *Term) bool { return strings.HasPrefix(t.name, mine) })
		} else {
			goal = x.valEq(fin, rv, want)
		}
		x.obligeAt(fmt.Sprintf("result %s", exprString(re)), env.pos(fn.Pos()), fin, goal)
	}
	// results without an expression are new storage: callers rely on it
	if !ct.open || ct.fresh {
		seen := map[string]bool{}
		if ct.views {
			seen = nil
		}
		for i := 0; i < res.Len(); i++ {
			if i < len(ct.result) {
				if id, ok := ct.result[i].(*ast.Ident); !ok || id.Name != "_" {
					continue
				}
			}
			rv := ret
			if res.Len() > 1 {
				rv = ret.(Tuple)[i]
			}
			if why := x.notFresh(fin, rv, res.At(i).Type(), seen, nil, 0); why != "" {
				x.obligeAt("result is new storage ("+why+")", env.pos(fn.Pos()), fin, c.F)
			}
		}
	}
	// ensures
	if len(ct.ensures) > 0 {
		var check func(ret Value, fin *State)
		check = func(ret Value, fin *State) {
			ret = x.resolve(fin, ret)
			if ch, ok := ret.(Choice); ok {
				a, b := fin.clone(), fin.clone()
				a.assume(ch.c, false)
				b.assume(c.Not(ch.c), false)
				check(ch.a, a)
				check(ch.b, b)
				return
			}
			ee := *e
			ee.pre, ee.cur = init, fin
			e3 := bindResults(&ee, ret, res)
			for i, en := range ct.ensures {
				if a, b, ok := forallHyp(en); ok {
					f2 := fin.clone()
					e4 := *e3
					e4.cur = f2
					x.assumeSpec(f2, &e4, a)
					x.obligeAt("ensures "+ct.ensText[i], env.pos(fn.Pos()), f2, e4.boolE(b))
					continue
				}
				x.obligeAt("ensures "+ct.ensText[i], env.pos(fn.Pos()), fin, e3.boolE(en))
			}
		}
		check(ret, fin)
	}
	// memory: every touched location agrees with the contract
	touched := map[string]types.Type{}
	scratch := map[string]bool{}
	e.scratchLeaves(init, func(root, lc string, fixed []*Term, ar int, t types.Type) { scratch[lc] = true })
	if len(ct.buffers) > 0 && !ct.open {
		bail("buffer clauses need an open contract")
	}
	isBuf := func(lc string) bool {
		for _, b := range ct.buffers {
			if a, _ := e.addr(b); lc == a.lc || strings.HasPrefix(lc, a.lc) && strings.Contains("*[.#", lc[len(a.lc):len(a.lc)+1]) {
				return true
			}
		}
		return false
	}
	for lc, l := range fin.mem {
		if isBuf(lc) || strings.HasPrefix(lc, "$wrec") {
			continue
		}
		if l != init.mem[lc] && !strings.Contains(rootOf(lc), "@") {
			touched[lc] = nil
		}
	}
	for lc, l := range exp.mem {
		if l != init.mem[lc] {
			touched[lc] = nil
		}
	}
	var lcs []string
	for lc := range touched {
		lcs = append(lcs, lc)
	}
	sort.Strings(lcs)
	for _, lc := range lcs {
		if scratch[lc] {
			continue
		}
		l := fin.mem[lc]
		if l == init.mem[lc] {
			l = exp.mem[lc]
		}
		if l == nil {
			l = exp.mem[lc]
		}
		t := typeOfValue(l.val)
		r := make([]*Term, len(l.idx))
		for i := range r {
			r[i] = c.Fresh("at", 64)
		}
		if t == nil {
			x.obligeAt(fmt.Sprintf("frame: %s (reference) is not modified", lc), env.pos(fn.Pos()), fin, c.Bool(exp.mem[lc] == fin.mem[lc]))
			continue
		}
		kind := "frame of " + lc
		for _, f := range effs {
			if f.a.lc == lc {
				kind = "sets " + f.text
			}
		}
		n := 1
		if ct.stride > 1 && len(r) > 0 {
			n = ct.stride
		}
		for k := 0; k < n; k++ {
			fs := fin
			if n > 1 {
				// the last index is n*q+k, for indices below 2^57 (no slice is longer)
				q := c.Fresh("q", 64)
				fs = fin.clone()
				fs.assume(c.Ult(q, c.BV(64, 1<<50)), false)
				r = append([]*Term{}, r...)
				r[len(r)-1] = c.Add(c.Mul(q, c.Int(int64(n))), c.Int(int64(k)))
			}
			got := x.readFrom(fs, fs.mem[lc], Addr{lc, r}, t, c.T)
			want := x.readFrom(fs, exp.mem[lc], Addr{lc, r}, t, c.T)
			x.obligeAt(kind, env.pos(fn.Pos()), fs, x.exEq(fs, got, want, isMine))
		}
	}
	return
}

// replaceTerm substitutes a scalar inside a structure value.
func replaceTerm(s *Struct, t, val *Term) *Struct {
	r := s
	for i, f := range s.fs {
		var nv Value
		switch g := f.(type) {
		case *Term:
			if g == t {
				nv = val
			}
		case *Struct:
			if h := replaceTerm(g, t, val); h != g {
				nv = h
			}
		}
		if nv != nil {
			if r == s {
				cp := *s
				cp.fs = append([]Value{}, s.fs...)
				r = &cp
			}
			r.fs[i] = nv
		}
	}
	return r
}

// notFresh explains why a value is not made of newly allocated, mutually
// separate storage ("" when it is). ix are the generic element indices on the
// path to v: storage found at different indices must be different.
func (x *Exec) notFresh(st *State, v Value, t types.Type, seen map[string]bool, ix []*Term, depth int) string {
	defer func(b bool) { x.skipBig = b }(x.skipBig)
	x.skipBig = true
	if depth > 16 {
		return "too deep"
	}
	root := func(lc string, idx []*Term) string {
		if lc == "nil" || strings.HasPrefix(lc, "nil") && rootOf(lc) == "nil" {
			return ""
		}
		if !strings.Contains(rootOf(lc), "@") {
			return lc + " is not allocated here"
		}
		if seen == nil {
			return "" // views of the same new storage are allowed
		}
		if seen[lc] {
			return lc + " appears twice"
		}
		seen[lc] = true
		if len(ix) > 0 {
			c := x.c
			sub := map[*Term]*Term{}
			same := c.T
			for _, i := range ix {
				sub[i] = c.Fresh("i", 64)
				same = c.And(same, c.Eq(i, sub[i]))
			}
			fs := st.factList()
			n := len(fs)
			for _, f := range fs[:n] {
				if g := c.Subst(f, sub); g != f {
					fs = append(fs, g)
				}
			}
			for _, t := range idx {
				fs = append(fs, c.Eq(t, c.Subst(t, sub)))
			}
			if !x.p.Prove(fs, same) {
				return lc + " is shared between elements"
			}
		}
		return ""
	}
	v = x.resolve(st, v)
	switch s := v.(type) {
	case Choice:
		if a, ok := x.resolve(st, s.a).(Slice); ok {
			if b, ok := x.resolve(st, s.b).(Slice); ok && seen != nil && a.lc == b.lc && a.lc != "nil" && x.sameValue(a, b) {
				return a.lc + " is shared between elements"
			}
		}
		var s2 map[string]bool
		if seen != nil {
			s2 = map[string]bool{}
		}
		for k := range seen {
			s2[k] = true
		}
		sa, sb := st.clone(), st.clone()
		sa.assume(s.c, false)
		sb.assume(x.c.Not(s.c), false)
		if r := x.notFresh(sa, s.a, t, s2, ix, depth+1); r != "" {
			return r
		}
		return x.notFresh(sb, s.b, t, seen, ix, depth+1)
	case Slice:
		if s.lc == "nil" {
			return ""
		}
		if r := root(s.lc+"[]", s.idx); r != "" {
			return r
		}
		e := under(t).(*types.Slice).Elem()
		if !hasRefs(e, 0) {
			return ""
		}
		i := x.c.Fresh("i", 64)
		s2 := st.clone()
		s2.assume(x.c.Ult(i, s.len), false)
		if x.p.Prove(s2.factList(), x.c.F) {
			return ""
		}
		return x.notFresh(s2, x.load(s2, s.elemAddr(x.c, i), e), e, seen, append(append([]*Term{}, ix...), i), depth+1)
	case Ptr:
		if s.a.lc == "nil" {
			return ""
		}
		if r := root(s.a.lc, s.a.idx); r != "" {
			return r
		}
		e := under(t).(*types.Pointer).Elem()
		if !hasRefs(e, 0) {
			return ""
		}
		return x.notFresh(st, x.load(st, s.a, e), e, seen, ix, depth+1)
	case *Struct:
		u := under(s.typ).(*types.Struct)
		name := ""
		if n, ok := types.Unalias(s.typ).(*types.Named); ok && n.Obj().Pkg() != nil {
			name = n.Obj().Pkg().Name() + "." + n.Obj().Name() + "."
		}
		for i, f := range s.fs {
			if x.shares[name+u.Field(i).Name()] {
				continue
			}
			if r := x.notFresh(st, f, u.Field(i).Type(), seen, ix, depth+1); r != "" {
				return r
			}
		}
	case *ArrV:
		u := under(s.typ).(*types.Array)
		for _, f := range s.els {
			if r := x.notFresh(st, f, u.Elem(), seen, ix, depth+1); r != "" {
				return r
			}
		}
	case Closure:
		if len(s.binds) == 0 {
			return "" // a plain function
		}
		return "a function with captured variables"
	default:
		if o, ok := v.(Opaque); ok && (o.name == "nil" || strings.Contains(rootOf(o.name), "@")) {
			return "" // nil, or the unknown initial content of new storage
		}
		if hasRefs(t, 0) {
			return fmt.Sprintf("a value of type %s of unknown origin (%T)", t, v)
		}
	}
	return ""
}

// hasRefs reports whether values of the type contain references.
func hasRefs(t types.Type, d int) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	}
	return true
}

func (x *Exec) obligeAt(kind, pos string, st *State, goal *Term) {
	n := len(x.obl)
	x.oblige(kind, token.NoPos, st, goal)
	for i := n; i < len(x.obl); i++ {
		x.obl[i].pos = pos
	}
}

func (x *Exec) valEq(st *State, a, b Value) *Term {
	a, b = x.resolve(st, a), x.resolve(st, b)
	c := x.c
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			return c.Eq(av, bv)
		}
	case Cplx:
		if bv, ok := b.(Cplx); ok {
			return c.And(c.Eq(av.re, bv.re), c.Eq(av.im, bv.im))
		}
	case *Struct:
		if bv, ok := b.(*Struct); ok {
			r := c.T
			for i := range av.fs {
				r = c.And(r, x.valEq(st, av.fs[i], bv.fs[i]))
			}
			return r
		}
	}
	if x.sameValue(a, b) {
		return c.T
	}
	return c.F
}

// installShape registers the length of the slices matched by a path.
func (x *Exec) installShape(ct *Contract, fn *ssa.Function, args []Value, st *State, s ShapeC) {
	e := x.bindContract(ct, fn, args, st)
	s2 := st.clone()
	e.cur, e.pre = s2, s2
	o, _ := e.openWild(s.path)
	var wilds []*Term
	var wnames []string
	for nm, tv := range o.env.vars {
		if t, ok := tv.v.(*Term); ok && t.op == OVar && strings.HasPrefix(t.name, "wild!") {
			wilds = append(wilds, t)
			wnames = append(wnames, nm)
		}
	}
	v := o.env.eval(o.ex)
	var lc string
	var idx []*Term
	var n *Term
	switch sl := v.v.(type) {
	case Slice:
		lc, idx = strings.TrimSuffix(sl.lc, "*"), sl.idx
		n = o.env.intE(s.n)
	case *Term:
		// a scalar field of the initial memory
		if sl.op != OApp && sl.op != OVar {
			specBail("shape of a computed value: %s", s.text)
		}
		lc, idx = sl.name, sl.args
		n = o.env.coerce(o.env.eval(s.n), v.t).v.(*Term)
	default:
		specBail("shape of %T: %s", v.v, s.text)
	}
	for _, w := range wilds {
		found := false
		for _, i := range idx {
			if i == w {
				found = true
			}
		}
		if !found {
			specBail("shape wildcard does not appear in the location: %s", s.text)
		}
	}
	x.shapes[lc] = func(at []*Term) *Term {
		sub := Subst{}
		for i := range idx {
			if idx[i].op == OVar {
				sub[idx[i]] = at[i]
			}
		}
		return x.c.Subst(n, sub)
	}
}
