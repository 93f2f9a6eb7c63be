package main

// gowp: a deductive verifier for the Go code in /repo.
//
// It loads the current source through go/packages and go/ssa, generates
// verification conditions for every function under contract, and discharges
// them with z3 and cvc5.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sp301415/tfhe-go/"

type Env struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by path relative to the module
	contracts map[string]*Contract
	macros    map[string]*Macro
	unrollMax int
	noSummary bool
	thorough  bool
	verbose   bool
	fnBudget  time.Duration
	repo      string
	variant   string

	mu    sync.Mutex
	infos map[*ssa.Function]*LoopInfo
	asm   map[string]*ssa.Function
}

func (env *Env) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := env.prog.Fset.Position(p)
	if r, err := filepath.Rel(env.repo, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (env *Env) loopInfo(fn *ssa.Function) *LoopInfo {
	env.mu.Lock()
	defer env.mu.Unlock()
	if li := env.infos[fn]; li != nil {
		return li
	}
	li := analyseLoops(fn)
	env.infos[fn] = li
	return li
}

func (env *Env) asmImpl(fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil {
		return nil
	}
	if m := fn.Pkg.Func("zzasm_" + fn.Name()); m != nil {
		return m
	}
	return nil
}

// load builds SSA for the repository in one build variant.
func load(repo, variant string, cs map[string]*Contract, macros map[string]*Macro) (*Env, error) {
	env := &Env{pkgs: map[string]*ssa.Package{}, contracts: map[string]*Contract{}, macros: macros, repo: repo, variant: variant, infos: map[*ssa.Function]*LoopInfo{}, unrollMax: 70, fnBudget: 120 * time.Second}
	for k, c := range cs {
		if len(c.variants) > 0 {
			ok := false
			for _, v := range c.variants {
				if v == variant {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		env.contracts[k] = c
	}
	overlay := map[string][]byte{}
	// drivers: mention every instantiation of the generic functions under contract
	byPkg := map[string][]*Contract{}
	for _, c := range env.contracts {
		i := strings.Index(c.key, ":")
		byPkg[c.key[:i]] = append(byPkg[c.key[:i]], c)
	}
	for p, l := range byPkg {
		dir := filepath.Join(repo, p)
		decl := declaredFuncs(dir)
		name := filepath.Base(p)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nfunc zzVerifDriver() []interface{} {\n\treturn []interface{}{\n", name)
		sort.Slice(l, func(i, j int) bool { return l[i].key < l[j].key })
		for _, c := range l {
			nm := stripTag(c.key[strings.Index(c.key, ":")+1:])
			if strings.HasPrefix(nm, "(") || len(c.tparams) == 0 || !decl[nm] {
				continue
			}
			for _, ts := range c.types {
				fmt.Fprintf(&b, "\t\t%s[%s],\n", nm, strings.Join(ts, ", "))
			}
		}
		b.WriteString("\t}\n}\n")
		overlay[filepath.Join(dir, "zz_verif_driver.go")] = []byte(b.String())
	}
	if variant == "amd64" {
		for _, p := range []string{"math/vec", "math/poly", "tfhe"} {
			src, err := translateAsm(filepath.Join(repo, p))
			if err != nil {
				fmt.Fprintf(os.Stderr, "gowp: assembly of %s: %v\n", p, err)
				continue
			}
			if src != nil {
				overlay[filepath.Join(repo, p, "zz_verif_asm_amd64.go")] = src
			}
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOARCH=amd64", "GOOS=linux", "CGO_ENABLED=0")}
	if variant == "purego" {
		cfg.BuildFlags = []string{"-tags=purego"}
	}
	ps, err := packages.Load(cfg, "./math/...", "./tfhe", "./mktfhe", "./xtfhe")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, sps := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug*0)
	prog.Build()
	env.prog = prog
	for i, p := range ps {
		if sps[i] == nil {
			continue
		}
		env.pkgs[strings.TrimPrefix(p.PkgPath, modPath)] = sps[i]
	}
	return env, nil
}

func declaredFuncs(dir string) map[string]bool {
	m := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, mm := range regexp.MustCompile(`(?m)^func (\w+)\b`).FindAllSubmatch(b, -1) {
			m[string(mm[1])] = true
		}
	}
	return m
}

// stripTag removes the #tag of an additional contract for the same function; such contracts are
// verified but never used at call sites.
func stripTag(s string) string {
	if i := strings.Index(s, "#"); i >= 0 {
		return s[:i]
	}
	return s
}

type instance struct {
	ct   *Contract
	fn   *ssa.Function
	inst string
}

func basicType(n string) types.Type {
	if o := types.Universe.Lookup(n); o != nil {
		return o.Type()
	}
	return nil
}

// instances finds the SSA functions a contract applies to.
func (env *Env) instances(ct *Contract) ([]instance, error) {
	i := strings.Index(ct.key, ":")
	pkg := env.pkgs[ct.key[:i]]
	if pkg == nil {
		return nil, fmt.Errorf("package %s not loaded", ct.key[:i])
	}
	nm := stripTag(ct.key[i+1:])
	var out []instance
	if strings.HasPrefix(nm, "(") {
		j := strings.Index(nm, ").")
		recv, meth := nm[1:j], nm[j+2:]
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		o := pkg.Pkg.Scope().Lookup(recv)
		if o == nil {
			return nil, nil
		}
		var ts []types.Type
		var names []string
		if len(ct.tparams) > 0 {
			for _, tl := range ct.types {
				var ta []types.Type
				for _, t := range tl {
					ta = append(ta, basicType(t))
				}
				in, err := types.Instantiate(types.NewContext(), o.Type(), ta, false)
				if err != nil {
					return nil, err
				}
				ts = append(ts, in)
				names = append(names, strings.Join(tl, ","))
			}
		} else {
			ts = append(ts, o.Type())
			names = append(names, "")
		}
		for k, t := range ts {
			rt := t
			if ptr {
				rt = types.NewPointer(t)
			}
			sel := types.NewMethodSet(rt).Lookup(pkg.Pkg, meth)
			if sel == nil {
				return nil, nil
			}
			fn := env.prog.MethodValue(sel)
			if fn == nil || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
				return nil, nil
			}
			out = append(out, instance{ct, fn, names[k]})
		}
		return out, nil
	}
	if len(ct.tparams) == 0 {
		if fn := pkg.Func(nm); fn != nil {
			out = append(out, instance{ct, fn, ""})
		}
		return out, nil
	}
	drv := pkg.Func("zzVerifDriver")
	gen := pkg.Func(nm)
	if gen == nil || drv == nil {
		return nil, nil
	}
	for _, tl := range ct.types {
		want := strings.Join(tl, ",")
		for fn := range ssautilAll(env) {
			if fn.Origin() != gen || len(fn.TypeArgs()) == 0 {
				continue
			}
			var ns []string
			for _, t := range fn.TypeArgs() {
				ns = append(ns, t.String())
			}
			if strings.Join(ns, ",") == want {
				out = append(out, instance{ct, fn, want})
				break
			}
		}
	}
	return out, nil
}

var (
	allMu sync.Mutex
	allFn = map[*Env]map[*ssa.Function]bool{}
)

func ssautilAll(env *Env) map[*ssa.Function]bool {
	allMu.Lock()
	defer allMu.Unlock()
	if m := allFn[env]; m != nil {
		return m
	}
	m := ssautil.AllFunctions(env.prog)
	allFn[env] = m
	return m
}

type job struct {
	in   instance
	cfg  map[string]string
	vals []int64
	name string
	v    Verdict
}

func cfgString(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, v+"="+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func caseTuples(ct *Contract) [][]int64 {
	r := [][]int64{nil}
	for _, c := range ct.cases {
		var n [][]int64
		for _, b := range r {
			for _, v := range c.vals {
				n = append(n, append(append([]int64{}, b...), v))
			}
		}
		r = n
	}
	return r
}

type outOblig struct {
	Kind string `json:"kind"`
	Pos  string `json:"pos"`
	OK   bool   `json:"ok"`
	Goal string `json:"goal,omitempty"`
	Fact string `json:"facts,omitempty"`
}

type outVerdict struct {
	Key      string         `json:"key"`
	Inst     string         `json:"inst"`
	Variant  string         `json:"variant"`
	OK       bool           `json:"ok"`
	Err      string         `json:"err,omitempty"`
	Total    int            `json:"obligations"`
	Proved   int            `json:"discharged"`
	Failed   []outOblig     `json:"failed,omitempty"`
	Relied   map[string]int `json:"relies_on,omitempty"`
	Bounded  string         `json:"bounded,omitempty"`
	WallMS   int64          `json:"wall_ms"`
	Contract string         `json:"contract"`
}

type outReport struct {
	Verdicts []outVerdict      `json:"verdicts"`
	Trusted  map[string]string `json:"trusted"`
	Missing  []string          `json:"missing"`
	Deferred int               `json:"deferred_cases"`
	Errors   []string          `json:"errors"`
	Wall     float64           `json:"wall_s"`
	Queries  int64             `json:"solver_queries"`
	SolverS  float64           `json:"solver_s"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "only contracts tagged with this property")
	fpat := flag.String("func", "", "only contracts whose key matches")
	ipat := flag.String("inst", "", "only instances matching")
	variants := flag.String("variants", "amd64,purego", "build variants")
	verbose := flag.Bool("v", false, "verbose")
	unroll := flag.Int("unroll", 70, "unroll limit")
	nosum := flag.Bool("nosum", false, "disable loop summaries")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel jobs")
	out := flag.String("json", "", "report file")
	budget := flag.Int("budget", 120, "seconds per function")
	dump := flag.Bool("ssa", false, "dump SSA of matching functions")
	thorough := flag.Bool("thorough", false, "also the contracts marked thorough")
	quiet := flag.Bool("q", false, "print failures only")
	flag.Parse()
	t0 := time.Now()
	if s, err := filepath.EvalSymlinks(*repo); err == nil {
		*repo = s
	}
	cs := map[string]*Contract{}
	macros := map[string]*Macro{}
	rep := &outReport{Trusted: map[string]string{}}
	if err := parseContracts(*cdir, cs, macros); err != nil {
		fmt.Fprintln(os.Stderr, "gowp:", err)
		os.Exit(2)
	}
	var fre, ire *regexp.Regexp
	if *fpat != "" {
		fre = regexp.MustCompile(*fpat)
	}
	if *ipat != "" {
		ire = regexp.MustCompile(*ipat)
	}
	failed := false
	for _, variant := range strings.Split(*variants, ",") {
		env, err := load(*repo, variant, cs, macros)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gowp:", err)
			rep.Errors = append(rep.Errors, err.Error())
			failed = true
			continue
		}
		env.verbose = *verbose
		env.thorough = *thorough
		env.unrollMax = *unroll
		env.noSummary = *nosum
		env.fnBudget = time.Duration(*budget) * time.Second
		if *verbose {
			fmt.Printf("loaded %s in %v\n", variant, time.Since(t0))
		}
		var keys []string
		for k := range env.contracts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var js []*job
		for _, k := range keys {
			ct := env.contracts[k]
			if fre != nil && !fre.MatchString(k) {
				continue
			}
			if *prop != "" {
				ok := false
				for _, p := range ct.props {
					if p == *prop {
						ok = true
					}
				}
				if !ok {
					continue
				}
			}
			if ct.trusted != "" {
				rep.Trusted[k] = ct.trusted
				continue
			}
			if ct.inline || ct.thorough && !*thorough {
				continue
			}
			ins, err := env.instances(ct)
			if err != nil {
				rep.Errors = append(rep.Errors, k+": "+err.Error())
				failed = true
				continue
			}
			if len(ins) == 0 {
				rep.Missing = append(rep.Missing, variant+" "+k)
				continue
			}
			for _, in := range ins {
				if *dump {
					in.fn.WriteTo(os.Stdout)
				}
				for _, cfg := range aliasConfigs(ct) {
					for _, vals := range caseTuples(ct) {
						nm := in.inst
						if s := cfgString(cfg); s != "" {
							nm += " {" + s + "}"
						}
						if len(vals) > 0 {
							nm += fmt.Sprint(" case ", vals)
						}
						if ire != nil && !ire.MatchString(nm) {
							continue
						}
						js = append(js, &job{in: in, cfg: cfg, vals: vals, name: nm})
					}
				}
			}
		}
		ch := make(chan *job)
		var wg sync.WaitGroup
		for i := 0; i < *jobs; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					j.v = env.verify(j.in.ct, j.in.fn, j.cfg, j.vals, j.name)
				}
			}()
		}
		for _, j := range js {
			ch <- j
		}
		close(ch)
		wg.Wait()
		live := map[string]bool{}
		for _, j := range js {
			if !strings.Contains(j.v.Inst, "(vacuous case)") {
				live[j.v.Key+j.in.inst] = true
			}
		}
		for _, j := range js {
			v := j.v
			if strings.Contains(v.Inst, "(vacuous case)") {
				if live[v.Key+j.in.inst] {
					continue // combination of cases excluded by the precondition
				}
				v.OK, v.Err = false, "the precondition excludes every case"
			}
			if strings.Contains(v.Inst, "(deferred case)") {
				rep.Deferred++
				continue
			}
			ov := outVerdict{Key: v.Key, Inst: v.Inst, Variant: variant, OK: v.OK && v.Err == "", Err: v.Err, Relied: v.Calls, Bounded: j.in.ct.bounded, WallMS: v.Wall.Milliseconds(), Contract: fmt.Sprintf("%s:%d", j.in.ct.file, j.in.ct.line)}
			for _, o := range v.Obl {
				ov.Total++
				if o.ok {
					ov.Proved++
				} else {
					ov.Failed = append(ov.Failed, outOblig{o.kind, o.pos, false, o.goal, o.fact})
				}
			}
			if ov.Total == 0 && ov.OK {
				ov.OK = false
				ov.Err = "no obligations were generated"
			}
			rep.Verdicts = append(rep.Verdicts, ov)
			if !ov.OK {
				failed = true
			}
			if (*out == "" || *verbose) && (!*quiet || !ov.OK) {
				st := "ok  "
				if !ov.OK {
					st = "FAIL"
				}
				fmt.Printf("%s %s %s[%s] %d/%d %dms\n", st, variant, v.Key, v.Inst, ov.Proved, ov.Total, ov.WallMS)
				if v.Err != "" {
					fmt.Println("     undecided:", v.Err)
				}
				for _, o := range ov.Failed {
					fmt.Printf("     %s: %s\n", o.Pos, o.Kind)
					if *verbose {
						fmt.Printf("      goal %s\n      facts %s\n", o.Goal, o.Fact)
					}
				}
			}
		}
	}
	if *quiet {
		n, k := 0, 0
		for _, v := range rep.Verdicts {
			n++
			if v.OK {
				k++
			}
		}
		fmt.Printf("%d/%d verified in %v\n", k, n, time.Since(t0))
	}
	rep.Wall = time.Since(t0).Seconds()
	rep.Queries, rep.SolverS = solverStats()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	for _, m := range rep.Missing {
		fmt.Println("missing:", m)
	}
	if failed {
		os.Exit(1)
	}
}

var _ = ast.NewIdent

func solverStats() (int64, float64) {
	return atomic.LoadInt64(&statQueries), float64(atomic.LoadInt64(&statSolverNS)) / 1e9
}
