// Package ops holds reference operations and reflection helpers of the
// runtime contract checks. It is placed in the repository by a build overlay
// only.
package ops

import (
	"math"
	"reflect"
	"strings"
	"unsafe"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
)

// TI restates the torus types.
type TI interface{ uint32 | uint64 }

func Bits[T TI]() int { return int(unsafe.Sizeof(T(0))) * 8 }

// Sgn is the centred representative.
func Sgn[T TI](x T) int64 {
	s := 64 - Bits[T]()
	return int64(uint64(x)<<s) >> s
}

func Abs(x int64) float64 { return math.Abs(float64(x)) }

func Eq[T comparable](a, b []T) int {
	if len(a) != len(b) {
		return -2
	}
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func RandVec[T TI](r *rt.R, v []T) {
	full := r.Intn(2) == 0
	for i := range v {
		if full {
			v[i] = T(r.Uint64())
		} else {
			v[i] = T(r.Word())
		}
	}
}

func pm(a, n int) int { return ((a % n) + n) % n }

func Mono[T TI](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	s := pm(d, 2*n)
	for i := range p {
		if j := (i + s) % (2 * n); j < n {
			o[j] += p[i]
		} else {
			o[j-n] -= p[i]
		}
	}
	return o
}

func Auto[T TI](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	s := pm(d, 2*n)
	for i := range p {
		if j := (i * s) % (2 * n); j < n {
			o[j] += p[i]
		} else {
			o[j-n] -= p[i]
		}
	}
	return o
}

func Mul[T TI](a, b []T) []T {
	n := len(a)
	o := make([]T, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j := range b {
			if i+j < n {
				o[i+j] += x * b[j]
			} else {
				o[i+j-n] -= x * b[j]
			}
		}
	}
	return o
}

func Add[T TI](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] + b[i]
	}
	return o
}

func Sub[T TI](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] - b[i]
	}
	return o
}

func Scal[T TI](a []T, c T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] * c
	}
	return o
}

func Neg[T TI](a []T) []T { return Sub(make([]T, len(a)), a) }

// MaxDist is the largest centred difference.
func MaxDist[T TI](a, b []T) float64 {
	m := 0.0
	for i := range a {
		if d := Abs(Sgn(a[i] - b[i])); d > m {
			m = d
		}
	}
	return m
}

// Parts lists the backing vectors of a ciphertext-like value with field Value.
func Parts[T TI](ct reflect.Value) [][]T {
	v := ct.FieldByName("Value")
	switch x := v.Interface().(type) {
	case []T:
		var o [][]T
		for i := range x {
			o = append(o, x[i:i+1])
		}
		return o
	case []poly.Poly[T]:
		var o [][]T
		for i := range x {
			o = append(o, x[i].Coeffs)
		}
		return o
	}
	return nil
}

// FParts is Parts for Fourier values.
func FParts(ct reflect.Value) []poly.FFTPoly {
	x, _ := ct.FieldByName("Value").Interface().([]poly.FFTPoly)
	return x
}

func clone2[T any](x [][]T) [][]T {
	o := make([][]T, len(x))
	for i := range x {
		o[i] = append([]T(nil), x[i]...)
	}
	return o
}

// Linear checks every linear operation method of the evaluator found by name.
// mk makes a fresh ciphertext of the kind ("LWE", "GLWE", "FFTGLWE").
func Linear[T TI](r *rt.R, ev interface{}, mk func(kind string) reflect.Value, mkPT func(kind string) reflect.Value, N int, tag string) {
	E := reflect.ValueOf(ev)
	pe := poly.NewEvaluator[T](N)
	fillI := func(ct reflect.Value) {
		for _, p := range Parts[T](ct) {
			RandVec(r, p)
		}
	}
	fillF := func(ct reflect.Value) {
		for _, p := range FParts(ct) {
			for i := range p.Coeffs {
				p.Coeffs[i] = r.NormFloat64() * 1000
			}
		}
	}
	names := []string{}
	for i := 0; i < E.NumMethod(); i++ {
		names = append(names, E.Type().Method(i).Name)
	}
	for _, name := range names {
		kind := ""
		for _, k := range []string{"FFTGLWE", "GLWE", "LWE"} {
			for _, s := range []string{"To", "", "InPlace"} {
				if strings.HasSuffix(name, k+s) && kind == "" {
					kind = k
				}
			}
		}
		if kind == "" {
			continue
		}
		i := strings.LastIndex(name, kind)
		op, suf := name[:i], name[i+len(kind):]
		acc := 0
		base := op
		if op != "Add" && op != "Sub" {
			if strings.HasSuffix(op, "Add") {
				acc, base = 1, op[:len(op)-3]
			} else if strings.HasSuffix(op, "Sub") {
				acc, base = -1, op[:len(op)-3]
			}
		}
		switch base {
		case "Add", "Sub", "AddPlain", "SubPlain", "Neg", "ScalarMul", "PolyMul", "FFTPolyMul", "MonomialMul", "Permute", "FloatMul", "CmplxMul":
		default:
			continue
		}
		binary := base == "Add" || base == "Sub"
		overlap := !(base == "MonomialMul" || base == "Permute") && acc == 0
		modes := []string{"fresh"}
		if suf == "To" {
			modes = []string{"fresh", "dirty"}
			if overlap {
				modes = append(modes, "alias0")
				if binary {
					modes = append(modes, "alias1")
				}
			}
		}
		m := E.MethodByName(name)
		for _, mode := range modes {
			for it := 0; it < r.N(2); it++ {
				ct0, ct1 := mk(kind), mk(kind)
				out := mk(kind)
				fillI(ct0)
				fillI(ct1)
				fillF(ct0)
				fillF(ct1)
				switch mode {
				case "dirty":
					fillI(out)
					fillF(out)
				case "alias0":
					out = ct0
				case "alias1":
					out = ct1
				}
				if acc != 0 {
					fillI(out)
					fillF(out)
				}
				if suf == "InPlace" {
					out = ct0
				}
				d := []int{0, 1, -1, 3, N, -N, 2*N + 5, N + 1, r.Intn(8*N) - 4*N}[r.Intn(9)]
				if base == "Permute" {
					d |= 1
				}
				c := T(r.Word())
				f := r.NormFloat64() * 3
				z := complex(r.NormFloat64()*3, r.NormFloat64()*3)
				p := poly.NewPoly[T](N)
				small := base == "FFTPolyMul" || kind == "FFTGLWE"
				for i := range p.Coeffs {
					if small {
						p.Coeffs[i] = T(r.Intn(9) - 4)
					} else {
						p.Coeffs[i] = T(r.Word())
					}
				}
				fp := pe.FwdFFT(p)
				var extra []reflect.Value
				var pt reflect.Value
				switch base {
				case "AddPlain", "SubPlain":
					pt = mkPT(kind)
					if q, ok := pt.FieldByName("Value").Interface().(poly.Poly[T]); ok {
						RandVec(r, q.Coeffs)
					} else {
						pt.FieldByName("Value").SetUint(uint64(c))
					}
					extra = append(extra, pt)
				case "ScalarMul":
					extra = append(extra, reflect.ValueOf(c))
				case "PolyMul":
					extra = append(extra, reflect.ValueOf(p))
				case "FFTPolyMul":
					extra = append(extra, reflect.ValueOf(fp))
				case "MonomialMul", "Permute":
					extra = append(extra, reflect.ValueOf(d))
				case "FloatMul":
					extra = append(extra, reflect.ValueOf(f))
				case "CmplxMul":
					extra = append(extra, reflect.ValueOf(z))
				}
				r.Case("%s %s mode=%s N=%d d=%d c=%d it=%d", tag, name, mode, N, d, c, it)
				a, b, o := clone2(Parts[T](ct0)), clone2(Parts[T](ct1)), clone2(Parts[T](out))
				fc := func(x []poly.FFTPoly) []poly.FFTPoly {
					var y []poly.FFTPoly
					for i := range x {
						y = append(y, x[i].Copy())
					}
					return y
				}
				fa, fb, fo := fc(FParts(ct0)), fc(FParts(ct1)), fc(FParts(out))
				var args []reflect.Value
				if suf == "To" {
					args = append(args, out)
				}
				args = append(args, ct0)
				if binary {
					args = append(args, ct1)
				}
				args = append(args, extra...)
				bad := false
				r.Try(func() {
					bad = true
					res := m.Call(args)
					bad = false
					if suf == "" {
						out = res[0]
					}
				})
				if bad {
					continue
				}
				if kind != "FFTGLWE" {
					want := make([][]T, len(a))
					tol := 0.0
					for i := range a {
						switch base {
						case "Add":
							want[i] = Add(a[i], b[i])
						case "Sub":
							want[i] = Sub(a[i], b[i])
						case "AddPlain", "SubPlain":
							want[i] = a[i]
							if i == 0 {
								var q []T
								if pp, ok := pt.FieldByName("Value").Interface().(poly.Poly[T]); ok {
									q = pp.Coeffs
								} else {
									q = []T{T(pt.FieldByName("Value").Uint())}
								}
								if base == "AddPlain" {
									want[i] = Add(a[i], q)
								} else {
									want[i] = Sub(a[i], q)
								}
							}
						case "Neg":
							want[i] = Neg(a[i])
						case "ScalarMul":
							want[i] = Scal(a[i], c)
						case "PolyMul":
							want[i] = Mul(p.Coeffs, a[i])
						case "FFTPolyMul":
							want[i] = Mul(p.Coeffs, a[i])
							tol = math.Exp2(float64(Bits[T]()-44)) * float64(N)
						case "MonomialMul":
							want[i] = Mono(a[i], d)
						case "Permute":
							want[i] = Auto(a[i], d)
						}
						if acc > 0 {
							want[i] = Add(o[i], want[i])
						} else if acc < 0 {
							want[i] = Sub(o[i], want[i])
						}
					}
					got := Parts[T](out)
					if len(got) != len(want) {
						r.Fail("%d components, want %d", len(got), len(want))
						continue
					}
					for i := range want {
						if tol == 0 {
							if j := Eq(got[i], want[i]); j != -1 {
								r.Fail("component %d differs at %d", i, j)
								break
							}
						} else if dd := MaxDist(got[i], want[i]); dd > tol {
							r.Fail("component %d off by %g", i, dd)
							break
						}
					}
				} else {
					got := FParts(out)
					if len(got) != len(fa) {
						r.Fail("%d components, want %d", len(got), len(fa))
						continue
					}
					for i := range fa {
						w := poly.NewFFTPoly(N)
						switch base {
						case "Add":
							for j := range w.Coeffs {
								w.Coeffs[j] = fa[i].Coeffs[j] + fb[i].Coeffs[j]
							}
						case "Sub":
							for j := range w.Coeffs {
								w.Coeffs[j] = fa[i].Coeffs[j] - fb[i].Coeffs[j]
							}
						case "Neg":
							for j := range w.Coeffs {
								w.Coeffs[j] = -fa[i].Coeffs[j]
							}
						case "FloatMul":
							for j := range w.Coeffs {
								w.Coeffs[j] = f * fa[i].Coeffs[j]
							}
						case "CmplxMul":
							pe.CmplxMulFFTPolyTo(w, fa[i], z)
						case "PolyMul", "FFTPolyMul":
							pe.MulFFTPolyTo(w, fa[i], fp)
						case "Permute":
							pe.PermuteFFTPolyTo(w, fa[i], d)
						}
						for j := range w.Coeffs {
							x := w.Coeffs[j]
							if acc > 0 {
								x = fo[i].Coeffs[j] + x
							} else if acc < 0 {
								x = fo[i].Coeffs[j] - x
							}
							if math.Abs(got[i].Coeffs[j]-x) > 1e-6*(1+math.Abs(x)) {
								r.Fail("Fourier component %d differs at %d: %g want %g", i, j, got[i].Coeffs[j], x)
								break
							}
						}
					}
				}
				// inputs that are not outputs are unchanged
				if !(mode == "alias0" || suf == "InPlace") {
					for i, q := range Parts[T](ct0) {
						if Eq(q, a[i]) != -1 {
							r.Fail("first input modified")
						}
					}
					for i, q := range FParts(ct0) {
						if Eq(q.Coeffs, fa[i].Coeffs) != -1 {
							r.Fail("first input modified")
						}
					}
				}
				if mode != "alias1" {
					for i, q := range Parts[T](ct1) {
						if Eq(q, b[i]) != -1 {
							r.Fail("second input modified")
						}
					}
				}
			}
		}
	}
}
