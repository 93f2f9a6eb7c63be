package tfhe_test

import (
	"math"
	"math/big"
	"reflect"
	"unsafe"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// ti restates the torus types.
type ti interface{ uint32 | uint64 }

func bitsOf[T ti]() int { return int(unsafe.Sizeof(T(0))) * 8 }

// sgn is the centred representative.
func sgn[T ti](x T) int64 {
	s := 64 - bitsOf[T]()
	return int64(uint64(x)<<s) >> s
}

func absf(x int64) float64 { return math.Abs(float64(x)) }

func gad[T ti](logBase, level int) tfhe.GadgetParameters[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << logBase, Level: level}.Compile()
}

// lit is a small parameter literal; the noise is so small that it rounds to zero.
func lit[T ti](n, k, N, ext, block int, mm T, order tfhe.BootstrapOrder) tfhe.ParametersLiteral[T] {
	p := tfhe.ParametersLiteral[T]{
		LWEDimension: n, GLWERank: k, PolyRank: N, LUTSize: N * ext,
		LWEStdDev: 1e-40, GLWEStdDev: 1e-40, BlockSize: block, MessageModulus: mm,
		BootstrapOrder: order,
	}
	if bitsOf[T]() == 64 {
		p.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 12, Level: 3}
		p.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 5, Level: 8}
	} else {
		p.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 7, Level: 3}
		p.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 3, Level: 8}
	}
	return p
}

const (
	ksbr = tfhe.OrderKeySwitchBlindRotate
	brks = tfhe.OrderBlindRotateKeySwitch
)

func randVec[T ti](r *rt.R, v []T) {
	full := r.Intn(2) == 0
	for i := range v {
		if full {
			v[i] = T(r.Uint64())
		} else {
			v[i] = T(r.Word())
		}
	}
}

func randGLWE[T ti](r *rt.R, k, N int) tfhe.GLWECiphertext[T] {
	ct := tfhe.NewGLWECiphertextCustom[T](k, N)
	for i := range ct.Value {
		randVec(r, ct.Value[i].Coeffs)
	}
	return ct
}

func randLWE[T ti](r *rt.R, n int) tfhe.LWECiphertext[T] {
	ct := tfhe.NewLWECiphertextCustom[T](n)
	randVec(r, ct.Value)
	return ct
}

func eqVec[T comparable](a, b []T) int {
	if len(a) != len(b) {
		return -2
	}
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func refMono[T ti](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	s := ((d % (2 * n)) + 2*n) % (2 * n)
	for i := range p {
		j := (i + s) % (2 * n)
		if j < n {
			o[j] += p[i]
		} else {
			o[j-n] -= p[i]
		}
	}
	return o
}

func refAuto[T ti](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	s := ((d % (2 * n)) + 2*n) % (2 * n)
	for i := range p {
		j := (i * s) % (2 * n)
		if j < n {
			o[j] += p[i]
		} else {
			o[j-n] -= p[i]
		}
	}
	return o
}

func refMul[T ti](a, b []T) []T {
	n := len(a)
	o := make([]T, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j := range b {
			if i+j < n {
				o[i+j] += x * b[j]
			} else {
				o[i+j-n] -= x * b[j]
			}
		}
	}
	return o
}

func addv[T ti](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] + b[i]
	}
	return o
}

func subv[T ti](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] - b[i]
	}
	return o
}

func scal[T ti](a []T, c T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] * c
	}
	return o
}

// phaseLWE is the reference phase.
func phaseLWE[T ti](ct []T, sk []T) T {
	p := ct[0]
	for i := range sk {
		p += ct[i+1] * sk[i]
	}
	return p
}

func phaseGLWE[T ti](ct tfhe.GLWECiphertext[T], sk tfhe.GLWESecretKey[T]) []T {
	p := append([]T(nil), ct.Value[0].Coeffs...)
	for i := range sk.Value {
		p = addv(p, refMul(sk.Value[i].Coeffs, ct.Value[i+1].Coeffs))
	}
	return p
}

// maxDist is the largest centred difference.
func maxDist[T ti](a, b []T) float64 {
	m := 0.0
	for i := range a {
		if d := absf(sgn(a[i] - b[i])); d > m {
			m = d
		}
	}
	return m
}

// flatten lists every integer and float reachable from the object, in order.
func flatten(x interface{}) []uint64 {
	var o []uint64
	flat(reflect.ValueOf(x), &o, map[uintptr]bool{})
	return o
}

func flat(v reflect.Value, o *[]uint64, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		flat(v.Elem(), o, seen)
	case reflect.Interface:
		if !v.IsNil() {
			flat(v.Elem(), o, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flat(v.Field(i), o, seen)
		}
	case reflect.Slice, reflect.Array:
		*o = append(*o, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			flat(v.Index(i), o, seen)
		}
	case reflect.Map:
		*o = append(*o, uint64(v.Len()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		*o = append(*o, v.Uint())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		*o = append(*o, uint64(v.Int()))
	case reflect.Float32, reflect.Float64:
		*o = append(*o, math.Float64bits(v.Float()))
	case reflect.Bool:
		if v.Bool() {
			*o = append(*o, 1)
		} else {
			*o = append(*o, 0)
		}
	}
}

// shape lists the slice lengths reachable from the object.
func shape(x interface{}) []int {
	var o []int
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
		case reflect.Slice:
			o = append(o, v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		}
	}
	rec(reflect.ValueOf(x))
	return o
}

// leaves returns the settable integer and float cells of the object (through
// slices and exported fields only).
func leaves(x interface{}) []reflect.Value {
	var o []reflect.Value
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					rec(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Uint32, reflect.Uint64, reflect.Float64:
			if v.CanSet() {
				o = append(o, v)
			}
		}
	}
	rec(reflect.ValueOf(x))
	return o
}

// fill writes random data to every cell of the object.
func fill(r *rt.R, x interface{}) {
	for _, l := range leaves(x) {
		switch l.Kind() {
		case reflect.Float64:
			l.SetFloat(r.NormFloat64() * math.Exp2(float64(r.Intn(70))))
		default:
			l.SetUint(r.Word() & (1<<uint(l.Type().Bits()-1)*2 - 1))
		}
	}
}

func fftp[T ti](N int, p []T) poly.FFTPoly {
	return poly.NewEvaluator[T](N).FwdFFT(poly.Poly[T]{Coeffs: append([]T(nil), p...)})
}

func pmod(m int, mod uint64) int {
	if mod == 0 {
		return m
	}
	z := new(big.Int).Mod(big.NewInt(int64(m)), new(big.Int).SetUint64(mod))
	return int(z.Uint64())
}

// fftTol bounds the error of storing a ciphertext in the Fourier domain.
func fftTol[T ti](N, k int) float64 {
	return math.Exp2(float64(bitsOf[T]()-46)) * float64(N*(k+1))
}

func polyOf[T ti](c []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: append([]T(nil), c...)} }

// prodTol bounds the floating-point error of a sum of count products of a
// full-size polynomial with one whose coefficients are below 2^logBase.
func prodTol[T ti](N, count, logBase int) float64 {
	return math.Exp2(float64(bitsOf[T]()-51+logBase))*float64(N*count) + 4
}

// roundGadget rounds to the nearest multiple of the smallest gadget factor, ties upward.
func roundGadget[T ti](x T, logBase, level int) T {
	l := bitsOf[T]() - logBase*level
	if l == 0 {
		return x
	}
	return ((x >> l) + ((x >> (l - 1)) & 1)) << l
}

// gadTol bounds the rounding error of one gadget-decomposed value.
func gadTol[T ti](logBase, level int) float64 {
	l := bitsOf[T]() - logBase*level
	if l == 0 {
		return 0
	}
	return float64(uint64(1) << (l - 1))
}

func dfltKey[T ti](e *tfhe.Encryptor[T]) []T { return e.DefaultLWESecretKey().Value }

func gadgetsFor[T ti](r *rt.R) [][2]int {
	b := bitsOf[T]()
	g := [][2]int{{1, 1}, {b / 2, 1}, {b / 2, 2}, {4, 3}, {1, b}, {7, 4}}
	for i := 0; i < r.N(3); i++ {
		lb := 1 + r.Intn(b-1)
		g = append(g, [2]int{lb, 1 + r.Intn(b/lb)})
	}
	return g
}
