package xtfhe_test

import (
	"unsafe"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

type ti interface{ uint32 | uint64 }

func bitsOf[T ti]() int { return int(unsafe.Sizeof(T(0))) * 8 }

const (
	ksbr = tfhe.OrderKeySwitchBlindRotate
	brks = tfhe.OrderBlindRotateKeySwitch
)

func gl[T ti](logBase, level int) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << logBase, Level: level}
}

// lit is a small parameter literal; the noise is so small that it rounds to zero.
func lit[T ti](n, k, N, block int, mm T, order tfhe.BootstrapOrder) tfhe.ParametersLiteral[T] {
	p := tfhe.ParametersLiteral[T]{
		LWEDimension: n, GLWERank: k, PolyRank: N, LUTSize: N,
		LWEStdDev: 1e-40, GLWEStdDev: 1e-40, BlockSize: block, MessageModulus: mm,
		BootstrapOrder:    order,
		BlindRotateParams: brg[T](), KeySwitchParams: gl[T](5, 8),
	}
	if bitsOf[T]() == 32 {
		p.KeySwitchParams = gl[T](3, 8)
	}
	return p
}

func brg[T ti]() tfhe.GadgetParametersLiteral[T] {
	if bitsOf[T]() == 64 {
		return gl[T](12, 3)
	}
	return gl[T](7, 3)
}

func mul[T ti](a, b []T) []T {
	n := len(a)
	o := make([]T, n)
	for i := range a {
		if a[i] == 0 {
			continue
		}
		for j := range b {
			if i+j < n {
				o[i+j] += a[i] * b[j]
			} else {
				o[i+j-n] -= a[i] * b[j]
			}
		}
	}
	return o
}

func aut[T ti](a []T, d int) []T {
	n := len(a)
	o := make([]T, n)
	d = (d%(2*n) + 2*n) % (2 * n)
	for i := range a {
		if j := i * d % (2 * n); j < n {
			o[j] += a[i]
		} else {
			o[j-n] -= a[i]
		}
	}
	return o
}

func scal[T ti](a []T, c T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] * c
	}
	return o
}

func add[T ti](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] + b[i]
	}
	return o
}

func ints[T ti](a []int) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = T(a[i])
	}
	return o
}

// phase of a GLWE ciphertext: body plus masks times keys.
func phaseGLWE[T ti](ct tfhe.GLWECiphertext[T], sk []poly.Poly[T]) []T {
	o := append([]T(nil), ct.Value[0].Coeffs...)
	for i := range sk {
		o = add(o, mul(sk[i].Coeffs, ct.Value[i+1].Coeffs))
	}
	return o
}

func phaseLWE[T ti](ct, sk []T) T {
	x := ct[0]
	for i := range sk {
		x += ct[i+1] * sk[i]
	}
	return x
}

// dist is the largest centred distance.
func dist[T ti](a, b []T) float64 {
	m := 0.0
	s := 64 - bitsOf[T]()
	for i := range a {
		d := float64(int64(uint64(a[i]-b[i])<<s) >> s)
		if d < 0 {
			d = -d
		}
		if d > m {
			m = d
		}
	}
	return m
}

func randMsgs(r *rt.R, n, mm int) []int {
	o := make([]int, n)
	for i := range o {
		if r.Intn(3) > 0 {
			o[i] = r.Intn(mm)
		}
	}
	return o
}

func junk[T ti](r *rt.R, ct tfhe.GLWECiphertext[T]) {
	for i := range ct.Value {
		for j := range ct.Value[i].Coeffs {
			ct.Value[i].Coeffs[j] = T(r.Uint64())
		}
	}
}

func junkv[T ti](r *rt.R, v []T) {
	for j := range v {
		v[j] = T(r.Uint64())
	}
}
