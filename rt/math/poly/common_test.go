package poly_test

import (
	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// refMono is X^d * p in Z_Q[X]/(X^N+1).
func refMono[T num.Integer](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	s := d % (2 * n)
	if s < 0 {
		s += 2 * n
	}
	for i := range p {
		j := (i + s) % (2 * n)
		if j < n {
			o[j] += p[i]
		} else {
			o[j-n] -= p[i]
		}
	}
	return o
}

// refAuto is p(X^d).
func refAuto[T num.Integer](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	s := d % (2 * n)
	if s < 0 {
		s += 2 * n
	}
	for i := range p {
		j := (i * s) % (2 * n)
		if j < n {
			o[j] += p[i]
		} else {
			o[j-n] -= p[i]
		}
	}
	return o
}

// refMul is the negacyclic product.
func refMul[T num.Integer](a, b []T) []T {
	n := len(a)
	o := make([]T, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j := 0; j < n-i; j++ {
			o[i+j] += x * b[j]
		}
		for j := n - i; j < n; j++ {
			o[i+j-n] -= x * b[j]
		}
	}
	return o
}

func randPoly[T num.Integer](r *rt.R, n int) poly.Poly[T] {
	p := poly.NewPoly[T](n)
	full := r.Intn(3) == 0
	for i := range p.Coeffs {
		if full {
			p.Coeffs[i] = T(r.Uint64())
		} else {
			p.Coeffs[i] = T(r.Word())
		}
	}
	return p
}

// smallPoly has coefficients in [-2^b, 2^b].
func smallPoly[T num.Integer](r *rt.R, n, b int) poly.Poly[T] {
	p := poly.NewPoly[T](n)
	for i := range p.Coeffs {
		switch r.Intn(6) {
		case 0:
			p.Coeffs[i] = T(int64(1) << b)
		case 1:
			p.Coeffs[i] = T(-(int64(1) << b))
		default:
			p.Coeffs[i] = T(r.Int63n(int64(2)<<b+1) - int64(1)<<b)
		}
	}
	return p
}

func eq[T num.Integer](a []T, b []T) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// dist is the largest centred difference.
func dist[T num.Integer](a, b []T) (float64, int) {
	m, at := 0.0, 0
	bits := num.SizeT[T]()
	for i := range a {
		d := int64(uint64(a[i]-b[i])<<(64-bits)) >> (64 - bits)
		f := float64(d)
		if f < 0 {
			f = -f
		}
		if f > m {
			m, at = f, i
		}
	}
	return m, at
}
