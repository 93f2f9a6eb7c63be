package vec_test

import (
	"fmt"
	"math/big"
	"reflect"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
)

// p01Ref computes the exact result with big integers, reduced to the type.
func p01Ref[T num.Integer](f func(z, a, b, o *big.Int), a, b, o T) T {
	z := new(big.Int)
	f(z, p01Big(a), p01Big(b), p01Big(o))
	var t T
	bits := uint(reflect.TypeOf(t).Bits())
	z.Mod(z, new(big.Int).Lsh(big.NewInt(1), bits))
	return T(z.Uint64())
}

func p01Big[T num.Integer](x T) *big.Int {
	if x < 0 {
		return big.NewInt(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}

func p01Lens(r *rt.R) []int {
	ls := []int{}
	for i := 0; i <= 40; i++ {
		ls = append(ls, i)
	}
	ls = append(ls, 63, 64, 65, 127, 128, 129, 1000, 1023, 1024, 1025)
	for _, d := range rt.DictInts(0, 5000) {
		ls = append(ls, d)
	}
	for i := 0; i < r.N(4); i++ {
		ls = append(ls, 41+r.Intn(3000))
	}
	return ls
}

func p01Type[T num.Integer](r *rt.R, tn string) {
	mul := func(z, a, b *big.Int) { z.Mul(a, b) }
	type op struct {
		name string
		run  func(out, a, b []T)
		ref  func(z, a, b, o *big.Int)
		un   int // 0: two vectors, 1: scalar b[0], 2: unary
	}
	ops := []op{
		{"AddTo", func(o, a, b []T) { vec.AddTo(o, a, b) }, func(z, a, b, o *big.Int) { z.Add(a, b) }, 0},
		{"SubTo", func(o, a, b []T) { vec.SubTo(o, a, b) }, func(z, a, b, o *big.Int) { z.Sub(a, b) }, 0},
		{"MulTo", func(o, a, b []T) { vec.MulTo(o, a, b) }, func(z, a, b, o *big.Int) { mul(z, a, b) }, 0},
		{"MulAddTo", func(o, a, b []T) { vec.MulAddTo(o, a, b) }, func(z, a, b, o *big.Int) { mul(z, a, b); z.Add(z, o) }, 0},
		{"MulSubTo", func(o, a, b []T) { vec.MulSubTo(o, a, b) }, func(z, a, b, o *big.Int) { mul(z, a, b); z.Sub(o, z) }, 0},
		{"ScalarMulTo", func(o, a, b []T) { vec.ScalarMulTo(o, a, b[0]) }, func(z, a, b, o *big.Int) { mul(z, a, b) }, 1},
		{"ScalarMulAddTo", func(o, a, b []T) { vec.ScalarMulAddTo(o, a, b[0]) }, func(z, a, b, o *big.Int) { mul(z, a, b); z.Add(z, o) }, 1},
		{"ScalarMulSubTo", func(o, a, b []T) { vec.ScalarMulSubTo(o, a, b[0]) }, func(z, a, b, o *big.Int) { mul(z, a, b); z.Sub(o, z) }, 1},
		{"NegTo", func(o, a, b []T) { vec.NegTo(o, a) }, func(z, a, b, o *big.Int) { z.Neg(a) }, 2},
		{"Add", func(o, a, b []T) { copy(o, vec.Add(a, b)) }, func(z, a, b, o *big.Int) { z.Add(a, b) }, 0},
		{"Sub", func(o, a, b []T) { copy(o, vec.Sub(a, b)) }, func(z, a, b, o *big.Int) { z.Sub(a, b) }, 0},
		{"Mul", func(o, a, b []T) { copy(o, vec.Mul(a, b)) }, func(z, a, b, o *big.Int) { mul(z, a, b) }, 0},
		{"ScalarMul", func(o, a, b []T) { copy(o, vec.ScalarMul(a, b[0])) }, func(z, a, b, o *big.Int) { mul(z, a, b) }, 1},
		{"Neg", func(o, a, b []T) { copy(o, vec.Neg(a)) }, func(z, a, b, o *big.Int) { z.Neg(a) }, 2},
	}
	const pad = 19
	buf := func(n int) ([]T, []T) { // whole buffer and the vector inside it
		off := r.Intn(9)
		b := make([]T, off+n+pad)
		for i := range b {
			b[i] = T(r.Word())
		}
		return b, b[off : off+n]
	}
	for _, n := range p01Lens(r) {
		if n > 64 && !r.More() {
			break
		}
		for _, o := range ops {
			for alias := 0; alias < 5; alias++ {
				if alias > 0 && o.name[len(o.name)-2:] != "To" {
					continue
				}
				if (n > 40) && alias > 2 {
					continue
				}
				whole, out := buf(n)
				_, a := buf(n)
				_, b := buf(n)
				sc := []T{T(r.Word())}
				switch alias {
				case 1:
					a = out
				case 2:
					b = out
				case 3:
					b = a
				case 4:
					a, b = out, out
				}
				if o.un == 1 {
					if alias >= 2 {
						continue
					}
					b = sc
				}
				if o.un == 2 && alias >= 2 {
					continue
				}
				r.Case("%s %s n=%d alias=%d", tn, o.name, n, alias)
				want := make([]T, len(whole))
				copy(want, whole)
				off := cap(whole) - cap(out)
				for i := 0; i < n; i++ {
					bi := T(0)
					if o.un == 0 {
						bi = b[i]
					} else if o.un == 1 {
						bi = b[0]
					}
					want[off+i] = p01Ref(o.ref, a[i], bi, out[i])
				}
				a0, b0 := append([]T{}, a...), append([]T{}, b...)
				o0 := append([]T{}, out...)
				r.Try(func() {
					o.run(out, a, b)
					for i := range want {
						if whole[i] != want[i] {
							j := i - off
							if j >= 0 && j < n {
								r.Fail("%s[%s] length %d, output aliasing %d: element %d is %v, exact result %v (operands %v, %v, old %v)", o.name, tn, n, alias, j, whole[i], want[i], a0[j], b0[j%len(b0)], o0[j])
							} else {
								r.Fail("%s[%s] length %d: wrote outside the output vector at offset %d", o.name, tn, n, j)
							}
							return
						}
					}
					if alias == 0 {
						for i := range a0 {
							if a[i] != a0[i] {
								r.Fail("%s modified its input", o.name)
								return
							}
						}
						for i := range b0 {
							if b[i] != b0[i] {
								r.Fail("%s modified its input", o.name)
								return
							}
						}
					}
				})
			}
		}
		// inner product
		_, a := buf(n)
		_, b := buf(n)
		r.Case("%s Dot n=%d", tn, n)
		z, t := new(big.Int), new(big.Int)
		for i := range a {
			z.Add(z, t.Mul(p01Big(a[i]), p01Big(b[i])))
		}
		z.Mod(z, new(big.Int).Lsh(big.NewInt(1), uint(reflect.TypeOf(a).Elem().Bits())))
		r.Try(func() {
			if g := vec.Dot(a, b); g != T(z.Uint64()) {
				r.Fail("Dot[%s] length %d = %v, exact %v", tn, n, g, T(z.Uint64()))
			}
		})
	}
	// empty vectors without backing storage, mismatched lengths
	for _, o := range ops {
		if o.un == 1 {
			continue
		}
		r.Case("%s %s empty", tn, o.name)
		r.Try(func() { o.run(nil, nil, nil); o.run([]T{}, []T{}, []T{}) })
	}
	r.Case("%s scalar empty", tn)
	r.Try(func() {
		vec.ScalarMulTo([]T{}, []T{}, 1)
		vec.ScalarMulAddTo([]T{}, []T{}, 1)
		vec.ScalarMulSubTo([]T{}, []T{}, 1)
	})
	for _, l := range [][3]int{{8, 8, 9}, {8, 9, 8}, {9, 8, 8}, {16, 8, 16}, {0, 8, 0}} {
		for _, o := range ops {
			if o.un != 0 {
				continue
			}
			r.Case("%s %s lengths %v", tn, o.name, l)
			x := make([]T, l[0], 64)
			if o.name[len(o.name)-2:] != "To" {
				if l[1] == l[2] {
					continue
				}
				x = make([]T, 64)
			}
			if !rt.Panics(func() { o.run(x, make([]T, l[1], 64), make([]T, l[2], 64)) }) {
				r.Fail("%s[%s] accepted vectors of lengths %v", o.name, tn, l)
			}
		}
	}
}

// p01Field checks the element types without wrap-around. The elements are
// small multiples of 1/4, so that every result is exact and independent of the
// order of summation.
func p01Field[T num.Number](r *rt.R, tn string, rnd func() T) {
	type op struct {
		name string
		run  func(out, a, b []T)
		ref  func(a, b, o T) T
		un   int
	}
	ops := []op{
		{"AddTo", func(o, a, b []T) { vec.AddTo(o, a, b) }, func(a, b, o T) T { return a + b }, 0},
		{"SubTo", func(o, a, b []T) { vec.SubTo(o, a, b) }, func(a, b, o T) T { return a - b }, 0},
		{"MulTo", func(o, a, b []T) { vec.MulTo(o, a, b) }, func(a, b, o T) T { return a * b }, 0},
		{"MulAddTo", func(o, a, b []T) { vec.MulAddTo(o, a, b) }, func(a, b, o T) T { return o + a*b }, 0},
		{"MulSubTo", func(o, a, b []T) { vec.MulSubTo(o, a, b) }, func(a, b, o T) T { return o - a*b }, 0},
		{"ScalarMulTo", func(o, a, b []T) { vec.ScalarMulTo(o, a, b[0]) }, func(a, b, o T) T { return a * b }, 1},
		{"ScalarMulAddTo", func(o, a, b []T) { vec.ScalarMulAddTo(o, a, b[0]) }, func(a, b, o T) T { return o + a*b }, 1},
		{"ScalarMulSubTo", func(o, a, b []T) { vec.ScalarMulSubTo(o, a, b[0]) }, func(a, b, o T) T { return o - a*b }, 1},
		{"NegTo", func(o, a, b []T) { vec.NegTo(o, a) }, func(a, b, o T) T { return -a }, 2},
		{"Add", func(o, a, b []T) { copy(o, vec.Add(a, b)) }, func(a, b, o T) T { return a + b }, 0},
		{"Sub", func(o, a, b []T) { copy(o, vec.Sub(a, b)) }, func(a, b, o T) T { return a - b }, 0},
		{"Mul", func(o, a, b []T) { copy(o, vec.Mul(a, b)) }, func(a, b, o T) T { return a * b }, 0},
		{"ScalarMul", func(o, a, b []T) { copy(o, vec.ScalarMul(a, b[0])) }, func(a, b, o T) T { return a * b }, 1},
		{"Neg", func(o, a, b []T) { copy(o, vec.Neg(a)) }, func(a, b, o T) T { return -a }, 2},
	}
	buf := func(n int) ([]T, []T) {
		off := r.Intn(9)
		b := make([]T, off+n+19)
		for i := range b {
			b[i] = rnd()
		}
		return b, b[off : off+n]
	}
	for _, n := range p01Lens(r) {
		if n > 64 && !r.More() {
			break
		}
		for _, o := range ops {
			for alias := 0; alias < 5; alias++ {
				if alias > 0 && (o.name[len(o.name)-2:] != "To" || o.un != 0 && alias > 1 || n > 40 && alias > 2) {
					continue
				}
				whole, out := buf(n)
				_, a := buf(n)
				_, b := buf(n)
				switch alias {
				case 1:
					a = out
				case 2:
					b = out
				case 3:
					b = a
				case 4:
					a, b = out, out
				}
				if o.un == 1 {
					b = []T{rnd()}
				}
				r.Case("%s %s n=%d alias=%d", tn, o.name, n, alias)
				want := append([]T{}, whole...)
				off := cap(whole) - cap(out)
				for i := 0; i < n; i++ {
					bi := T(0)
					if o.un == 0 {
						bi = b[i]
					} else if o.un == 1 {
						bi = b[0]
					}
					want[off+i] = o.ref(a[i], bi, out[i])
				}
				a0, b0 := append([]T{}, a...), append([]T{}, b...)
				r.Try(func() {
					o.run(out, a, b)
					for i := range want {
						if whole[i] != want[i] {
							r.Fail("%s[%s] length %d, output aliasing %d: element %d is %v, exact result %v", o.name, tn, n, alias, i-off, whole[i], want[i])
							return
						}
					}
					if alias == 0 && (!reflect.DeepEqual(a, a0) || !reflect.DeepEqual(b, b0)) {
						r.Fail("%s[%s] modified its input", o.name, tn)
					}
				})
			}
		}
		_, a := buf(n)
		_, b := buf(n)
		r.Case("%s Dot n=%d", tn, n)
		var z T
		for i := range a {
			z += a[i] * b[i]
		}
		r.Try(func() {
			if g := vec.Dot(a, b); g != z {
				r.Fail("Dot[%s] length %d = %v, exact %v", tn, n, g, z)
			}
		})
	}
}

func TestVerifP01(t *testing.T) {
	q := func(r *rt.R) float64 { return float64(r.Intn(129)-64) / 4 }
	rt.Run(t, "P01", "vector kernels float32", func(r *rt.R) { p01Field(r, "float32", func() float32 { return float32(q(r)) }) })
	rt.Run(t, "P01", "vector kernels float64", func(r *rt.R) { p01Field(r, "float64", func() float64 { return q(r) }) })
	rt.Run(t, "P01", "vector kernels complex64", func(r *rt.R) {
		p01Field(r, "complex64", func() complex64 { return complex(float32(q(r)), float32(q(r))) })
	})
	rt.Run(t, "P01", "vector kernels complex128", func(r *rt.R) { p01Field(r, "complex128", func() complex128 { return complex(q(r), q(r)) }) })
	for _, c := range []struct {
		n string
		f func(r *rt.R, tn string)
	}{
		{"uint32", p01Type[uint32]}, {"uint64", p01Type[uint64]}, {"int32", p01Type[int32]}, {"int64", p01Type[int64]},
		{"uint8", p01Type[uint8]}, {"uint16", p01Type[uint16]}, {"int8", p01Type[int8]}, {"int16", p01Type[int16]}, {"int", p01Type[int]}, {"uint", p01Type[uint]}, {"uintptr", p01Type[uintptr]},
	} {
		rt.Run(t, "P01", fmt.Sprintf("vector kernels %s", c.n), func(r *rt.R) { c.f(r, c.n) })
	}
}
