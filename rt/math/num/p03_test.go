package num_test

import (
	"math"
	"math/big"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/num"
)

func p03Big[T num.Integer](x T) *big.Int {
	if x < 0 {
		return big.NewInt(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}

func p03Type[T num.Integer](r *rt.R, tn string, bits int, signed bool) {
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	fits := func(z *big.Int) bool { return z.Cmp(lo) >= 0 && z.Cmp(hi) <= 0 }
	r.Case("%s constants", tn)
	if num.SizeT[T]() != bits || num.ByteSizeT[T]() != bits/8 || num.IsSigned[T]() != signed || new(big.Int).SetUint64(num.MaxT[T]()).Cmp(hi) != 0 || big.NewInt(num.MinT[T]()).Cmp(lo) != 0 {
		r.Fail("type constants of %s: size %d bytes %d signed %v max %d min %d", tn, num.SizeT[T](), num.ByteSizeT[T](), num.IsSigned[T](), num.MaxT[T](), num.MinT[T]())
	}
	var vals []T
	if bits == 8 {
		for i := 0; i < 256; i++ {
			vals = append(vals, T(i))
		}
	} else {
		for i := 0; i < bits; i++ {
			for d := -2; d <= 2; d++ {
				vals = append(vals, T(uint64(1)<<i+uint64(d)), T(-(uint64(1)<<i + uint64(d))))
			}
		}
		for i := 0; i < r.N(200); i++ {
			vals = append(vals, T(r.Word()))
		}
	}
	one := big.NewInt(1)
	for _, x := range vals {
		bx := p03Big(x)
		r.Case("%s x=%v", tn, x)
		r.Try(func() {
			if a := new(big.Int).Abs(bx); fits(a) && p03Big(num.Abs(x)).Cmp(a) != 0 {
				r.Fail("Abs(%v) = %v", x, num.Abs(x))
			}
			if g, w := num.IsPowerOfTwo(x), bx.Sign() > 0 && new(big.Int).And(bx, new(big.Int).Sub(bx, one)).Sign() == 0; g != w {
				r.Fail("IsPowerOfTwo[%s](%v) = %v", tn, x, g)
			}
			if bx.Sign() > 0 {
				if g := num.Log2(x); g != bx.BitLen()-1 {
					r.Fail("Log2(%v) = %v", x, g)
				}
			} else if !rt.Panics(func() { num.Log2(x) }) {
				r.Fail("Log2(%v) does not panic", x)
			}
			if bx.Sign() >= 0 {
				if g, w := num.Sqrt(x), new(big.Int).Sqrt(bx); p03Big(g).Cmp(w) != 0 {
					r.Fail("Sqrt[%s](%v) = %v, floor of the root is %v", tn, x, g, w)
				}
			} else if !rt.Panics(func() { num.Sqrt(x) }) {
				r.Fail("Sqrt(%v) does not panic", x)
			}
			for b := 0; b < bits; b++ {
				// floor(x/2^b + 1/2)
				w := new(big.Int).Lsh(bx, 1)
				w.Add(w, new(big.Int).Lsh(one, uint(b)))
				w.Rsh(w, uint(b+1))
				g := num.DivRoundBits(x, b)
				w.Sub(w, p03Big(g))
				if w.And(w, new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)); w.Sign() != 0 {
					r.Fail("DivRoundBits[%s](%v, %d) = %v", tn, x, b, g)
				}
			}
		})
	}
	pair := func(x, y T) {
		bx, by := p03Big(x), p03Big(y)
		r.Case("%s x=%v y=%v", tn, x, y)
		r.Try(func() {
			mn, mx := x, y
			if bx.Cmp(by) > 0 {
				mn, mx = y, x
			}
			if num.Min(x, y) != mn || num.Max(x, y) != mx || num.MinN(x, y) != mn || num.MaxN(x, y) != mx || num.MinN(x) != x || num.MaxN(mx, mn, mx) != mx || num.MinN(mx, mx, mn) != mn {
				r.Fail("min/max of %v and %v", x, y)
			}
			if by.Sign() != 0 {
				// round to nearest, ties away from zero
				ax, ay := new(big.Int).Abs(bx), new(big.Int).Abs(by)
				w := new(big.Int).Lsh(ax, 1)
				w.Add(w, ay)
				w.Div(w, new(big.Int).Lsh(ay, 1))
				if bx.Sign()*by.Sign() < 0 {
					w.Neg(w)
				}
				if g := num.DivRound(x, y); fits(w) && p03Big(g).Cmp(w) != 0 {
					r.Fail("DivRound[%s](%v, %v) = %v, nearest integer is %v", tn, x, y, g, w)
				}
			}
			if by.Sign() > 0 {
				w := new(big.Int).ModInverse(new(big.Int).Mod(bx, by), by)
				if by.Cmp(one) == 0 {
					w = big.NewInt(0)
				}
				if w == nil {
					if !rt.Panics(func() { num.ModInverse(x, y) }) {
						r.Fail("ModInverse[%s](%v, %v) does not panic", tn, x, y)
					}
				} else if g := num.ModInverse(x, y); p03Big(g).Cmp(w) != 0 {
					r.Fail("ModInverse[%s](%v, %v) = %v, want %v", tn, x, y, g, w)
				}
				e := T(r.Word())
				if g, w := T(0), new(big.Int).Exp(new(big.Int).Mod(bx, by), p03Big(e), by); w != nil {
					g = num.ModExp(x, e, y)
					if by.Cmp(one) == 0 {
						w = big.NewInt(0)
					}
					if p03Big(g).Cmp(w) != 0 {
						r.Fail("ModExp[%s](%v, %v, %v) = %v, want %v", tn, x, e, y, g, w)
					}
				}
			} else if !rt.Panics(func() { num.ModInverse(x, y) }) {
				r.Fail("ModInverse with modulus %v does not panic", y)
			}
		})
	}
	if bits == 8 {
		for _, x := range vals {
			for _, y := range vals {
				pair(x, y)
			}
		}
		return
	}
	for i := 0; i < r.N(8000); i++ {
		x, y := T(r.Word()), T(r.Word())
		if r.Intn(3) == 0 { // around half-way points
			y = T(r.Word() >> uint(r.Intn(bits)))
			q := T(r.Word() >> uint(r.Intn(bits)))
			x = q*y + y/2 + T(r.Intn(3)) - 1
		}
		pair(x, y)
	}
}

func TestVerifP03(t *testing.T) {
	rt.Run(t, "P03", "uint8", func(r *rt.R) { p03Type[uint8](r, "uint8", 8, false) })
	rt.Run(t, "P03", "int8", func(r *rt.R) { p03Type[int8](r, "int8", 8, true) })
	rt.Run(t, "P03", "uint16", func(r *rt.R) { p03Type[uint16](r, "uint16", 16, false) })
	rt.Run(t, "P03", "int16", func(r *rt.R) { p03Type[int16](r, "int16", 16, true) })
	rt.Run(t, "P03", "uint32", func(r *rt.R) { p03Type[uint32](r, "uint32", 32, false) })
	rt.Run(t, "P03", "int32", func(r *rt.R) { p03Type[int32](r, "int32", 32, true) })
	rt.Run(t, "P03", "uint64", func(r *rt.R) { p03Type[uint64](r, "uint64", 64, false) })
	rt.Run(t, "P03", "int64", func(r *rt.R) { p03Type[int64](r, "int64", 64, true) })
	rt.Run(t, "P03", "int", func(r *rt.R) { p03Type[int](r, "int", 64, true) })
	rt.Run(t, "P03", "uint", func(r *rt.R) { p03Type[uint](r, "uint", 64, false) })
	rt.Run(t, "P03", "uintptr", func(r *rt.R) { p03Type[uintptr](r, "uintptr", 64, false) })
	rt.Run(t, "P03", "floats", func(r *rt.R) {
		for i := 0; i < r.N(2000); i++ {
			x, y := math.Ldexp(r.NormFloat64(), r.Intn(60)-30), r.NormFloat64()
			r.Case("float x=%v y=%v", x, y)
			if num.Abs(x) != math.Abs(x) || num.Min(x, y) != math.Min(x, y) || num.Max(x, y) != math.Max(x, y) || num.MaxN(x, y, x) != math.Max(x, y) || num.MinN(y, x) != math.Min(x, y) {
				r.Fail("float helpers of %v, %v", x, y)
			}
		}
		if !num.IsSigned[float64]() || !num.IsSigned[float32]() || num.MaxN[float64]() != 0 || num.MinN[int]() != 0 {
			r.Fail("float signedness or empty extrema")
		}
	})
}
