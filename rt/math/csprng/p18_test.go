package csprng_test

import (
	"fmt"
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

func TestVerifP18(t *testing.T) {
	rt.Run(t, "P18", "uniform", func(r *rt.R) {
		p18uniform[uint8](r)
		p18uniform[int8](r)
		p18uniform[uint16](r)
		p18uniform[int16](r)
		p18uniform[uint32](r)
		p18uniform[int32](r)
		p18uniform[uint64](r)
		p18uniform[int64](r)
		p18uniform[int](r)
		p18uniform[uint](r)
		p18uniform[uintptr](r)
	})
	rt.Run(t, "P18", "binary", func(r *rt.R) {
		p18binary[uint32](r)
		p18binary[uint64](r)
		p18binary[int](r)
		p18binary[int8](r)
	})
	rt.Run(t, "P18", "gaussian", func(r *rt.R) {
		p18gauss[uint32](r)
		p18gauss[uint64](r)
		p18gauss[int64](r)
		p18gauss[int32](r)
	})
}

func bitsOf[T num.Integer]() int { return num.SizeT[T]() }

func eq[T num.Integer](a, b []T) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func p18seed(r *rt.R) []byte {
	s := make([]byte, r.Intn(40))
	r.Read(s)
	return s
}

func p18uniform[T num.Integer](r *rt.R) {
	var z T
	per := 8192 * 8 / bitsOf[T]() // elements per refill
	for it := 0; it < r.N(4) && (it < 2 || r.More()); it++ {
		seed := p18seed(r)
		n := 2*per + 100
		r.Case("%T seed=%x", z, seed)
		r.Try(func() {
			a, b := csprng.NewUniformSamplerWithSeed[T](seed), csprng.NewUniformSamplerWithSeed[T](append([]byte(nil), seed...))
			one := make([]T, n)
			for i := range one {
				one[i] = a.Sample()
			}
			var many []T
			for len(many) < n {
				k := r.Intn(per + 50)
				if k > n-len(many) {
					k = n - len(many)
				}
				v := make([]T, k)
				for i := range v {
					v[i] = T(r.Word())
				}
				if k == 16 || k == 64 || r.Intn(3) == 0 {
					b.SamplePolyTo(poly.Poly[T]{Coeffs: v})
				} else {
					b.SampleVecTo(v)
				}
				many = append(many, v...)
			}
			if i := eq(one, many); i >= 0 {
				r.Fail("element %d differs between single and batched requests", i)
				return
			}
			// distribution: every bit is balanced, also within each residue of the position
			for bit := 0; bit < bitsOf[T](); bit++ {
				c := 0
				for _, x := range one {
					if x>>uint(bit)&1 != 0 {
						c++
					}
				}
				if d := math.Abs(float64(c) - float64(n)/2); d > 8*math.Sqrt(float64(n)/4) {
					r.Fail("bit %d is one in %d of %d samples", bit, c, n)
					return
				}
			}
			// the stream does not repeat after a refill
			same := 0
			for i := 0; i+per < n; i++ {
				if one[i] == one[i+per] {
					same++
				}
			}
			if float64(same) > float64(per)*math.Exp2(-float64(bitsOf[T]()))+10*math.Sqrt(float64(per)) {
				r.Fail("the stream repeats after a refill: %d of %d", same, per)
				return
			}
			other := csprng.NewUniformSamplerWithSeed[T](append(append([]byte(nil), seed...), 1))
			v := make([]T, 64)
			other.SampleVecTo(v)
			if eq(v, one[:64]) < 0 {
				r.Fail("another seed gives the same stream")
			}
		})
		// bounded samples
		max := num.MaxT[T]()
		for _, N := range []uint64{1, 2, 3, 5, 7, 16, 100, 127, uint64(max), uint64(max) - 1, uint64(max)/2 + 1, uint64(max)/2 + 2, uint64(max)/3 + 1, r.Word()} {
			N := T(N)
			if N <= 0 {
				continue
			}
			r.Case("%T SampleN(%d) seed=%x", z, N, seed)
			r.Try(func() {
				a, b := csprng.NewUniformSamplerWithSeed[T](seed), csprng.NewUniformSamplerWithSeed[T](seed)
				cnt := map[T]int{}
				m, half := 4000, 0
				for i := 0; i < m; i++ {
					x := a.SampleN(N)
					if x < 0 || x >= N {
						r.Fail("%d out of range", x)
						return
					}
					if y := b.SampleN(N); y != x {
						r.Fail("not reproducible at %d", i)
						return
					}
					if N <= 127 {
						cnt[x]++
					}
					if x < N/2 {
						half++
					}
				}
				if N <= 127 {
					e := float64(m) / float64(N)
					for x := T(0); x < N; x++ {
						if math.Abs(float64(cnt[x])-e) > 8*math.Sqrt(e)+1 {
							r.Fail("value %d drawn %d times of %d", x, cnt[x], m)
							return
						}
					}
				} else if math.Abs(float64(half)-float64(m)/2) > 8*math.Sqrt(float64(m)/4) {
					r.Fail("%d of %d samples below half of the bound", half, m)
				}
			})
		}
	}
}

func p18binary[T num.Integer](r *rt.R) {
	var z T
	for it := 0; it < r.N(12) && (it < 6 || r.More()); it++ {
		seed := p18seed(r)
		n := []int{0, 1, 63, 64, 65, 128, 1000, 70000, r.Intn(3000)}[it%9]
		r.Case("%T binary n=%d seed=%x", z, n, seed)
		r.Try(func() {
			a, b := csprng.NewBinarySamplerWithSeed[T](seed), csprng.NewBinarySamplerWithSeed[T](seed)
			v, w := make([]T, n), make([]T, n)
			for i := range v {
				v[i], w[i] = 77, 99
			}
			a.SampleVecTo(v)
			if r.Intn(2) == 0 {
				b.SamplePolyTo(poly.Poly[T]{Coeffs: w})
			} else {
				b.SampleVecTo(w)
			}
			c := 0
			for i := range v {
				if v[i] != 0 && v[i] != 1 {
					r.Fail("element %d is %d", i, v[i])
					return
				}
				c += int(v[i])
			}
			if i := eq(v, w); i >= 0 {
				r.Fail("not reproducible at %d", i)
			}
			if math.Abs(float64(c)-float64(n)/2) > 4*math.Sqrt(float64(n))+0.6 {
				r.Fail("%d ones of %d", c, n)
			}
			// runs of 64 must differ
			if n > 1000 {
				if eq(v[:64], v[64:128]) < 0 || eq(v[64:128], v[128:192]) < 0 {
					r.Fail("words repeat")
				}
			}
			// whole words can be requested in batches
			d := csprng.NewBinarySamplerWithSeed[T](seed)
			var many []T
			for len(many) < n {
				k := 64 * (1 + r.Intn(9))
				if k > n-len(many) {
					k = n - len(many)
				}
				x := make([]T, k)
				d.SampleVecTo(x)
				many = append(many, x...)
			}
			if i := eq(many, v); i >= 0 {
				r.Fail("batches of whole words differ at %d", i)
			}
			for i := 0; i < 100; i++ {
				x, y := a.Sample(), b.Sample()
				if x != y || (x != 0 && x != 1) {
					r.Fail("Sample gives %d and %d", x, y)
					return
				}
			}
		})
		block := 1 + r.Intn(9)
		m := block * (1 + r.Intn(200)) * (1 + 20*(it%2))
		r.Case("%T block=%d n=%d seed=%x", z, block, m, seed)
		r.Try(func() {
			a, b := csprng.NewBinarySamplerWithSeed[T](seed), csprng.NewBinarySamplerWithSeed[T](seed)
			v, w := make([]T, m), make([]T, m)
			for i := range v {
				v[i], w[i] = 77, 99
			}
			a.SampleBlockVecTo(v, block)
			if r.Intn(2) == 0 {
				b.SampleBlockPolyTo(poly.Poly[T]{Coeffs: w}, block)
			} else {
				b.SampleBlockVecTo(w, block)
			}
			cnt := make([]int, block+1)
			for i := 0; i < m; i += block {
				at := block
				for j := 0; j < block; j++ {
					switch {
					case v[i+j] == 0:
					case v[i+j] == 1 && at == block:
						at = j
					default:
						r.Fail("block at %d is %v", i, v[i:i+block])
						return
					}
				}
				cnt[at]++
			}
			if i := eq(v, w); i >= 0 {
				r.Fail("not reproducible at %d", i)
			}
			e := float64(m/block) / float64(block+1)
			for j := range cnt {
				if math.Abs(float64(cnt[j])-e) > 8*math.Sqrt(e)+2 {
					r.Fail("position %d chosen in %d of %d blocks of %d", j, cnt[j], m/block, block)
				}
			}
			if block > 1 && !rt.Panics(func() { a.SampleBlockVecTo(make([]T, m+1), block) }) {
				r.Fail("no panic for a partial block")
			}
		})
	}
}

func p18gauss[T num.Integer](r *rt.R) {
	var z T
	center := func(x T) float64 { // signed value
		return float64(int64(x) << uint(64-bitsOf[T]()) >> uint(64-bitsOf[T]()))
	}
	for it := 0; it < r.N(9) && (it < 6 || r.More()); it++ {
		seed := p18seed(r)
		sd := []float64{0, 0.3, 1, 3.2, 100.7, 50000, 1e7}[it%7]
		r.Case("%T gaussian sd=%v seed=%x", z, sd, seed)
		r.Try(func() {
			mk := func() *csprng.GaussianSampler[T] { return csprng.NewGaussianSamplerWithSeed[T](seed, sd) }
			n := 20000
			one := make([]T, n)
			a := mk()
			for i := range one {
				one[i] = a.Sample(sd)
			}
			var many []T
			b := mk()
			for len(many) < n {
				k := 1 + r.Intn(4000)
				if k > n-len(many) {
					k = n - len(many)
				}
				v := make([]T, k)
				w := make([]T, k)
				for i := range v {
					v[i] = T(r.Word())
					w[i] = v[i]
				}
				switch r.Intn(4) {
				case 0:
					b.SampleVecTo(v, sd)
				case 1:
					b.SamplePolyTo(poly.Poly[T]{Coeffs: v}, sd)
				case 2:
					b.SamplePolyAddTo(poly.Poly[T]{Coeffs: v}, sd)
					for i := range v {
						v[i] -= w[i]
					}
				case 3:
					b.SamplePolySubTo(poly.Poly[T]{Coeffs: v}, sd)
					for i := range v {
						v[i] = w[i] - v[i]
					}
				}
				many = append(many, v...)
			}
			if i := eq(one, many); i >= 0 {
				r.Fail("element %d differs between requests (Sample %d, batch %d)", i, one[i], many[i])
				return
			}
			sum, sq := 0.0, 0.0
			for i, x := range one {
				c := center(x)
				if math.Abs(c) > 9*sd+0.5 {
					r.Fail("sample %d is %v, %.1f standard deviations", i, c, c/sd)
					return
				}
				sum += c
				sq += c * c
			}
			fn := float64(n)
			// the rounding adds a variance of at most 1/12, and removes at most sd^2
			v := sq / fn
			if math.Abs(sum/fn) > 8*(sd+0.3)/math.Sqrt(fn) {
				r.Fail("mean %v", sum/fn)
			}
			if sd >= 1 && math.Abs(v-(sd*sd+1.0/12)) > 8*math.Sqrt(2/fn)*(sd*sd+1) {
				r.Fail("variance %v for standard deviation %v", v, sd)
			}
			if sd == 0 && v != 0 {
				r.Fail("nonzero sample for standard deviation zero")
			}
			if sd >= 1 {
				// shares within one, two and three standard deviations
				for k := 1; k <= 3; k++ {
					c := 0
					lim := float64(k) * sd
					for _, x := range one {
						if math.Abs(center(x)) <= math.Floor(lim) {
							c++
						}
					}
					p := math.Erf((math.Floor(lim) + 0.5) / sd / math.Sqrt2)
					if math.Abs(float64(c)-p*fn) > 8*math.Sqrt(p*(1-p)*fn)+2 {
						r.Fail("%d of %d samples within %d standard deviations, expected %.0f", c, n, k, p*fn)
					}
				}
			}
			for _, f := range []func(){
				func() { mk().Sample(-1) },
				func() { mk().SampleVecTo(make([]T, 3), -0.5) },
				func() { mk().SamplePolyTo(poly.NewPoly[T](16), -1) },
				func() { mk().SamplePolyAddTo(poly.NewPoly[T](16), -1) },
				func() { mk().SamplePolySubTo(poly.NewPoly[T](16), -1) },
			} {
				if !rt.Panics(f) {
					r.Fail("negative standard deviation accepted")
				}
			}
		})
	}
	_ = fmt.Sprint
}
