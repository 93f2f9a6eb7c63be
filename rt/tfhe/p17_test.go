package tfhe_test

import (
	"math"
	"math/big"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP17(t *testing.T) {
	rt.Run(t, "P17", "gadget parameters", func(r *rt.R) {
		p17gadget[uint32](r)
		p17gadget[uint64](r)
	})
	rt.Run(t, "P17", "scheme parameters", func(r *rt.R) {
		p17params[uint32](r)
		p17params[uint64](r)
	})
	rt.Run(t, "P17", "shipped parameters", func(r *rt.R) {
		for i, l := range []tfhe.ParametersLiteral[uint32]{tfhe.ParamsBinary, tfhe.ParamsBinaryCompact, tfhe.ParamsBinaryOriginal} {
			r.Case("binary %d", i)
			r.Try(func() { p17check(r, l) })
		}
		for i, l := range []tfhe.ParametersLiteral[uint64]{tfhe.ParamsUint2, tfhe.ParamsUint3, tfhe.ParamsUint4, tfhe.ParamsUint5, tfhe.ParamsUint6, tfhe.ParamsUint7, tfhe.ParamsUint8} {
			r.Case("uint %d", i+2)
			r.Try(func() {
				p17check(r, l)
				if l.Compile().MessageModulus() != 1<<(i+2) {
					r.Fail("message modulus %d", l.Compile().MessageModulus())
				}
			})
		}
	})
}

func gadValid[T ti](base T, level int) bool {
	if base < 2 || base&(base-1) != 0 || level <= 0 {
		return false
	}
	lb := 0
	for b := base; b > 1; b >>= 1 {
		lb++
	}
	p := new(big.Int).Mul(big.NewInt(int64(lb)), big.NewInt(int64(level)))
	return p.Cmp(big.NewInt(int64(bitsOf[T]()))) <= 0
}

func p17gadget[T ti](r *rt.R) {
	var bases []T
	for i := 0; i < bitsOf[T](); i++ {
		bases = append(bases, T(1)<<i, T(1)<<i+1, T(1)<<i-1)
	}
	for i := 0; i < 50; i++ {
		bases = append(bases, T(r.Word()))
	}
	levels := []int{-1 << 63, -3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 21, 31, 32, 33, 63, 64, 65, 1 << 31, 1 << 58, 1 << 62, 1<<63 - 1}
	for _, b := range bases {
		for _, l := range levels {
			r.Case("Q=2^%d gadget base=%d level=%d", bitsOf[T](), b, l)
			lit := tfhe.GadgetParametersLiteral[T]{}.WithBase(b).WithLevel(l)
			if lit.Base != b || lit.Level != l {
				r.Fail("setters gave %+v", lit)
			}
			var p tfhe.GadgetParameters[T]
			ok := !rt.Panics(func() { p = lit.Compile() })
			if ok != gadValid(b, l) {
				r.Fail("compiled=%v, valid=%v", ok, gadValid(b, l))
				continue
			}
			if !ok {
				continue
			}
			if p.Base() != b || p.Level() != l || T(1)<<p.LogBase() != b || p.Literal() != lit || p.Literal().Compile() != p {
				r.Fail("accessors %d %d %d literal %+v", p.Base(), p.LogBase(), p.Level(), p.Literal())
			}
		}
	}
}

func pick[V any](r *rt.R, v ...V) V { return v[r.Intn(len(v))] }

func p17params[T ti](r *rt.R) {
	inf := math.Inf(1)
	for it := 0; it < r.N(6000); it++ {
		k := pick(r, 1, 2, 3)
		N := pick(r, 1, 2, 4, 16, 64, 256)
		l := tfhe.ParametersLiteral[T]{
			LWEDimension: pick(r, 1, 2, 12, k*N-1, k*N), GLWERank: k, PolyRank: N, LUTSize: pick(r, 0, N, 2*N, 3*N, 8*N),
			LWEStdDev: pick(r, 1e-3, 1e-30, 1.0), GLWEStdDev: pick(r, 1e-3, 1e-30, 5e-324),
			BlockSize: pick(r, 0, 1, 2, 3), MessageModulus: pick[T](r, 0, 1, 2, 3, 4, 5, 17, 256, 1<<20, 1000003),
			BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: 1 << 7, Level: 3},
			KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: 1 << 3, Level: 5},
			BootstrapOrder:    pick(r, ksbr, brks),
		}
		// zero, one or two broken fields
		for b := r.Intn(3); b > 0; b-- {
			bad := pick(r, 0, -1, -5, 3, 7, 12, 1<<62, 1<<63-1, -1<<63, 1<<32, 1<<40)
			switch r.Intn(11) {
			case 0:
				l.LWEDimension = bad
			case 1:
				l.GLWERank = bad
			case 2:
				l.PolyRank = bad
			case 3:
				l.LUTSize = pick(r, bad, l.PolyRank-1, l.PolyRank+1, l.PolyRank/2)
			case 4:
				l.LWEStdDev = pick(r, 0.0, -1e-9, -1, -inf)
			case 5:
				l.GLWEStdDev = pick(r, 0.0, -1e-9, -1, -inf)
			case 6:
				l.BlockSize = pick(r, bad, l.LWEDimension, l.LWEDimension+1, 5)
			case 7:
				l.BlindRotateParams.Base = pick[T](r, 0, 1, 3, 6, 1<<31)
			case 8:
				l.KeySwitchParams.Level = pick(r, 0, -1, 33, 65, 11, 10, 1<<62)
			case 9:
				l.BootstrapOrder = tfhe.BootstrapOrder(pick(r, 2, -1, 3, 255))
			case 10:
				l.KeySwitchParams.Base = pick[T](r, 0, 1, 3, 6, 1<<30)
			}
		}
		r.Case("Q=2^%d %+v", bitsOf[T](), l)
		p17check(r, l)
		s := tfhe.ParametersLiteral[T]{}.WithLWEDimension(l.LWEDimension).WithGLWERank(l.GLWERank).WithPolyRank(l.PolyRank).WithLUTSize(l.LUTSize).
			WithLWEStdDev(l.LWEStdDev).WithGLWEStdDev(l.GLWEStdDev).WithBlockSize(l.BlockSize).WithMessageModulus(l.MessageModulus).
			WithBlindRotateParams(l.BlindRotateParams).WithKeySwitchParams(l.KeySwitchParams).WithBootstrapOrder(l.BootstrapOrder)
		if s != l {
			r.Fail("setters gave %+v", s)
		}
	}
}

func p17valid[T ti](l tfhe.ParametersLiteral[T]) bool {
	if l.LUTSize == 0 {
		l.LUTSize = l.PolyRank
	}
	if l.BlockSize == 0 {
		l.BlockSize = 1
	}
	if l.LWEDimension <= 0 || l.GLWERank <= 0 || l.PolyRank <= 0 || l.PolyRank&(l.PolyRank-1) != 0 {
		return false
	}
	dim := new(big.Int).Mul(big.NewInt(int64(l.GLWERank)), big.NewInt(int64(l.PolyRank)))
	if !dim.IsInt64() || big.NewInt(int64(l.LWEDimension)).Cmp(dim) > 0 {
		return false
	}
	if l.LUTSize < l.PolyRank || l.LUTSize%l.PolyRank != 0 || !(l.LWEStdDev > 0) || !(l.GLWEStdDev > 0) {
		return false
	}
	if l.BlockSize <= 0 || l.LWEDimension%l.BlockSize != 0 {
		return false
	}
	if l.BootstrapOrder != 0 && l.BootstrapOrder != 1 {
		return false
	}
	return gadValid(l.BlindRotateParams.Base, l.BlindRotateParams.Level) && gadValid(l.KeySwitchParams.Base, l.KeySwitchParams.Level)
}

func p17check[T ti](r *rt.R, l tfhe.ParametersLiteral[T]) {
	var p tfhe.Parameters[T]
	ok := !rt.Panics(func() { p = l.Compile() })
	if ok != p17valid(l) {
		r.Fail("compiled=%v, valid=%v", ok, p17valid(l))
		return
	}
	if !ok {
		return
	}
	if l.LUTSize == 0 {
		l.LUTSize = l.PolyRank
	}
	if l.BlockSize == 0 {
		l.BlockSize = 1
	}
	w := bitsOf[T]()
	ck := func(name string, c bool) {
		if !c {
			r.Fail("%s is wrong", name)
		}
	}
	q := math.Exp2(float64(w))
	gd := l.GLWERank * l.PolyRank
	ck("LWEDimension", p.LWEDimension() == l.LWEDimension)
	ck("GLWEDimension", p.GLWEDimension() == gd)
	ck("GLWERank", p.GLWERank() == l.GLWERank)
	ck("PolyRank", p.PolyRank() == l.PolyRank && 1<<p.LogPolyRank() == l.PolyRank)
	ck("LUTSize", p.LUTSize() == l.LUTSize && p.LUTExtendFactor()*l.PolyRank == l.LUTSize)
	ck("LWEStdDev", p.LWEStdDev() == l.LWEStdDev && p.LWEStdDevQ() == l.LWEStdDev*q)
	ck("GLWEStdDev", p.GLWEStdDev() == l.GLWEStdDev && p.GLWEStdDevQ() == l.GLWEStdDev*q)
	ck("BlockSize", p.BlockSize() == l.BlockSize && p.BlockCount()*l.BlockSize == l.LWEDimension)
	ck("MessageModulus", p.MessageModulus() == l.MessageModulus)
	ck("LogQ", p.LogQ() == w)
	ck("BootstrapOrder", p.BootstrapOrder() == l.BootstrapOrder && p.IsPublicKeyEncryptable() == (l.BootstrapOrder == ksbr))
	ck("BlindRotateParams", p.BlindRotateParams() == l.BlindRotateParams.Compile())
	ck("KeySwitchParams", p.KeySwitchParams() == l.KeySwitchParams.Compile())
	if l.BootstrapOrder == brks {
		ck("DefaultLWEDimension", p.DefaultLWEDimension() == l.LWEDimension)
		ck("DefaultLWEStdDev", p.DefaultLWEStdDev() == l.LWEStdDev && p.DefaultLWEStdDevQ() == l.LWEStdDev*q)
		ck("order name", l.BootstrapOrder.String() == "OrderBlindRotateKeySwitch")
	} else {
		ck("DefaultLWEDimension", p.DefaultLWEDimension() == gd)
		ck("DefaultLWEStdDev", p.DefaultLWEStdDev() == l.GLWEStdDev && p.DefaultLWEStdDevQ() == l.GLWEStdDev*q)
		ck("order name", l.BootstrapOrder.String() == "OrderKeySwitchBlindRotate")
	}
	if mm := l.MessageModulus; mm > 1 && mm < 1<<(w-2) {
		half := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		sc := half.Add(half.Lsh(half, 1), new(big.Int).SetUint64(uint64(mm)))
		sc.Div(sc, new(big.Int).SetUint64(2*uint64(mm)))
		ck("Scale", uint64(p.Scale()) == sc.Uint64())
	}
	if got := p.Literal(); got != l {
		r.Fail("literal %+v", got)
	} else if got.Compile() != p {
		r.Fail("compiling the literal again gives other parameters")
	}
}
