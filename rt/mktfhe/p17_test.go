package mktfhe_test

import (
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func TestVerifP17(t *testing.T) {
	rt.Run(t, "P17", "multi-key parameters", func(r *rt.R) {
		for i, l := range []mktfhe.ParametersLiteral[uint64]{mktfhe.ParamsBinaryParty2, mktfhe.ParamsBinaryParty4, mktfhe.ParamsBinaryParty8, mktfhe.ParamsBinaryParty16, mktfhe.ParamsBinaryParty32} {
			r.Case("shipped %d", i)
			r.Try(func() {
				p17mk(r, l, true)
				if l.Compile().PartyCount() != 2<<i {
					r.Fail("party count %d", l.Compile().PartyCount())
				}
			})
		}
		for it := 0; it < r.N(1500); it++ {
			k, N := 1, []int{1, 16, 64}[r.Intn(3)]
			ext := 1
			ok := true
			if r.Intn(5) == 0 {
				k, ok = 2, false
			}
			if r.Intn(5) == 0 {
				ext, ok = 2, false
			}
			pc := []int{1, 2, 3, 7, 64, 0, -1, -1 << 40}[r.Intn(8)]
			ok = ok && pc > 0
			l := mktfhe.ParametersLiteral[uint64]{
				SubParams: tfhe.ParametersLiteral[uint64]{
					LWEDimension: 1 + r.Intn(k*N), GLWERank: k, PolyRank: N, LUTSize: N * ext, LWEStdDev: 1e-9, GLWEStdDev: 1e-10, BlockSize: r.Intn(2),
					MessageModulus: 2, BootstrapOrder: tfhe.BootstrapOrder(r.Intn(2)),
					BlindRotateParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 7, Level: 3},
					KeySwitchParams:   tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 3, Level: 5},
				},
				PartyCount:        pc,
				AccumulatorParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 6, Level: 7},
				RelinKeyParams:    tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 9, Level: 4},
			}
			switch r.Intn(12) {
			case 0:
				l.AccumulatorParams.Base, ok = 3, false
			case 1:
				l.RelinKeyParams.Level, ok = 8, false
			case 2:
				l.AccumulatorParams.Level, ok = 0, false
			case 3:
				l.SubParams.LWEDimension, ok = 0, false
			case 4:
				l.SubParams.PolyRank, ok = 48, false
			}
			r.Case("%+v", l)
			p17mk(r, l, ok)
			s := mktfhe.ParametersLiteral[uint64]{}.WithPartyCount(l.PartyCount).WithSingleKeyLWEDimension(l.SubParams.LWEDimension).WithPolyRank(l.SubParams.PolyRank).
				WithLWEStdDev(l.SubParams.LWEStdDev).WithGLWEStdDev(l.SubParams.GLWEStdDev).WithBlockSize(l.SubParams.BlockSize).WithMessageModulus(l.SubParams.MessageModulus).
				WithBlindRotateParams(l.SubParams.BlindRotateParams).WithKeySwitchParams(l.SubParams.KeySwitchParams).WithBootstrapOrder(l.SubParams.BootstrapOrder).
				WithAccumulatorParams(l.AccumulatorParams).WithRelinKeyParams(l.RelinKeyParams)
			want := l
			want.SubParams.GLWERank, want.SubParams.LUTSize = 0, 0
			if s != want {
				r.Fail("setters gave %+v", s)
			}
		}
	})
}

func p17mk(r *rt.R, l mktfhe.ParametersLiteral[uint64], valid bool) {
	var p mktfhe.Parameters[uint64]
	ok := !rt.Panics(func() { p = l.Compile() })
	if ok != valid {
		r.Fail("compiled=%v valid=%v", ok, valid)
		return
	}
	if !ok {
		return
	}
	ck := func(name string, c bool) {
		if !c {
			r.Fail("%s is wrong", name)
		}
	}
	s := l.SubParams.Compile()
	pc := l.PartyCount
	ck("SubParams", p.SubParams() == s)
	ck("PartyCount", p.PartyCount() == pc && p.GLWERank() == pc)
	ck("LWE dimensions", p.LWEDimension() == pc*s.LWEDimension() && p.DefaultLWEDimension() == pc*s.DefaultLWEDimension())
	ck("GLWEDimension", p.GLWEDimension() == pc*s.GLWEDimension())
	ck("PolyRank", p.PolyRank() == s.PolyRank() && p.LogPolyRank() == s.LogPolyRank())
	ck("standard deviations", p.LWEStdDev() == s.LWEStdDev() && p.GLWEStdDev() == s.GLWEStdDev() && p.LWEStdDevQ() == s.LWEStdDevQ() && p.GLWEStdDevQ() == s.GLWEStdDevQ() && p.DefaultLWEStdDev() == s.DefaultLWEStdDev() && p.DefaultLWEStdDevQ() == s.DefaultLWEStdDevQ())
	ck("block", p.BlockSize() == s.BlockSize() && p.BlockCount() == s.BlockCount())
	ck("message", p.MessageModulus() == s.MessageModulus() && p.Scale() == s.Scale())
	ck("LogQ", p.LogQ() == 64)
	ck("gadgets", p.BlindRotateParams() == s.BlindRotateParams() && p.KeySwitchParams() == s.KeySwitchParams() && p.AccumulatorParameters() == l.AccumulatorParams.Compile() && p.RelinKeyParameters() == l.RelinKeyParams.Compile())
	ck("order", p.BootstrapOrder() == l.SubParams.BootstrapOrder)
	lw := l
	lw.SubParams = s.Literal()
	ck("literal", p.Literal() == lw && p.Literal().Compile() == p)
}
