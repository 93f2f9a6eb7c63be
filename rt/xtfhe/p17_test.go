package xtfhe_test

import (
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func TestVerifP17(t *testing.T) {
	rt.Run(t, "P17", "extension parameters", func(r *rt.R) {
		ck := func(name string, c bool) {
			if !c {
				r.Fail("%s is wrong", name)
			}
		}
		sub := func() (tfhe.ParametersLiteral[uint64], bool) {
			ok := true
			l := tfhe.ParametersLiteral[uint64]{LWEDimension: 8, GLWERank: 1, PolyRank: 32, LWEStdDev: 1e-9, GLWEStdDev: 1e-10, MessageModulus: 4,
				BlindRotateParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 7, Level: 3},
				KeySwitchParams:   tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 3, Level: 5}}
			switch r.Intn(6) {
			case 0:
				l.LWEDimension, ok = 0, false
			case 1:
				l.LUTSize = 32
			}
			return l, ok
		}
		for it := 0; it < r.N(300); it++ {
			s, ok := sub()
			// many tables
			m := xtfhe.ManyLUTParametersLiteral[uint64]{BaseParams: s, LUTCount: []int{1, 2, 4, 8, 0, -1, -2, 3, 6}[r.Intn(9)]}
			mok := ok && m.LUTCount > 0 && m.LUTCount&(m.LUTCount-1) == 0
			if r.Intn(4) == 0 {
				m.BaseParams.LUTSize, mok = 64, false
			}
			r.Case("many %+v", m)
			var mp xtfhe.ManyLUTParameters[uint64]
			if got := !rt.Panics(func() { mp = m.Compile() }); got != mok {
				r.Fail("compiled=%v valid=%v", got, mok)
			} else if got {
				ck("many-table accessors", mp.BaseParams() == m.BaseParams.Compile() && mp.LUTCount() == m.LUTCount && 1<<mp.LogLUTCount() == m.LUTCount)
			}
			// circuit bootstrapping
			g := func(b, l int) tfhe.GadgetParametersLiteral[uint64] {
				return tfhe.GadgetParametersLiteral[uint64]{Base: 1 << b, Level: l}
			}
			c := xtfhe.CircuitBootstrapParametersLiteral[uint64]{ManyLUTParams: m, SchemeSwitchParams: g(10, 2), TraceKeySwitchParams: g(7, 5), OutputParams: g(4, 2)}
			cok := mok
			switch r.Intn(8) {
			case 0:
				c.SchemeSwitchParams.Base, cok = 5, false
			case 1:
				c.TraceKeySwitchParams.Level, cok = 20, false
			case 2:
				c.OutputParams.Level, cok = 0, false
			}
			r.Case("circuit %+v", c)
			var cp xtfhe.CircuitBootstrapParameters[uint64]
			if got := !rt.Panics(func() { cp = c.Compile() }); got != cok {
				r.Fail("compiled=%v valid=%v", got, cok)
			} else if got {
				ck("circuit accessors", cp.ManyLUTParams() == mp && cp.BaseParams() == mp.BaseParams() && cp.SchemeSwitchParams() == c.SchemeSwitchParams.Compile() &&
					cp.TraceKeySwitchParams() == c.TraceKeySwitchParams.Compile() && cp.OutputParams() == c.OutputParams.Compile())
			}
			// FHEW
			f := xtfhe.FHEWParametersLiteral[uint64]{BaseParams: s, SecretKeyStdDev: 3.2 / math.Exp2(64), WindowSize: 10}
			fok := ok
			switch r.Intn(10) {
			case 0:
				f.BaseParams.BlockSize, fok = 2, false
			case 1:
				f.BaseParams.LUTSize, fok = 64, false
			case 2:
				f.SecretKeyStdDev, fok = 0, false
			case 3:
				f.SecretKeyStdDev, fok = -1, false
			case 4:
				f.WindowSize, fok = -r.Intn(3), false
			case 5:
				f.SecretKeyStdDev = math.Exp2(float64(r.Intn(30)) + 0.3 - 64)
				fok = fok && math.Log2(f.SecretKeyStdDev)+64+math.Log2(xtfhe.GaussianTailCut) <= poly.ShortLogBound
			}
			r.Case("fhew %+v", f)
			var fp xtfhe.FHEWParameters[uint64]
			if got := !rt.Panics(func() { fp = f.Compile() }); got != fok {
				r.Fail("compiled=%v valid=%v", got, fok)
			} else if got {
				ck("FHEW accessors", fp.BaseParams() == f.BaseParams.Compile() && fp.SecretKeyStdDev() == f.SecretKeyStdDev && fp.SecretKeyStdDevQ() == f.SecretKeyStdDev*math.Exp2(64) && fp.WindowSize() == f.WindowSize)
			}
			// sanitisation
			z := xtfhe.SanitizationParametersLiteral[uint64]{BaseParams: s, RandSigma: 1e-3, RandTau: 2e-3, LinEvalSigma: 3e-4, LinEvalTau: 5e-5}
			zok := ok
			switch r.Intn(10) {
			case 0:
				z.BaseParams.GLWERank, zok = 2, false
			case 1:
				z.BaseParams.LUTSize, zok = 64, false
			case 2:
				z.BaseParams.BootstrapOrder, zok = tfhe.OrderBlindRotateKeySwitch, false
			case 3:
				z.RandSigma, zok = 0, false
			case 4:
				z.RandTau, zok = -1, false
			case 5:
				z.LinEvalSigma, zok = 0, false
			case 6:
				z.LinEvalTau, zok = -1e-9, false
			}
			r.Case("sanitise %+v", z)
			var zp xtfhe.SanitizationParameters[uint64]
			q := math.Exp2(64)
			if got := !rt.Panics(func() { zp = z.Compile() }); got != zok {
				r.Fail("compiled=%v valid=%v", got, zok)
			} else if got {
				ck("sanitisation accessors", zp.BaseParams() == z.BaseParams.Compile() && zp.RandSigma() == z.RandSigma && zp.RandTau() == z.RandTau && zp.LinEvalSigma() == z.LinEvalSigma && zp.LinEvalTau() == z.LinEvalTau &&
					zp.RandSigmaQ() == z.RandSigma*q && zp.RandTauQ() == z.RandTau*q && zp.LinEvalSigmaQ() == z.LinEvalSigma*q && zp.LinEvalTauQ() == z.LinEvalTau*q)
			}
		}
		r.Case("shipped parameters")
		r.Try(func() {
			xtfhe.ParamsBinaryLUT2.Compile()
			xtfhe.ParamsBinaryCompactLUT2.Compile()
			xtfhe.ParamsUint2LUT4.Compile()
			xtfhe.ParamsUint3LUT2.Compile()
			xtfhe.ParamsCircuitBootstrapMedium.Compile()
			xtfhe.ParamsCircuitBootstrapLarge.Compile()
			xtfhe.ParamsFHEWBinary.Compile()
			xtfhe.ParamsSanitizeBinary.Compile()
			xtfhe.ParamsBFVKeySwitchLogN11.Compile()
			ck("table counts", xtfhe.ParamsBinaryLUT2.Compile().LUTCount() == 2 && xtfhe.ParamsUint2LUT4.Compile().LUTCount() == 4)
		})
	})
}
