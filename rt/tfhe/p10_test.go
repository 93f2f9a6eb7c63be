package tfhe_test

import (
	"fmt"
	"math"
	"testing"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
	"github.com/sp301415/tfhe-go/tfhe"
)

func gadgets10[T ti](mm T) []tfhe.GadgetParameters[T] {
	g := []tfhe.GadgetParameters[T]{gad[T](8, 1), gad[T](6, 3), gad[T](4, 4), gad[T](bitsOf[T]()/4, 3)}
	var o []tfhe.GadgetParameters[T]
	for _, x := range g {
		if x.Base() >= mm {
			o = append(o, x)
		}
	}
	return o
}

func msgs10[T ti](r *rt.R, n int, mm T) []int {
	m := make([]int, n)
	for i := range m {
		switch r.Intn(4) {
		case 0:
			m[i] = r.Intn(int(mm))
		case 1:
			m[i] = -r.Intn(3 * int(mm))
		case 2:
			m[i] = int(mm) + r.Intn(1000)
		default:
			m[i] = int(int32(r.Uint64()))
		}
	}
	return m
}

func wantMsgs[T ti](m []int, N int, mm T) []int {
	o := make([]int, N)
	for i := range o {
		if i < len(m) {
			o[i] = pmod(m[i], uint64(mm))
		}
	}
	return o
}

func encrypt10[T ti](r *rt.R) {
	type cfg struct {
		n, k, N, blk int
		mm           T
		order        tfhe.BootstrapOrder
	}
	for _, c := range []cfg{{12, 1, 16, 1, 8, ksbr}, {12, 2, 16, 4, 5, ksbr}, {20, 2, 32, 1, 3, brks}, {33, 3, 16, 3, 16, ksbr}, {16, 1, 16, 1, 7, brks}} {
		p := lit[T](c.n, c.k, c.N, 1, c.blk, c.mm, c.order).Compile()
		enc := tfhe.NewEncryptor(p)
		sk := enc.SecretKey
		key0 := flatten(sk)
		dk := sk.LWELargeKey.Value
		if c.order == brks {
			dk = sk.LWEKey.Value
		}
		tr := tfhe.NewGLWETransformer[T](c.N)
		tol := fftTol[T](c.N, c.k)
		lev := func(what string, ct []tfhe.LWECiphertext[T], m T, g tfhe.GadgetParameters[T]) {
			if len(ct) != g.Level() {
				r.Fail("%s: %d levels", what, len(ct))
				return
			}
			for j := range ct {
				if ph := phaseLWE(ct[j].Value, dk); ph != m*g.BaseQ(j) {
					r.Fail("%s: level %d has phase %d, want %d", what, j, ph, m*g.BaseQ(j))
				}
			}
		}
		glev := func(what string, ct []tfhe.GLWECiphertext[T], m []T, g tfhe.GadgetParameters[T], tol float64) {
			if len(ct) != g.Level() {
				r.Fail("%s: %d levels", what, len(ct))
				return
			}
			for j := range ct {
				if d := maxDist(phaseGLWE(ct[j], sk.GLWEKey), scal(m, g.BaseQ(j))); d > tol {
					r.Fail("%s: level %d phase off by %g (tolerance %g)", what, j, d, tol)
				}
			}
		}
		for it := 0; it < r.N(3); it++ {
			msg := msgs10(r, 1, c.mm)[0]
			tag := fmt.Sprintf("bits=%d %+v it=%d", bitsOf[T](), c, it)
			r.Case("%s LWE message=%d", tag, msg)
			want := pmod(msg, uint64(c.mm))
			r.Try(func() {
				ct := enc.EncryptLWE(msg)
				if g := enc.DecryptLWE(ct); g != want {
					r.Fail("DecryptLWE = %d, want %d", g, want)
				}
				if ph := enc.DecryptLWEPhase(ct).Value; ph != enc.EncodeLWE(msg).Value || ph != phaseLWE(ct.Value, dk) {
					r.Fail("phase")
				}
				o := randLWE[T](r, len(dk))
				enc.EncryptLWETo(o, msg)
				if g := enc.DecryptLWE(o); g != want {
					r.Fail("EncryptLWETo into used storage: %d, want %d", g, want)
				}
				if eqVec(o.Value[1:], ct.Value[1:]) == -1 {
					r.Fail("mask repeated")
				}
				pt := tfhe.LWEPlaintext[T]{Value: T(r.Word())}
				if ph := enc.DecryptLWEPhase(enc.EncryptLWEPlaintext(pt)).Value; ph != pt.Value {
					r.Fail("plaintext phase")
				}
				enc.EncryptLWEPlaintextTo(o, pt)
				if ph := phaseLWE(o.Value, dk); ph != pt.Value {
					r.Fail("plaintext phase in place")
				}
				randVec(r, o.Value)
				b := o.Value[0]
				enc.EncryptLWEBody(o)
				if ph := phaseLWE(o.Value, dk); ph != b {
					r.Fail("in-place completion")
				}
			})
			m := msgs10(r, r.Intn(c.N+5), c.mm)
			wm := wantMsgs(m, c.N, c.mm)
			red := make([]T, c.N)
			for i := range red {
				red[i] = T(wm[i])
			}
			r.Case("%s GLWE messages=%v", tag, m)
			r.Try(func() {
				enc0 := enc.EncodeGLWE(m)
				ct := enc.EncryptGLWE(m)
				if eqVec(enc.DecryptGLWE(ct), wm) != -1 {
					r.Fail("DecryptGLWE")
				}
				if eqVec(phaseGLWE(ct, sk.GLWEKey), enc0.Value.Coeffs) != -1 || eqVec(enc.DecryptGLWEPhase(ct).Value.Coeffs, enc0.Value.Coeffs) != -1 {
					r.Fail("GLWE phase")
				}
				o := randGLWE[T](r, c.k, c.N)
				enc.EncryptGLWETo(o, m)
				if eqVec(enc.DecryptGLWE(o), wm) != -1 {
					r.Fail("EncryptGLWETo into used storage")
				}
				for i := 1; i <= c.k; i++ {
					if eqVec(o.Value[i].Coeffs, ct.Value[i].Coeffs) == -1 {
						r.Fail("mask repeated")
					}
				}
				res := make([]int, c.N)
				for i := range res {
					res[i] = -7
				}
				enc.DecryptGLWETo(res, o)
				if eqVec(res, wm) != -1 {
					r.Fail("DecryptGLWETo")
				}
				pt := tfhe.NewGLWEPlaintext(p)
				randVec(r, pt.Value.Coeffs)
				pc := pt.Copy()
				if eqVec(phaseGLWE(enc.EncryptGLWEPlaintext(pt), sk.GLWEKey), pc.Value.Coeffs) != -1 {
					r.Fail("plaintext phase")
				}
				enc.EncryptGLWEPlaintextTo(o, pt)
				if eqVec(phaseGLWE(o, sk.GLWEKey), pc.Value.Coeffs) != -1 || eqVec(pt.Value.Coeffs, pc.Value.Coeffs) != -1 {
					r.Fail("plaintext phase in place")
				}
				o = randGLWE[T](r, c.k, c.N)
				b := append([]T(nil), o.Value[0].Coeffs...)
				enc.EncryptGLWEBody(o)
				if eqVec(phaseGLWE(o, sk.GLWEKey), b) != -1 {
					r.Fail("in-place completion")
				}
				// Fourier
				f := enc.EncryptFFTGLWE(m)
				if eqVec(enc.DecryptFFTGLWE(f), wm) != -1 {
					r.Fail("DecryptFFTGLWE")
				}
				fill(r, &f)
				enc.EncryptFFTGLWETo(f, m)
				enc.DecryptFFTGLWETo(res, f)
				if eqVec(res, wm) != -1 {
					r.Fail("EncryptFFTGLWETo")
				}
				if d := maxDist(phaseGLWE(tr.InvFFTGLWECiphertext(f), sk.GLWEKey), enc0.Value.Coeffs); d > tol {
					r.Fail("Fourier phase off by %g", d)
				}
				f = enc.EncryptFFTGLWEPlaintext(pt)
				if d := maxDist(enc.DecryptFFTGLWEPhase(f).Value.Coeffs, pc.Value.Coeffs); d > tol {
					r.Fail("Fourier plaintext phase off by %g", d)
				}
			})
			for gi, g := range gadgets10(c.mm) {
				r.Case("%s gadget %d message=%d messages=%v", tag, gi, msg, m)
				r.Try(func() {
					ct := enc.EncryptLev(msg, g)
					lev("Lev", ct.Value, T(want), g)
					if v := enc.DecryptLev(ct); v != want {
						r.Fail("DecryptLev = %d, want %d", v, want)
					}
					sc := T(r.Uint64()) % g.Base()
					fill(r, &ct.Value)
					enc.EncryptLevTo(ct, msg)
					lev("LevTo", ct.Value, T(want), g)
					if v := enc.DecryptLevScalar(enc.EncryptLevScalar(sc, g)); v != sc {
						r.Fail("DecryptLevScalar = %d, want %d", v, sc)
					}
					enc.EncryptLevScalarTo(ct, sc)
					lev("LevScalarTo", ct.Value, sc, g)
					gs := enc.EncryptGSW(msg, g)
					chk := func(what string, gs tfhe.GSWCiphertext[T], m T) {
						if len(gs.Value) != len(dk)+1 {
							r.Fail("%s rows %d", what, len(gs.Value))
							return
						}
						for i := range gs.Value {
							x := m
							if i > 0 {
								x *= dk[i-1]
							}
							lev(fmt.Sprintf("%s row %d", what, i), gs.Value[i].Value, x, g)
						}
					}
					chk("GSW", gs, T(want))
					if v := enc.DecryptGSW(gs); v != want {
						r.Fail("DecryptGSW = %d, want %d", v, want)
					}
					fill(r, &gs.Value)
					enc.EncryptGSWTo(gs, msg)
					chk("GSWTo", gs, T(want))
					gs = enc.EncryptGSWScalar(sc, g)
					chk("GSWScalar", gs, sc)
					if v := enc.DecryptGSWScalar(gs); v != sc {
						r.Fail("DecryptGSWScalar = %d, want %d", v, sc)
					}
					enc.EncryptGSWScalarTo(gs, sc+1)
					chk("GSWScalarTo", gs, sc+1)
				})
				r.Case("%s gadget %d ring messages=%v", tag, gi, m)
				r.Try(func() {
					pp := make([]T, c.N)
					for i := range pp {
						pp[i] = T(r.Uint64()) % g.Base()
					}
					ct := enc.EncryptGLev(m, g)
					glev("GLev", ct.Value, red, g, 0)
					if eqVec(enc.DecryptGLev(ct), wm) != -1 {
						r.Fail("DecryptGLev")
					}
					fill(r, &ct.Value)
					enc.EncryptGLevTo(ct, m)
					glev("GLevTo", ct.Value, red, g, 0)
					res := make([]int, c.N)
					enc.DecryptGLevTo(res, ct)
					if eqVec(res, wm) != -1 {
						r.Fail("DecryptGLevTo")
					}
					ct = enc.EncryptGLevPoly(polyOf(pp), g)
					glev("GLevPoly", ct.Value, pp, g, 0)
					if eqVec(enc.DecryptGLevPoly(ct).Coeffs, pp) != -1 {
						r.Fail("DecryptGLevPoly")
					}
					rows := func(what string, v [][]tfhe.GLWECiphertext[T], m []T, tol float64) {
						if len(v) != c.k+1 {
							r.Fail("%s rows", what)
							return
						}
						for i := range v {
							x := m
							if i > 0 {
								x = refMul(m, sk.GLWEKey.Value[i-1].Coeffs)
							}
							glev(fmt.Sprintf("%s row %d", what, i), v[i], x, g, tol)
						}
					}
					std := func(x tfhe.GGSWCiphertext[T]) (o [][]tfhe.GLWECiphertext[T]) {
						for i := range x.Value {
							o = append(o, x.Value[i].Value)
						}
						return
					}
					gg := enc.EncryptGGSW(m, g)
					rows("GGSW", std(gg), red, 0)
					if eqVec(enc.DecryptGGSW(gg), wm) != -1 {
						r.Fail("DecryptGGSW")
					}
					fill(r, &gg.Value)
					enc.EncryptGGSWTo(gg, m)
					rows("GGSWTo", std(gg), red, 0)
					enc.DecryptGGSWTo(res, gg)
					if eqVec(res, wm) != -1 {
						r.Fail("DecryptGGSWTo")
					}
					gg = enc.EncryptGGSWPoly(polyOf(pp), g)
					rows("GGSWPoly", std(gg), pp, 0)
					if eqVec(enc.DecryptGGSWPoly(gg).Coeffs, pp) != -1 {
						r.Fail("DecryptGGSWPoly")
					}
					q := tfhe.NewGLWEPlaintext(p).Value
					enc.DecryptGGSWPolyTo(q, gg)
					if eqVec(q.Coeffs, pp) != -1 {
						r.Fail("DecryptGGSWPolyTo")
					}
					fl := enc.EncryptFFTGLev(m, g)
					glev("FFTGLev", tr.InvFFTGLevCiphertext(fl).Value, red, g, tol)
					if eqVec(enc.DecryptFFTGLev(fl), wm) != -1 {
						r.Fail("DecryptFFTGLev")
					}
					fill(r, &fl.Value)
					enc.EncryptFFTGLevTo(fl, m)
					enc.DecryptFFTGLevTo(res, fl)
					if eqVec(res, wm) != -1 {
						r.Fail("FFTGLevTo")
					}
					fl = enc.EncryptFFTGLevPoly(polyOf(pp), g)
					glev("FFTGLevPoly", tr.InvFFTGLevCiphertext(fl).Value, pp, g, tol)
					if eqVec(enc.DecryptFFTGLevPoly(fl).Coeffs, pp) != -1 {
						r.Fail("DecryptFFTGLevPoly")
					}
					fg := enc.EncryptFFTGGSW(m, g)
					rows("FFTGGSW", std(tr.InvFFTGGSWCiphertext(fg)), red, tol)
					if eqVec(enc.DecryptFFTGGSW(fg), wm) != -1 {
						r.Fail("DecryptFFTGGSW")
					}
					fill(r, &fg.Value)
					enc.EncryptFFTGGSWTo(fg, m)
					rows("FFTGGSWTo", std(tr.InvFFTGGSWCiphertext(fg)), red, tol)
					enc.DecryptFFTGGSWTo(fg, res)
					if eqVec(res, wm) != -1 {
						r.Fail("DecryptFFTGGSWTo")
					}
					fg = enc.EncryptFFTGGSWPoly(polyOf(pp), g)
					rows("FFTGGSWPoly", std(tr.InvFFTGGSWCiphertext(fg)), pp, tol)
					if eqVec(enc.DecryptFFTGGSWPoly(fg).Coeffs, pp) != -1 {
						r.Fail("DecryptFFTGGSWPoly")
					}
					enc.DecryptFFTGGSWPolyTo(fg, q)
					if eqVec(q.Coeffs, pp) != -1 {
						r.Fail("DecryptFFTGGSWPolyTo")
					}
				})
			}
			if c.order == ksbr {
				r.Case("%s public-key message=%d messages=%v", tag, msg, m)
				r.Try(func() { public10(r, p, enc, msg, m, tol) })
			} else {
				r.Case("%s public key unsupported", tag)
				if !rt.Panics(func() { enc.GenPublicKey() }) {
					r.Fail("GenPublicKey accepted unsupported parameters")
				}
			}
			if eqVec(key0, flatten(sk)) != -1 {
				r.Fail("secret key modified")
			}
		}
	}
}

func public10[T ti](r *rt.R, p tfhe.Parameters[T], enc *tfhe.Encryptor[T], msg int, m []int, tol float64) {
	pk := enc.GenPublicKey()
	pk0 := flatten(pk)
	pe := tfhe.NewPublicEncryptor(p, pk)
	mm, N, k := p.MessageModulus(), p.PolyRank(), p.GLWERank()
	want, wm := pmod(msg, uint64(mm)), wantMsgs(m, N, mm)
	sk := enc.SecretKey
	for i := 0; i < k; i++ {
		if maxDist(phaseGLWE(pk.GLWEKey.Value[i], sk.GLWEKey), make([]T, N)) != 0 {
			r.Fail("GLWE public key is not an encryption of zero")
		}
	}
	ct := pe.EncryptLWE(msg)
	if g := enc.DecryptLWE(ct); g != want {
		r.Fail("public EncryptLWE: %d, want %d", g, want)
	}
	c2 := pe.EncryptLWE(msg)
	if eqVec(c2.Value, ct.Value) == -1 {
		r.Fail("public LWE encryption repeated")
	}
	o := randLWE[T](r, p.GLWEDimension())
	pe.EncryptLWETo(o, msg)
	if g := enc.DecryptLWE(o); g != want {
		r.Fail("public EncryptLWETo into used storage: %d, want %d", g, want)
	}
	pt := tfhe.LWEPlaintext[T]{Value: T(r.Word())}
	if v := enc.DecryptLWEPhase(pe.EncryptLWEPlaintext(pt)).Value; v != pt.Value {
		r.Fail("public LWE phase")
	}
	pe.EncryptLWEPlaintextTo(o, pt)
	if v := enc.DecryptLWEPhase(o).Value; v != pt.Value {
		r.Fail("public LWE phase into used storage")
	}
	g := pe.EncryptGLWE(m)
	if eqVec(enc.DecryptGLWE(g), wm) != -1 {
		r.Fail("public EncryptGLWE")
	}
	g2 := randGLWE[T](r, k, N)
	pe.EncryptGLWETo(g2, m)
	if eqVec(enc.DecryptGLWE(g2), wm) != -1 {
		r.Fail("public EncryptGLWETo into used storage")
	}
	if eqVec(g2.Value[1].Coeffs, g.Value[1].Coeffs) == -1 {
		r.Fail("public GLWE encryption repeated")
	}
	gp := tfhe.NewGLWEPlaintext(p)
	randVec(r, gp.Value.Coeffs)
	gc := gp.Copy()
	if eqVec(enc.DecryptGLWEPhase(pe.EncryptGLWEPlaintext(gp)).Value.Coeffs, gc.Value.Coeffs) != -1 {
		r.Fail("public GLWE phase")
	}
	pe.EncryptGLWEPlaintextTo(g2, gp)
	if eqVec(enc.DecryptGLWEPhase(g2).Value.Coeffs, gc.Value.Coeffs) != -1 || eqVec(gp.Value.Coeffs, gc.Value.Coeffs) != -1 {
		r.Fail("public GLWE phase into used storage")
	}
	for i := 0; i < 2; i++ {
		f := pe.EncryptFFTGLWE(m)
		if eqVec(enc.DecryptFFTGLWE(f), wm) != -1 {
			r.Fail("public EncryptFFTGLWE, call %d", i)
		}
		pe.EncryptFFTGLWETo(f, m)
		if eqVec(enc.DecryptFFTGLWE(f), wm) != -1 {
			r.Fail("public EncryptFFTGLWETo, call %d", i)
		}
		f = pe.EncryptFFTGLWEPlaintext(gp)
		if d := maxDist(enc.DecryptFFTGLWEPhase(f).Value.Coeffs, gc.Value.Coeffs); d > tol {
			r.Fail("public Fourier phase off by %g, call %d", d, i)
		}
	}
	if eqVec(pk0, flatten(pk)) != -1 {
		r.Fail("public key modified")
	}
}

// noise10 checks that the noise has the parameterised size.
func noise10[T ti](r *rt.R) {
	for _, order := range []tfhe.BootstrapOrder{ksbr, brks} {
		l := lit[T](24, 2, 32, 1, 1, 8, order)
		l.LWEStdDev, l.GLWEStdDev = math.Exp2(-12), math.Exp2(-17)
		p := l.Compile()
		enc := tfhe.NewEncryptor(p)
		q := math.Exp2(float64(bitsOf[T]()))
		chk := func(what string, std float64, n int, next func() float64) {
			r.Case("bits=%d order=%d noise of %s", bitsOf[T](), order, what)
			s2, s1 := 0.0, 0.0
			for i := 0; i < n; i++ {
				e := next()
				if math.Abs(e) > 10*std*q {
					r.Fail("error %g exceeds 10 standard deviations (%g)", e, std*q)
					return
				}
				s2 += e * e
				s1 += e
			}
			lo, hi := 0.75, 1.3
			if what == "public LWE" || what == "public GLWE" { // depends on the weight of the key
				lo, hi = 0.35, 2.2
			}
			if s := math.Sqrt(s2 / float64(n)); s < lo*std*q || s > hi*std*q {
				r.Fail("standard deviation %g, want %g", s, std*q)
			}
		}
		ls := l.GLWEStdDev
		if order == brks {
			ls = l.LWEStdDev
		}
		g := gad[T](4, 2)
		chk("LWE", ls, 600, func() float64 {
			return float64(sgn(enc.DecryptLWEPhase(enc.EncryptLWE(3)).Value - enc.EncodeLWE(3).Value))
		})
		chk("Lev", ls, 600, func() float64 {
			return float64(sgn(phaseLWE(enc.EncryptLev(3, g).Value[1].Value, enc.DefaultLWESecretKey().Value) - 3*g.BaseQ(1)))
		})
		var buf []T
		ring := func(f func() []T) func() float64 {
			buf = nil
			return func() float64 {
				if len(buf) == 0 {
					buf = f()
				}
				e := float64(sgn(buf[0]))
				buf = buf[1:]
				return e
			}
		}
		chk("GLWE", l.GLWEStdDev, 640, ring(func() []T {
			return subv(phaseGLWE(enc.EncryptGLWE([]int{1, 2}), enc.SecretKey.GLWEKey), enc.EncodeGLWE([]int{1, 2}).Value.Coeffs)
		}))
		chk("GGSW", l.GLWEStdDev, 640, ring(func() []T {
			m := make([]T, 32)
			m[1] = 5 * g.BaseQ(1)
			return subv(phaseGLWE(enc.EncryptGGSWPoly(polyOf(scal(m, 1)), g).Value[2].Value[0], enc.SecretKey.GLWEKey),
				refMul(scal(m, g.BaseQ(0)), enc.SecretKey.GLWEKey.Value[1].Coeffs))
		}))
		chk("Fourier GLWE", l.GLWEStdDev, 640, ring(func() []T {
			return subv(enc.DecryptFFTGLWEPhase(enc.EncryptFFTGLWE([]int{1, 2})).Value.Coeffs, enc.EncodeGLWE([]int{1, 2}).Value.Coeffs)
		}))
		ksk := enc.GenDefaultKeySwitchKey()
		i := -1
		chk("bootstrapping key-switching key", l.LWEStdDev, 300, func() float64 {
			i++
			row := i % ksk.InputLWEDimension()
			return float64(sgn(phaseLWE(ksk.Value[row].Value[i%2].Value, enc.SecretKey.LWEKey.Value) - enc.SecretKey.LWELargeKey.Value[24+row]*p.KeySwitchParams().BaseQ(i%2)))
		})
		if order == ksbr {
			pk := enc.GenPublicKey()
			pe := tfhe.NewPublicEncryptor(p, pk)
			// the public key, its mask noise and the fresh noise: (2kN/2+1) terms
			f := l.GLWEStdDev * math.Sqrt(float64(2*2*32)/2+1)
			chk("public LWE", f, 300, func() float64 {
				return float64(sgn(enc.DecryptLWEPhase(pe.EncryptLWE(3)).Value - enc.EncodeLWE(3).Value))
			})
			chk("public GLWE", f, 640, ring(func() []T {
				return subv(enc.DecryptGLWEPhase(pe.EncryptGLWE([]int{1, 2})).Value.Coeffs, enc.EncodeGLWE([]int{1, 2}).Value.Coeffs)
			}))
		}
	}
}

func TestVerifP10(t *testing.T) {
	rt.Run(t, "P10", "encryption round trip", func(r *rt.R) {
		encrypt10[uint32](r)
		encrypt10[uint64](r)
	})
	rt.Run(t, "P10", "encryption noise", func(r *rt.R) {
		noise10[uint32](r)
		noise10[uint64](r)
	})
}
