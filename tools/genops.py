#!/usr/bin/env python3
"""Writes contracts/ops.gowp: the component-wise ciphertext operations of tfhe and mktfhe (P08).
Only a typing aid; the committed contract file is what the verifier reads."""
import os
out=[]
w=out.append
N="e.PolyEvaluator.rank"
GR=PR=LWE=MK=None
def begin(pkg):
    global GR,PR,LWE,MK
    MK=pkg=="mktfhe"
    if MK: GR,PR="e.Params.partyCount","e.Params.subParams.polyRank"
    else: GR,PR="e.Params.glweRank","e.Params.polyRank"
    w(f"Contracts for the component-wise ciphertext operations of {pkg} (P08).")
    w("Written by tools/genops.py.")
    w("")
    w(f"//@ package {pkg}")
    w("//@ deftypes uint32 uint64")
    w("//@ props P08")
    if MK:
        w(f"//@ define evOKmk(e) = rankOK({N}) && {PR} == {N} && e.subEvaluator.PolyEvaluator.rank == {N} && e.subEvaluator.PolyEvaluator.q == e.PolyEvaluator.q && {GR} >= 0 && {GR} < 1<<20")
    else:
        w(f"//@ define evOK(e) = rankOK({N}) && {PR} == {N} && {GR} >= 0 && {GR} < 1<<20")
    w("")
def ok(): return "evOKmk(e)" if MK else "evOK(e)"
def bufs(names):
    for ev in ["e.PolyEvaluator"]+(["e.subEvaluator.PolyEvaluator"] if MK else []):
        for b in names:
            if b=="fpSplit":
                w(f"//@ scratch {ev}.buf.fpSplit")
                continue
            w(f"//@ shape {ev}.buf.{b}.Coeffs = {N}")
            w(f"//@ scratch {ev}.buf.{b}.Coeffs")
def shapes(names):
    for n in names:
        w(f"//@ shape {n}.Value = {GR}+1")
        w(f"//@ shape {n}.Value[_].Coeffs = {N}")
def newres():
    w(f"//@ ensures len(result.Value) == {GR}+1")
    w(f"//@ ensures forall(i, 0, {GR}+1, len(result.Value[i].Coeffs) == {PR})")

def lwe(name, args, shaped, rhs):
    w(f"//@ func (*Evaluator).{name}[T](e, {', '.join(args)})")
    w("//@ open")
    w(f"//@ requires len({shaped[0]}.Value) >= 1")
    if len(shaped)>1: w("//@ requires "+" && ".join(f"len({s}.Value) == len({shaped[0]}.Value)" for s in shaped[1:]))
    if len(shaped)>1: w("//@ alias "+" ".join(shaped))
    w(f"//@ sets {shaped[0]}.Value[k] for k < len({shaped[0]}.Value) = {rhs}")
    w("")
def lwenew(name, args, shaped, rhs):
    w(f"//@ func (*Evaluator).{name}[T](e, {', '.join(args)})")
    if MK:
        p="e.Params.subParams."
        w(f"//@ requires {p}lweDimension >= 0 && {p}lweDimension < 1<<30 && {p}glweDimension >= 0 && {p}glweDimension < 1<<30 && {GR} >= 1 && {GR} < 1<<8")
        dim=f"{GR} * ite({p}bootstrapOrder == 1, {p}lweDimension, {p}glweDimension)"
    else:
        p="e.Params."
        w(f"//@ requires {p}lweDimension >= 0 && {p}lweDimension < 1<<30 && {p}glweDimension >= 0 && {p}glweDimension < 1<<30")
        dim=f"ite({p}bootstrapOrder == 1, {p}lweDimension, {p}glweDimension)"
    w("//@ requires "+" && ".join(f"len({s}.Value) == {dim} + 1" for s in shaped))
    w(f"//@ ensures len(result.Value) == len({shaped[0]}.Value)")
    w(f"//@ ensures forall(k, 0, len({shaped[0]}.Value), result.Value[k] == {rhs})")
    w("")
def glwe(name, args, shaped, rhs, alias=True, extrashape=(), buf=(), own=(), panics=None):
    w(f"//@ func (*Evaluator).{name}[T](e, {', '.join(args)})")
    w("//@ open")
    w("//@ requires "+ok()+(f" && {panics}" if panics else ""))
    shapes(shaped)
    for s in extrashape: w(f"//@ shape {s} = {N}")
    bufs(buf)
    for s in own:
        w(f"//@ shape {s} = {N}")
        w(f"//@ scratch {s}")
    if alias and len(shaped)>1: w("//@ alias "+" ".join(shaped))
    w(f"//@ sets {shaped[0]}.Value[i].Coeffs[k] for i < {GR}+1, k < {N} = {rhs}")
    w("")
def glwenew(name, args, shaped, rhs, extrashape=(), buf=(), own=(), panics=None):
    if MK and name.startswith("Permute"): return # no such function
    w(f"//@ func (*Evaluator).{name}[T](e, {', '.join(args)})")
    w("//@ requires "+ok()+(f" && {panics}" if panics else ""))
    shapes(shaped)
    for s in extrashape: w(f"//@ shape {s} = {N}")
    bufs(buf)
    for s in own:
        w(f"//@ shape {s} = {N}")
        w(f"//@ scratch {s}")
    newres()
    w(f"//@ ensures forall(i, 0, {GR}+1, forall(k, 0, {PR}, result.Value[i].Coeffs[k] == {rhs}))")
    w("")

def ops(pkg):
    begin(pkg)
    L=[("AddLWE",["ct0","ct1"],"{ct0}.Value[k] + {ct1}.Value[k]"),
       ("SubLWE",["ct0","ct1"],"{ct0}.Value[k] - {ct1}.Value[k]"),
       ("AddPlainLWE",["ct"],"{ct}.Value[k] + ite(k == 0, pt.Value, T(0))"),
       ("SubPlainLWE",["ct"],"{ct}.Value[k] - ite(k == 0, pt.Value, T(0))"),
       ("NegLWE",["ct"],"-{ct}.Value[k]"),
       ("ScalarMulLWE",["ct"],"c * {ct}.Value[k]")]
    for n,cts,rhs in L:
        extra=["pt"] if "Plain" in n else ["c"] if "Scalar" in n else []
        r=rhs.format(**{c:c for c in cts})
        lwe(n+"To",["ctOut"]+cts+extra,["ctOut"]+cts,r)
        lwenew(n,cts+extra,cts,r)
    lwe("ScalarMulAddLWETo",["ctOut","ct","c"],["ctOut","ct"],"ctOut.Value[k] + c * ct.Value[k]")
    lwe("ScalarMulSubLWETo",["ctOut","ct","c"],["ctOut","ct"],"ctOut.Value[k] - c * ct.Value[k]")

    M=f"mono(ct.Value[i], k, res2N(d, {N}), {N})"
    G=[("Add",["ct0","ct1"],[],"ct0.Value[i].Coeffs[k] + ct1.Value[i].Coeffs[k]"),
       ("Sub",["ct0","ct1"],[],"ct0.Value[i].Coeffs[k] - ct1.Value[i].Coeffs[k]"),
       ("Neg",["ct"],[],"-ct.Value[i].Coeffs[k]"),
       ("AddPlain",["ct"],["pt"],"ct.Value[i].Coeffs[k] + ite(i == 0, pt.Value.Coeffs[k], T(0))"),
       ("SubPlain",["ct"],["pt"],"ct.Value[i].Coeffs[k] - ite(i == 0, pt.Value.Coeffs[k], T(0))"),
       ("ScalarMul",["ct"],["c"],"c * ct.Value[i].Coeffs[k]"),
       ("MonomialMul",["ct"],["d"],M)]
    for n,cts,extra,rhs in G:
        es=["pt.Value.Coeffs"] if "Plain" in n else []
        glwe(n+"GLWETo",["ctOut"]+cts+extra,["ctOut"]+cts,rhs,alias=n!="MonomialMul",extrashape=es)
        glwenew(n+"GLWE",cts+extra,cts,rhs,extrashape=es)
        if n in("ScalarMul","MonomialMul"):
            for op,s in(("Add","+"),("Sub","-")):
                glwe(n+op+"GLWETo",["ctOut"]+cts+extra,["ctOut"]+cts,f"ctOut.Value[i].Coeffs[k] {s} {rhs}",alias=n!="MonomialMul")
    glwe("MonomialMulGLWEInPlace",["ct","d"],["ct"],M)
    # products with a polynomial and automorphisms
    R=[("PolyMul","p",["p.Coeffs"],"pmul(e.PolyEvaluator, ct.Value[i].Coeffs, p.Coeffs, k)",["pSplit","fp","fpInv"]),
       ("FFTPolyMul","fp",["fp.Coeffs"],"fpmul(e.PolyEvaluator, ct.Value[i].Coeffs, fp.Coeffs, k)",["fp"]),
       ("Permute","d",[],"permv(e.PolyEvaluator, ct.Value[i].Coeffs, d, k)",[])]
    for n,a,es,r,b in R:
        pn="d&1 == 1" if a=="d" else None
        for op,s in(("",""),("Add",f"ctOut.Value[i].Coeffs[k] + "),("Sub","ctOut.Value[i].Coeffs[k] - ")):
            glwe(n+op+"GLWETo",["ctOut","ct",a],["ctOut","ct"],s+r,extrashape=es,buf=b,alias=n=="FFTPolyMul",panics=pn)
        glwenew(n+"GLWE",["ct",a],["ct"],r,extrashape=es,buf=b,panics=pn)
    glwe("PermuteGLWEInPlace",["ct","d"],["ct"],R[2][3],buf=["pOut"],panics="d&1 == 1")
    F=[("Add",["ct0","ct1"],[],"ct0.Value[i].Coeffs[k] + ct1.Value[i].Coeffs[k]"),
       ("Sub",["ct0","ct1"],[],"ct0.Value[i].Coeffs[k] - ct1.Value[i].Coeffs[k]"),
       ("Neg",["ct"],[],"-ct.Value[i].Coeffs[k]"),
       ("FloatMul",["ct"],["c"],"c * ct.Value[i].Coeffs[k]")]
    for n,cts,extra,rhs in F:
        glwe(n+"FFTGLWETo",["ctOut"]+cts+extra,["ctOut"]+cts,rhs)
        glwenew(n+"FFTGLWE",cts+extra,cts,rhs)
        if n=="FloatMul":
            for op,s in(("Add","+"),("Sub","-")):
                glwe(n+op+"FFTGLWETo",["ctOut"]+cts+extra,["ctOut"]+cts,f"ctOut.Value[i].Coeffs[k] {s} {rhs}")
    C=[("CmplxMul","c","cmulc(ct.Value[i], c, k)"),
       ("FFTPolyMul","fp","cmulf(ct.Value[i], fp, k)"),
       ("PolyMul","p",f"cmulfp(p.Coeffs, {N}, ct.Value[i].Coeffs, k)"),
       ("Permute","d","fpermv(e.PolyEvaluator, ct.Value[i].Coeffs, d, k)")]
    for n,a,r in C:
        es=["fp.Coeffs"] if a=="fp" else ["p.Coeffs"] if a=="p" else []
        own=["e.buf.fpMul.Coeffs"] if a=="p" and not MK else []
        b=["fp"] if a=="p" and MK else []
        pn="d&1 == 1" if a=="d" else None
        glwe(n+"FFTGLWETo",["ctOut","ct",a],["ctOut","ct"],r,extrashape=es,own=own,buf=b,alias=a!="d",panics=pn)
        glwenew(n+"FFTGLWE",["ct",a],["ct"],r,extrashape=es,own=own,buf=b,panics=pn)
        for op,s in(("Add","+"),("Sub","-")):
            glwe(n+op+"FFTGLWETo",["ctOut","ct",a],["ctOut","ct"],f"ctOut.Value[i].Coeffs[k] {s} {r}",extrashape=es,own=own,buf=b,alias=a!="d",panics=pn)
    glwe("PermuteFFTGLWEInPlace",["ct","d"],["ct"],C[3][2],buf=["fpOut"],panics="d&1 == 1")
ops("tfhe")
ops("mktfhe")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","contracts","ops.gowp"),"w").write("\n".join(out)+"\n")
