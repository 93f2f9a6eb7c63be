#!/usr/bin/env python3
"""Writes contracts/objects.gowp: constructors, copies and clears of every object kind (P21).
Only a typing aid; the committed contract file is what the verifier reads."""
import os
out=[]
w=out.append
# a type is S (scalar), a list ("slice", field, element) or a struct: list of (field, type)
S="S"
def arr(t): return ("[]",t)
def st(*fs): return ("{}",fs)
GP="GP"
poly=st(("Coeffs",arr(S)))
def val(t,gp=False): return st(*([("GadgetParams",GP)] if gp else []),("Value",arr(t)))
lwe=val(S); lev=val(lwe,1); gsw=val(lev,1)
glwe=val(poly); glev=val(glwe,1); ggsw=val(glev,1)
ksk=val(lev,1); gksk=val(glev,1); brk=val(ggsw,1)
lwepk=val(glwe)
evk=st(("BlindRotateKey",brk),("KeySwitchKey",ksk))
uni=val(glev,1)
mkevk=st(("BlindRotateKey",brk),("KeySwitchKey",ksk),("CRSPublicKey",glev),("RelinKey",uni))
IDX=["i0","i1","i2","i3","i4","i5","i6"]
def walk(t,path,loops):
    """yields (kind, path, loops): kind in scalar, gp, len"""
    if t==S: yield "scalar",path,loops
    elif t==GP: yield "gp",path,loops
    elif t[0]=="[]":
        yield "len",path,loops
        v=IDX[len(loops)]
        yield from walk(t[1],f"{path}[{v}]",loops+[(v,path)])
    else:
        for f,u in t[1]: yield from walk(u,f"{path}.{f}",loops)
def q(loops,body,sub=lambda p:f"len({p})"):
    for v,p in reversed(loops): body=f"forall({v}, 0, {sub(p)}, {body})"
    return body
def rep(p,a,b): return b+p[len(a):]
def copies(name,t,a="ct",b="ctIn",ptypes=True,clearptr=True):
    tp="[T]" if ptypes else ""
    # Copy
    w(f"//@ func ({name}).Copy{tp}({a})")
    w("//@ open")
    w("//@ fresh")
    for k,p,l in walk(t,a,[]):
        r=rep(p,a,"result")
        if k=="len": w("//@ ensures "+q(l,f"len({r}) == len({p})"))
        else: w("//@ ensures "+q(l,f"{r} == {p}"))
    w("")
    w(f"//@ func (*{name}).CopyFrom{tp}({a}, {b})")
    w("//@ open")
    for k,p,l in walk(t,a,[]):
        if k=="len": w("//@ requires "+q(l,f"len({p}) == len({rep(p,a,b)})"))
    for k,p,l in walk(t,a,[]):
        if k=="len": continue
        fr=(" for "+", ".join(f"{v} < len({pp})" for v,pp in l)) if l else ""
        w(f"//@ sets {p}{fr} = {rep(p,a,b)}")
    w("")
    w(f"//@ func ({'*' if clearptr else ''}{name}).Clear{tp}({a})")
    w("//@ open")
    for k,p,l in walk(t,a,[]):
        if k!="scalar": continue
        fr=(" for "+", ".join(f"{v} < len({pp})" for v,pp in l)) if l else ""
        w(f"//@ sets {p}{fr} = 0")
    w("")
def ctor(name,args,t,dims,reqs,gps=None,panics=None,tp="[T]"):
    """dims: length expressions in walk order; gps: gadget parameter expressions in walk order"""
    w(f"//@ func {name}{tp}({', '.join(args)})")
    w("//@ open")
    w("//@ fresh")
    for r in reqs: w("//@ requires "+r)
    if panics: w("//@ panics "+panics)
    dims=list(dims); gps=list(gps or [])
    dm={}
    # a dimension that is a literal is spelled out index by index
    def cwalk(t,path,loops):
        if t==S: yield "scalar",path,loops
        elif t==GP: yield "gp",path,loops
        elif t[0]=="[]":
            yield "len",path,loops
            if dm[path].isdigit():
                save=list(dims),list(gps)
                for v in range(int(dm[path])):
                    dims[:],gps[:]=list(save[0]),list(save[1])
                    yield from cwalk(t[1],f"{path}[{v}]",loops)
                return
            v=IDX[len(loops)]
            yield from cwalk(t[1],f"{path}[{v}]",loops+[(v,path)])
        else:
            for f,u in t[1]: yield from cwalk(u,f"{path}.{f}",loops)
    for k,p,l in cwalk(t,"result",[]):
        if k=="len":
            dm[p]=dims.pop(0)
            w("//@ ensures "+q(l,f"len({p}) == {dm[p]}",lambda x:dm[x]))
        elif k=="gp":
            g=gps.pop(0)
            w("//@ ensures "+q(l,f"{p} == {g}",lambda x:dm[x]))
        else:
            w("//@ ensures "+q(l,f"{p} == 0",lambda x:dm[x]))
    assert not dims and not gps,(name,dims,gps)
    w("")
w("Contracts for constructors, copies and clears (P21).")
w("Written by tools/genobj.py.")
w("")
w("//@ package math/poly")
w("//@ deftypes uint32 uint64")
w("//@ props P21")
w("//@ define dimOK(n) = n >= 0 && n < 1<<20")
w("//@ define ispow(n) = n > 0 && n & (n-1) == 0")
w("")
for n in ("NewPoly","NewFFTPoly"):
    tp="[T]" if n=="NewPoly" else ""
    w(f"//@ func {n}{tp}(N)")
    w("//@ open")
    w("//@ requires N < 1<<40")
    w("//@ panics !ispow(N) || N < 16")
    w("//@ ensures len(result.Coeffs) == N")
    w("//@ ensures forall(k, 0, N, result.Coeffs[k] == 0)")
    w("")
copies("FFTPoly",poly,"p","pIn",ptypes=False,clearptr=False)
w("//@ package tfhe")
w("//@ deftypes uint32 uint64")
w("//@ props P21")
w("//@ define parOK(p) = dimOK(p.lweDimension) && dimOK(p.glweDimension) && dimOK(p.glweRank) && rankOK(p.polyRank) && dimOK(p.lutExtendFactor)")
w("//@ define defDim(p) = ite(p.bootstrapOrder == 1, p.lweDimension, p.glweDimension)")
w("//@ define levOK(g) = g.level >= 0 && g.level <= 64")
w("")
for n,t in (("LWESecretKey",val(S)),("LWECiphertext",lwe),("LevCiphertext",lev),("GSWCiphertext",gsw),
            ("GLWESecretKey",glwe),("GLWECiphertext",glwe),("GLevCiphertext",glev),("GGSWCiphertext",ggsw),
            ("FFTGLWESecretKey",glwe),("FFTGLWECiphertext",glwe),("FFTGLevCiphertext",glev),("FFTGGSWCiphertext",ggsw),
            ("LWEPublicKey",lwepk),("GLWEPublicKey",lwepk),
            ("LWEPlaintext",st(("Value",S))),("GLWEPlaintext",st(("Value",poly))),("LookUpTable",glwe),
            ("LWEKeySwitchKey",ksk),("GLWEKeySwitchKey",gksk),("BlindRotateKey",brk),("EvaluationKey",evk),
            ("PublicKey",st(("LWEKey",lwepk),("GLWEKey",lwepk)))):
    copies(n,t)
P=["params"]; PO=["parOK(params)"]
G=["params","gadgetParams"]; GO=PO+["levOK(gadgetParams)"]
d,k1,N,L="defDim(params)","params.glweRank + 1","params.polyRank","gadgetParams.level"
k="params.glweRank"
g="gadgetParams"
ctor("NewLWESecretKey",P,val(S),[d],PO)
ctor("NewLWESecretKeyCustom",["n"],val(S),["n"],["dimOK(n)"])
ctor("NewLWECiphertext",P,lwe,[d+" + 1"],PO)
ctor("NewLWECiphertextCustom",["n"],lwe,["n + 1"],["dimOK(n)"])
ctor("NewLevCiphertext",G,lev,[L,d+" + 1"],GO,[g])
ctor("NewLevCiphertextCustom",["n","gadgetParams"],lev,[L,"n + 1"],["dimOK(n)","levOK(gadgetParams)"],[g])
ctor("NewGSWCiphertext",G,gsw,[d+" + 1",L,d+" + 1"],GO,[g,g])
ctor("NewGSWCiphertextCustom",["n","gadgetParams"],gsw,["n + 1",L,"n + 1"],["dimOK(n)","levOK(gadgetParams)"],[g,g])
C=["k","N"]; CO=["dimOK(k) && rankOK(N)"]
CG=["k","N","gadgetParams"]; CGO=CO+["levOK(gadgetParams)"]
for f in("","FFT"):
    ctor(f"New{f}GLWESecretKey",P,glwe,[k,N],PO)
    ctor(f"New{f}GLWESecretKeyCustom",C,glwe,["k","N"],CO)
    ctor(f"New{f}GLWECiphertext",P,glwe,[k1,N],PO)
    ctor(f"New{f}GLWECiphertextCustom",C,glwe,["k + 1","N"],CO)
    ctor(f"New{f}GLevCiphertext",G,glev,[L,k1,N],GO,[g])
    ctor(f"New{f}GLevCiphertextCustom",CG,glev,[L,"k + 1","N"],CGO,[g])
    ctor(f"New{f}GGSWCiphertext",G,ggsw,[k1,L,k1,N],GO,[g,g])
    ctor(f"New{f}GGSWCiphertextCustom",CG,ggsw,["k + 1",L,"k + 1","N"],CGO,[g,g])
ctor("NewLWEPublicKeyCustom",C,lwepk,["k","k + 1","N"],CO)
ctor("NewGLWEPublicKeyCustom",C,lwepk,["k","k + 1","N"],CO)
ctor("NewLWEPublicKey",P,lwepk,[k,k1,N],PO,panics="params.bootstrapOrder != 0")
ctor("NewGLWEPublicKey",P,lwepk,[k,k1,N],PO)
ctor("NewPublicKeyCustom",C,st(("LWEKey",lwepk),("GLWEKey",lwepk)),["k","k + 1","N"]*2,CO)
ctor("NewPublicKey",P,st(("LWEKey",lwepk),("GLWEKey",lwepk)),[k,k1,N]*2,PO,panics="params.bootstrapOrder != 0")
ctor("NewLWEPlaintext",[],st(("Value",S)),[],[])
ctor("NewGLWEPlaintext",P,st(("Value",poly)),[N],PO)
ctor("NewGLWEPlaintextCustom",["N"],st(("Value",poly)),["N"],["rankOK(N)"])
ctor("NewLUT",P,glwe,["params.lutExtendFactor",N],PO)
ctor("NewLUTCustom",["x","N"],glwe,["x","N"],["dimOK(x) && rankOK(N)"])
ctor("NewLWEKeySwitchKey",["params","n","gadgetParams"],ksk,["n",L,d+" + 1"],GO+["dimOK(n)"],[g,g])
ctor("NewLWEKeySwitchKeyCustom",["n","m","gadgetParams"],ksk,["n",L,"m + 1"],["dimOK(n) && dimOK(m)","levOK(gadgetParams)"],[g,g])
KP="params.keySwitchParams"; BP="params.blindRotateParams"
KO=["levOK(params.keySwitchParams) && params.lweDimension <= params.glweDimension"]
ctor("NewKeySwitchKeyForBootstrap",P,ksk,["params.glweDimension - params.lweDimension",KP+".level","params.lweDimension + 1"],PO+KO,[KP,KP])
ctor("NewKeySwitchKeyForBootstrapCustom",["n","k","N","gadgetParams"],ksk,["k * N - n",L,"n + 1"],["dimOK(n) && dimOK(k) && dimOK(N) && n <= k * N","levOK(gadgetParams)"],[g,g])
ctor("NewGLWEKeySwitchKey",["params","n","gadgetParams"],gksk,["n",L,k1,N],GO+["dimOK(n)"],[g,g])
ctor("NewGLWEKeySwitchKeyCustom",["n","k","N","gadgetParams"],gksk,["n",L,"k + 1","N"],CGO+["dimOK(n)"],[g,g])
ctor("NewBlindRotateKey",P,brk,["params.lweDimension",k1,BP+".level",k1,N],PO+[f"levOK({BP})"],[BP]*3)
ctor("NewBlindRotateKeyCustom",["n","k","N","gadgetParams"],brk,["n","k + 1",L,"k + 1","N"],CGO+["dimOK(n)"],[g]*3)
ctor("NewEvaluationKey",P,evk,["params.lweDimension",k1,BP+".level",k1,N,"params.glweDimension - params.lweDimension",KP+".level","params.lweDimension + 1"],PO+KO+[f"levOK({BP})"],[BP]*3+[KP]*2)
ctor("NewEvaluationKeyCustom",["n","k","N","bp","kp"],evk,["n","k + 1","bp.level","k + 1","N","k * N - n","kp.level","n + 1"],CO+["dimOK(n) && n <= k * N && levOK(bp) && levOK(kp)"],["bp"]*3+["kp"]*2)
def secret(head,reqs,n,k,N,fresh=True):
    w(head)
    w("//@ open")
    w("//@ fresh views")
    for r in reqs: w("//@ requires "+r)
    w(f"//@ ensures len(result.LWELargeKey.Value) == {k} * {N}")
    w(f"//@ ensures len(result.LWEKey.Value) == {n}")
    w(f"//@ ensures len(result.GLWEKey.Value) == {k} && len(result.FFTGLWEKey.Value) == {k}")
    w(f"//@ ensures forall(i, 0, {k}, len(result.GLWEKey.Value[i].Coeffs) == {N} && len(result.FFTGLWEKey.Value[i].Coeffs) == {N})")
    w(f"//@ ensures forall(i, 0, {n}, sameloc(result.LWEKey.Value[i], result.LWELargeKey.Value[i]))")
    w(f"//@ ensures forall(i, 0, {k}, forall(j, 0, {N}, sameloc(result.GLWEKey.Value[i].Coeffs[j], result.LWELargeKey.Value[i*{N}+j])))")
def zero(k,N):
    w(f"//@ ensures forall(i, 0, {k} * {N}, result.LWELargeKey.Value[i] == 0)")
    w(f"//@ ensures forall(i, 0, {k}, forall(j, 0, {N}, result.FFTGLWEKey.Value[i].Coeffs[j] == 0.0))")
    w("")
R="dimOK(n) && k >= 1 && k <= 1<<8 && rankOK(N) && n <= k * N"
secret("//@ func NewSecretKeyCustom[T](n, k, N)",[R],"n","k","N"); zero("k","N")
R="parOK(params) && params.glweRank >= 1 && params.glweRank <= 1<<8 && params.glweDimension == params.glweRank * params.polyRank && params.lweDimension <= params.glweDimension"
secret("//@ func NewSecretKey[T](params)",[R],"params.lweDimension","params.glweRank","params.polyRank"); zero("params.glweRank","params.polyRank")
n,k,N="len(sk.LWEKey.Value)","len(sk.GLWEKey.Value)","len(sk.FFTGLWEKey.Value[0].Coeffs)"
secret("//@ func (SecretKey).Copy[T](sk)",[
  f"{k} >= 1 && {k} <= 1<<8 && len(sk.FFTGLWEKey.Value) == {k} && rankOK({N}) && len(sk.LWELargeKey.Value) == {k} * {N} && {n} <= len(sk.LWELargeKey.Value)",
  f"forall(i, 0, {k}, len(sk.GLWEKey.Value[i].Coeffs) == {N} && len(sk.FFTGLWEKey.Value[i].Coeffs) == {N})"],n,k,N)
w(f"//@ ensures forall(i, 0, {k} * {N}, result.LWELargeKey.Value[i] == sk.LWELargeKey.Value[i])")
w(f"//@ ensures forall(i, 0, {k}, forall(j, 0, {N}, result.FFTGLWEKey.Value[i].Coeffs[j] == sk.FFTGLWEKey.Value[i].Coeffs[j]))")
w("")
w("//@ func (*SecretKey).CopyFrom[T](sk, skIn)")
w("//@ open")
w("//@ requires len(sk.LWELargeKey.Value) == len(skIn.LWELargeKey.Value) && len(sk.FFTGLWEKey.Value) == len(skIn.FFTGLWEKey.Value)")
w("//@ requires forall(i, 0, len(sk.FFTGLWEKey.Value), len(sk.FFTGLWEKey.Value[i].Coeffs) == len(skIn.FFTGLWEKey.Value[i].Coeffs))")
w("//@ sets sk.LWELargeKey.Value[i] for i < len(sk.LWELargeKey.Value) = skIn.LWELargeKey.Value[i]")
w("//@ sets sk.FFTGLWEKey.Value[i].Coeffs[j] for i < len(sk.FFTGLWEKey.Value), j < len(sk.FFTGLWEKey.Value[i].Coeffs) = skIn.FFTGLWEKey.Value[i].Coeffs[j]")
w("")
w("//@ func (*SecretKey).Clear[T](sk)")
w("//@ open")
w("//@ sets sk.LWELargeKey.Value[i] for i < len(sk.LWELargeKey.Value) = 0")
w("//@ sets sk.FFTGLWEKey.Value[i].Coeffs[j] for i < len(sk.FFTGLWEKey.Value), j < len(sk.FFTGLWEKey.Value[i].Coeffs) = 0")
w("")
w("//@ package mktfhe")
w("//@ deftypes uint32 uint64")
w("//@ props P21")
w("//@ define mparOK(p) = parOK(p.subParams) && p.partyCount >= 0 && p.partyCount < 1<<10")
w("")
for n,t in (("LWECiphertext",lwe),("GLWECiphertext",glwe),("FFTGLWECiphertext",glwe),("UniEncryption",uni),("FFTUniEncryption",uni),("EvaluationKey",mkevk)):
    copies(n,t)
PO=["mparOK(params)"]; c="params.partyCount"; N="params.subParams.polyRank"; SP="params.subParams"
ctor("NewLWECiphertext",P,lwe,[f"{c} * defDim({SP}) + 1"],PO)
ctor("NewLWECiphertextCustom",["n"],lwe,["n + 1"],["dimOK(n)"])
for f in ("","FFT"):
    ctor(f"New{f}GLWECiphertext",P,glwe,[c+" + 1",N],PO)
    ctor(f"New{f}GLWECiphertextCustom",C,glwe,["k + 1","N"],CO)
    ctor(f"New{f}UniEncryption",G,uni,["2",L,"2",N],PO+["levOK(gadgetParams)"],[g,g])
    ctor(f"New{f}UniEncryptionCustom",["N","gadgetParams"],uni,["2",L,"2","N"],["rankOK(N)","levOK(gadgetParams)"],[g,g])
RP="params.relinKeyParams"
KP=SP+".keySwitchParams"; BP=SP+".blindRotateParams"
ctor("NewEvaluationKey",P,mkevk,[SP+".lweDimension",SP+".glweRank + 1",BP+".level",SP+".glweRank + 1",N,f"{SP}.glweDimension - {SP}.lweDimension",KP+".level",SP+".lweDimension + 1",
   RP+".level",SP+".glweRank + 1",N,"2",RP+".level","2",N],PO+[f"levOK({KP}) && levOK({BP}) && levOK({RP}) && {SP}.lweDimension <= {SP}.glweDimension"],[BP]*3+[KP]*2+[RP]*3)
ctor("NewEvaluationKeyCustom",["n","N","bp","kp","rp"],mkevk,["n","2","bp.level","2","N","N - n","kp.level","n + 1","rp.level","2","N","2","rp.level","2","N"],
   ["rankOK(N) && dimOK(n) && n <= N && levOK(bp) && levOK(kp) && levOK(rp)"],["bp"]*3+["kp"]*2+["rp"]*3)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","contracts","objects.gowp"),"w").write("\n".join(out)+"\n")
