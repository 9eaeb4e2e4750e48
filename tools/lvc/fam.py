import sys; sys.path.insert(0,'/work/lvc')
import sys
import bv, spec
from vc import Fail
U8=dict(es=1,ed=1,ew=2,bias=1<<14,want=bv.clamp_shift(15,8,8),wpre=lambda k,v:[v<(1<<30),v>-(1<<30)])
def same(k,t): return t
def f16out(k,t):
    if t.op!='fptrunc' or t.x is not None: raise Fail(f"f16 output {t}")
    return t.a[0]
F32=dict(es=4,ed=4,ew=4,unwrap=same)
F16=dict(es=2,ed=2,ew=4,unwrap=f16out,xs=['fpext'])
REP14="zext16:(cat14:(ext6:2(x),x))"
HRS=dict(es=1,ed=1,ew=2,bias=32,scaled=9,want=bv.clamp_shift(6,8,8),lw=16,wide="zext16:(cat14:(ext6:2(x),x))")


import z3
U16L=dict(es=2,ed=2,ew=2,bias=1<<14,want=bv.clamp_depth(15,16),maxdepth=12,wpre=lambda k,v:[v<(1<<30),v>-(1<<30)],wext=('sext',),xext=('sext','zext'))
def finite(k,v):
    return [z3.fpLT(v,z3.FPVal(2.0**30,v.sort())),z3.fpGT(v,z3.FPVal(-2.0**30,v.sort()))]
U16F=dict(es=2,ed=2,ew=4,unwrap=bv.narrow_real,want=bv.round_depth(16),wpre=finite,xs=['uitofp'])

AR=dict(es=1,ed=1,ew=2,bias=(1<<14,(1<<14)-1))
ARS=AR
