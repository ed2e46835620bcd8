#!/usr/bin/env python3
"""Writes checks/p27_fns.h: the real-valued and complex functions of the libm module."""
T=[('', 'double'),('f','float'),('l','long double')]
o=[]
one='acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 fabs floor lgamma log log10 log1p log2 logb nearbyint rint round sin sinh sqrt tan tanh tgamma trunc'.split()
skip={'cosl_':0}
for n in one:
    for s,t in T: o.append('F1(%s%s, %s, %s)'%(n,s,t,t))
for n in ['j0','j1','y0','y1']: o.append('F1(%s, double, double)'%n)
for n,r in [('ilogb','int'),('llrint','long long'),('llround','long long'),('lrint','long'),('lround','long')]:
    for s,t in T: o.append('F1(%s%s, %s, %s)'%(n,s,r,t))
two='atan2 copysign fdim fmax fmin fmod hypot nextafter pow remainder'.split()
for n in two:
    for s,t in T: o.append('F2(%s%s, %s, %s, %s)'%(n,s,t,t,t))
for s,t in T: o.append('F2(nexttoward%s, %s, %s, long double)'%(s,t,t))
for s,t in T:
    o.append('FN(ldexp%s, %s, int)'%(s,t)); o.append('FN(scalbn%s, %s, int)'%(s,t)); o.append('FN(scalbln%s, %s, long)'%(s,t))
    o.append('F3(fma%s, %s)'%(s,t))
    o.append('FREXP(frexp%s, %s)'%(s,t)); o.append('MODF(modf%s, %s)'%(s,t)); o.append('REMQUO(remquo%s, %s)'%(s,t)); o.append('NAN_(nan%s, %s)'%(s,t))
o.append('FJN(jn)'); o.append('FJN(yn)')
for n in 'cacos cacosh casin casinh catan catanh ccos ccosh cexp clog conj cproj csin csinh csqrt ctan ctanh'.split():
    for s,t in T: o.append('C1(%s%s, %s complex, %s)'%(n,s,t,t))
for n in 'cabs carg cimag creal'.split():
    for s,t in T: o.append('C1(%s%s, %s, %s)'%(n,s,t,t))
for s,t in T: o.append('C2(cpow%s, %s)'%(s,t))
open('checks/p27_fns.h','w').write('/* generated by tools/mkmath.py */\n'+'\n'.join(o)+'\n')
