/* generated by tools/mkmath.py */
F1(acos, double, double)
F1(acosf, float, float)
F1(acosl, long double, long double)
F1(acosh, double, double)
F1(acoshf, float, float)
F1(acoshl, long double, long double)
F1(asin, double, double)
F1(asinf, float, float)
F1(asinl, long double, long double)
F1(asinh, double, double)
F1(asinhf, float, float)
F1(asinhl, long double, long double)
F1(atan, double, double)
F1(atanf, float, float)
F1(atanl, long double, long double)
F1(atanh, double, double)
F1(atanhf, float, float)
F1(atanhl, long double, long double)
F1(cbrt, double, double)
F1(cbrtf, float, float)
F1(cbrtl, long double, long double)
F1(ceil, double, double)
F1(ceilf, float, float)
F1(ceill, long double, long double)
F1(cos, double, double)
F1(cosf, float, float)
F1(cosl, long double, long double)
F1(cosh, double, double)
F1(coshf, float, float)
F1(coshl, long double, long double)
F1(erf, double, double)
F1(erff, float, float)
F1(erfl, long double, long double)
F1(erfc, double, double)
F1(erfcf, float, float)
F1(erfcl, long double, long double)
F1(exp, double, double)
F1(expf, float, float)
F1(expl, long double, long double)
F1(exp2, double, double)
F1(exp2f, float, float)
F1(exp2l, long double, long double)
F1(expm1, double, double)
F1(expm1f, float, float)
F1(expm1l, long double, long double)
F1(fabs, double, double)
F1(fabsf, float, float)
F1(fabsl, long double, long double)
F1(floor, double, double)
F1(floorf, float, float)
F1(floorl, long double, long double)
F1(lgamma, double, double)
F1(lgammaf, float, float)
F1(lgammal, long double, long double)
F1(log, double, double)
F1(logf, float, float)
F1(logl, long double, long double)
F1(log10, double, double)
F1(log10f, float, float)
F1(log10l, long double, long double)
F1(log1p, double, double)
F1(log1pf, float, float)
F1(log1pl, long double, long double)
F1(log2, double, double)
F1(log2f, float, float)
F1(log2l, long double, long double)
F1(logb, double, double)
F1(logbf, float, float)
F1(logbl, long double, long double)
F1(nearbyint, double, double)
F1(nearbyintf, float, float)
F1(nearbyintl, long double, long double)
F1(rint, double, double)
F1(rintf, float, float)
F1(rintl, long double, long double)
F1(round, double, double)
F1(roundf, float, float)
F1(roundl, long double, long double)
F1(sin, double, double)
F1(sinf, float, float)
F1(sinl, long double, long double)
F1(sinh, double, double)
F1(sinhf, float, float)
F1(sinhl, long double, long double)
F1(sqrt, double, double)
F1(sqrtf, float, float)
F1(sqrtl, long double, long double)
F1(tan, double, double)
F1(tanf, float, float)
F1(tanl, long double, long double)
F1(tanh, double, double)
F1(tanhf, float, float)
F1(tanhl, long double, long double)
F1(tgamma, double, double)
F1(tgammaf, float, float)
F1(tgammal, long double, long double)
F1(trunc, double, double)
F1(truncf, float, float)
F1(truncl, long double, long double)
F1(j0, double, double)
F1(j1, double, double)
F1(y0, double, double)
F1(y1, double, double)
F1(ilogb, int, double)
F1(ilogbf, int, float)
F1(ilogbl, int, long double)
F1(llrint, long long, double)
F1(llrintf, long long, float)
F1(llrintl, long long, long double)
F1(llround, long long, double)
F1(llroundf, long long, float)
F1(llroundl, long long, long double)
F1(lrint, long, double)
F1(lrintf, long, float)
F1(lrintl, long, long double)
F1(lround, long, double)
F1(lroundf, long, float)
F1(lroundl, long, long double)
F2(atan2, double, double, double)
F2(atan2f, float, float, float)
F2(atan2l, long double, long double, long double)
F2(copysign, double, double, double)
F2(copysignf, float, float, float)
F2(copysignl, long double, long double, long double)
F2(fdim, double, double, double)
F2(fdimf, float, float, float)
F2(fdiml, long double, long double, long double)
F2(fmax, double, double, double)
F2(fmaxf, float, float, float)
F2(fmaxl, long double, long double, long double)
F2(fmin, double, double, double)
F2(fminf, float, float, float)
F2(fminl, long double, long double, long double)
F2(fmod, double, double, double)
F2(fmodf, float, float, float)
F2(fmodl, long double, long double, long double)
F2(hypot, double, double, double)
F2(hypotf, float, float, float)
F2(hypotl, long double, long double, long double)
F2(nextafter, double, double, double)
F2(nextafterf, float, float, float)
F2(nextafterl, long double, long double, long double)
F2(pow, double, double, double)
F2(powf, float, float, float)
F2(powl, long double, long double, long double)
F2(remainder, double, double, double)
F2(remainderf, float, float, float)
F2(remainderl, long double, long double, long double)
F2(nexttoward, double, double, long double)
F2(nexttowardf, float, float, long double)
F2(nexttowardl, long double, long double, long double)
FN(ldexp, double, int)
FN(scalbn, double, int)
FN(scalbln, double, long)
F3(fma, double)
FREXP(frexp, double)
MODF(modf, double)
REMQUO(remquo, double)
NAN_(nan, double)
FN(ldexpf, float, int)
FN(scalbnf, float, int)
FN(scalblnf, float, long)
F3(fmaf, float)
FREXP(frexpf, float)
MODF(modff, float)
REMQUO(remquof, float)
NAN_(nanf, float)
FN(ldexpl, long double, int)
FN(scalbnl, long double, int)
FN(scalblnl, long double, long)
F3(fmal, long double)
FREXP(frexpl, long double)
MODF(modfl, long double)
REMQUO(remquol, long double)
NAN_(nanl, long double)
FJN(jn)
FJN(yn)
C1(cacos, double complex, double)
C1(cacosf, float complex, float)
C1(cacosl, long double complex, long double)
C1(cacosh, double complex, double)
C1(cacoshf, float complex, float)
C1(cacoshl, long double complex, long double)
C1(casin, double complex, double)
C1(casinf, float complex, float)
C1(casinl, long double complex, long double)
C1(casinh, double complex, double)
C1(casinhf, float complex, float)
C1(casinhl, long double complex, long double)
C1(catan, double complex, double)
C1(catanf, float complex, float)
C1(catanl, long double complex, long double)
C1(catanh, double complex, double)
C1(catanhf, float complex, float)
C1(catanhl, long double complex, long double)
C1(ccos, double complex, double)
C1(ccosf, float complex, float)
C1(ccosl, long double complex, long double)
C1(ccosh, double complex, double)
C1(ccoshf, float complex, float)
C1(ccoshl, long double complex, long double)
C1(cexp, double complex, double)
C1(cexpf, float complex, float)
C1(cexpl, long double complex, long double)
C1(clog, double complex, double)
C1(clogf, float complex, float)
C1(clogl, long double complex, long double)
C1(conj, double complex, double)
C1(conjf, float complex, float)
C1(conjl, long double complex, long double)
C1(cproj, double complex, double)
C1(cprojf, float complex, float)
C1(cprojl, long double complex, long double)
C1(csin, double complex, double)
C1(csinf, float complex, float)
C1(csinl, long double complex, long double)
C1(csinh, double complex, double)
C1(csinhf, float complex, float)
C1(csinhl, long double complex, long double)
C1(csqrt, double complex, double)
C1(csqrtf, float complex, float)
C1(csqrtl, long double complex, long double)
C1(ctan, double complex, double)
C1(ctanf, float complex, float)
C1(ctanl, long double complex, long double)
C1(ctanh, double complex, double)
C1(ctanhf, float complex, float)
C1(ctanhl, long double complex, long double)
C1(cabs, double, double)
C1(cabsf, float, float)
C1(cabsl, long double, long double)
C1(carg, double, double)
C1(cargf, float, float)
C1(cargl, long double, long double)
C1(cimag, double, double)
C1(cimagf, float, float)
C1(cimagl, long double, long double)
C1(creal, double, double)
C1(crealf, float, float)
C1(creall, long double, long double)
C2(cpow, double)
C2(cpowf, float)
C2(cpowl, long double)
