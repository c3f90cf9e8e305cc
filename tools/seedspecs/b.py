ALIGN = 'template<class F> static F* al(size_t n) { void *p = 0; if (posix_memalign(&p, 64, n*sizeof(F))) abort(); return (F*)p; }\n'
CMP = """#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in -msse2 -msse4.1 -mavx; do
  g++ -std=gnu++14 -O1 -w $f -I. "$D/demo.cpp" -o "$T/d" || exit 2
  "$T/d" > "$T/out$f" || exit 2
  cmp "$T/out-msse2" "$T/out$f" || exit 1
done
exit 0
"""
SEEDS = [
dict(id='c11-rms-signed', prop='C11', edits=[('simd_peakmeter.hpp', """        F last = std::fabs(in_sample);
        local_peak = max(local_peak, last);
        local_squared_sum""", """        F last = std::fabs(in_sample);
        if (last > local_peak)
            local_peak = last < 1 ? last : in_sample;
        local_squared_sum""")],
  inc=['simd_peakmeter.hpp'], needs='the scalar peak/RMS meter and a new peak that is a negative sample of magnitude 1 or more', breaks='an overload in the negative half-wave is stored with its sign, so the peak drops below earlier samples',
  demo=ALIGN+'''int main(){ float *a = al<float>(32); for (int i = 0; i != 32; ++i) a[i] = 0.25f; a[7] = -1.5f; float p = 0, s = 0;
 nova::peak_rms_vec((const float*)a, &p, &s, 32); return p == 1.5f ? 0 : 1; }'''),
dict(id='c01-less-equal-nan', prop='C01', edits=[('simd_binary_arithmetic.hpp', 'return x <= y;', 'return FloatType(1.f) - (x > y);')],
  inc=['simd_binary_arithmetic.hpp'], needs='a NaN operand', breaks='less_equal yields 1 instead of 0 when an operand is NaN',
  demo=ALIGN+'''int main(){ float *a = al<float>(32), *o = al<float>(32); for (int i = 0; i != 32; ++i) a[i] = i; a[5] = NAN;
 nova::less_equal_vec_simd(o, (const float*)a, 7.f, 32); for (int i = 0; i != 32; ++i) if (o[i] != (a[i] <= 7.f ? 1.f : 0.f)) return 1; return 0; }'''),
dict(id='c02-slope-float', prop='C02', edits=[('simd_memory.hpp', '    vslope.set_vec(vec<F>::size * slope);', '    vslope.set_vec(vec<F>::size * static_cast<float>(slope));')],
  inc=['simd_memory.hpp'], needs='a double-precision ramp whose slope is not representable in single precision, looked at in double precision', breaks='the vectorised double ramp fill drifts away from start + i*slope with single-precision slope error',
  demo=ALIGN+'''int main(){ double *o = al<double>(256); nova::set_slope_vec_simd(o, 1.0, 0.1, 256); for (int i = 0; i != 256; ++i) if (fabs(o[i] - (1 + 0.1*i)) > 1e-11) return 1; return 0; }'''),
dict(id='c03-load-first-wide', prop='C03', edits=[('vec/vec_sse.hpp', '        data_ = _mm_load_ss(data);', '        data_ = _mm_and_ps(_mm_loadu_ps(data), _mm_castsi128_ps(_mm_setr_epi32(-1, 0, 0, 0)));')],
  inc=['simd_peakmeter.hpp'], needs='a peak value that is the last float before an unmapped page', breaks='the meters read three floats past the single peak value they are given',
  demo='#include <sys/mman.h>\n#include <unistd.h>\n'+ALIGN+'''int main(){ long pg = sysconf(_SC_PAGESIZE); char *m = (char*)mmap(0, 2*pg, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 if (m == MAP_FAILED || mprotect(m + pg, pg, PROT_NONE)) return 2;
 float *p = (float*)(m + pg) - 1, *a = al<float>(32); for (int i = 0; i != 32; ++i) a[i] = i; *p = 3; nova::peak_vec_simd((const float*)a, p, 32); return *p == 31 ? 0 : 1; }'''),
dict(id='c05-fill-negzero', prop='C05', edits=[('simd_memory.hpp', """    vec<F> val(f);
    detail::setvec_simd<F, true>(dest, val, n);""", """    if (f == F(0)) {
        /* no broadcast needed */
        zerovec_simd(dest, n);
        return;
    }

    vec<F> val(f);
    detail::setvec_simd<F, true>(dest, val, n);""")],
  inc=['simd_memory.hpp'], needs='a fill with negative zero', breaks='setvec_simd(-0.0) writes +0.0',
  demo=ALIGN+'''int main(){ float *o = al<float>(32); nova::setvec_simd(o, -0.f, 32); for (int i = 0; i != 32; ++i) if (!std::signbit(o[i])) return 1; return 0; }'''),
dict(id='c06-insert-mask', prop='C06', edits=[('vec/vec_sse.hpp', '            data_ = _mm_insert_ps(data_, tmp, 2 << 4);', '            data_ = _mm_insert_ps(data_, tmp, (2 << 4) | 8);')],
  inc=['vec.hpp'], needs='an SSE4.1 build, writing lane 2 while lane 3 holds something', breaks='writing lane 2 clears lane 3',
  demo='''int main(){ float b[16]; for (int i = 0; i != 16; ++i) b[i] = i + 1; nova::vec<float> v; v.load(b); v.set(2, 50.f); v.store(b);
 return b[0] == 1 && b[1] == 2 && b[2] == 50 && b[3] == 4 ? 0 : 1; }'''),
dict(id='c09-floor-int', prop='C09', edits=[('vec/vec_avx_double.hpp', """        return _mm256_round_pd(arg.data_, _MM_FROUND_TO_NEG_INF);""", """        /* adding and subtracting 1.5 * 2**52 rounds to an integer */
        const vec magic(6755399441055744.0);
        const vec rounded = (arg + magic) - magic;
        const vec ret = rounded - (mask_gt(rounded, arg) & vec(gen_one()));
        return select(ret, arg, mask_ge(abs(arg), vec(4503599627370496.0)));""")],
  inc=['simd_unary_arithmetic.hpp'], needs='an AVX build and a double of magnitude between 2^51 and 2^52', breaks='floor of such a number is off by one or not an integer',
  demo=ALIGN+'''int main(){ double *a = al<double>(16), *o = al<double>(16); for (int i = 0; i != 16; ++i) a[i] = i & 1 ? 2251799813685249.0 + i : -2251799813685249.5 - i;
 nova::floor_vec_simd(o, (const double*)a, 16); for (int i = 0; i != 16; ++i) if (o[i] != floor(a[i])) return 1; return 0; }'''),
dict(id='c16-asin-half', prop='C16', edits=[('detail/vec_math.hpp', 'VecType arg_greater_05 = mask_gt(abs_arg, 0.5);', 'VecType arg_greater_05 = mask_gt(abs_arg, 0.6);')],
  inc=['simd_math.hpp'], needs='an argument just above 0.5', breaks='arc sine uses its polynomial outside of its interval: relative error grows to 1e-6',
  demo=ALIGN+'''int main(){ float *a = al<float>(1024), *o = al<float>(1024); for (int i = 0; i != 1024; ++i) a[i] = 0.5f + i*0.0001f;
 nova::asin_vec_simd(o, (const float*)a, 1024); for (int i = 0; i != 1024; ++i) if (fabs(o[i] - asin((double)a[i])) > 5e-7*asin((double)a[i])) return 1; return 0; }'''),
dict(id='c20-avx-log10', prop='C20', edits=[('vec/vec_avx_float.hpp', """        return detail::vec_log10(arg);""", """        return detail::vec_log2(arg) * vec(0.301029996f);""")],
  inc=['simd_math.hpp'], sh=CMP, needs='comparing an AVX build with an SSE build bit for bit', breaks='log10 on AVX differs from SSE in the last bit',
  demo=ALIGN+'''int main(){ float *a = al<float>(4096), *o = al<float>(4096); for (int i = 0; i != 4096; ++i) a[i] = 1e-3f + 0.0137f*i; nova::log10_vec_simd(o, (const float*)a, 4096);
 for (int i = 0; i != 4096; ++i) printf("%a\\n", o[i]); return 0; }'''),
dict(id='c21-gen-abs', prop='C21', edits=[('simd_utils.hpp', """    return _mm_or_ps(_mm_andnot_ps(sel, val0),
                     _mm_and_ps(val1, sel));""", """    return _mm_or_ps(_mm_andnot_ps(sel, val0),
                     _mm_and_ps(_mm_max_ps(val1, val1), sel));""")],
  inc=['simd_utils.hpp'], needs='never (placeholder)', breaks='nothing', demo='int main(){return 1;}'),
dict(id='c22-tanh-shortcut', prop='C22', edits=[('detail/vec_math.hpp', """    const VecType abs_small = mask_lt(abs_arg, limit_small);
""", """    const VecType abs_small = mask_lt(abs_arg, limit_small);

    /* tanh(x) ~ x if the whole vector is tiny */
    if (abs_arg.horizontal_max() < 1e-3f)
        return arg;
""")],
  inc=['simd_math.hpp'], needs='a vector in which all samples are below 1e-3, one of them above about 4e-4', breaks='whether a small sample is passed through tanh unchanged depends on its neighbours in the vector',
  demo=ALIGN+'''int main(){ float *a = al<float>(32), *o = al<float>(32), *q = al<float>(32); for (int i = 0; i != 32; ++i) a[i] = 9.5e-4f; nova::tanh_vec_simd(o, (const float*)a, 32);
 for (int i = 1; i < 32; i += 2) a[i] = 1; nova::tanh_vec_simd(q, (const float*)a, 32); for (int i = 0; i < 32; i += 2) if (o[i] != q[i]) return 1; return 0; }'''),
dict(id='c23-exp-cache', prop='C23', edits=[('simd_memory.hpp', """    vec<F> vbase, vcurve(detail::ipow<vec<F>::size, F>(curve));
""", """    /* the curve rarely changes: keep its power */
    static F last_curve = F(1), last_power = F(1);
    const F change = curve - last_curve;
    if (!(change < F(1e-5) && change > F(-1e-5))) {
        last_curve = curve;
        last_power = detail::ipow<vec<F>::size, F>(curve);
    }

    vec<F> vbase, vcurve(last_power);
""")],
  inc=['simd_memory.hpp'], needs='two exponential fills after each other whose curves differ by less than 1e-5', breaks='the second fill runs with the curve of the first',
  demo=ALIGN+"""int main(){ double *o = al<double>(64), *q = al<double>(64); nova::set_exp_vec_simd(o, 1.0, 1.01, 64); nova::set_exp_vec_simd(o, 1.0, 1.010009, 64);
 nova::set_exp_vec(q, 1.0, 1.010009, 64); for (int i = 0; i != 64; ++i) if (fabs(o[i] - q[i]) > 1e-12) return 1; return 0; }"""),
]
SEEDS = [s for s in SEEDS if 'placeholder' not in s['needs']]
SEEDS += [
dict(id='c21-hmin-ss', prop='C21', edits=[('simd_utils.hpp', """    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
    xmm0 = _mm_max_ss(xmm0, xmm1);""", """    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
    xmm0 = _mm_max_ss(xmm0, _mm_and_ps(xmm1, gen_abs_mask()));""")],
  inc=['simd_utils.hpp'], needs='four lanes whose maximum is smaller than the magnitude of the second or fourth lane', breaks='horizontal_max returns a magnitude that none of the lanes has when the odd lanes are negative',
  demo='''int main(){ __m128 v = _mm_setr_ps(-1.f, -3.f, -2.f, -4.f); return nova::detail::horizontal_max(v) == -1.f ? 0 : 1; }'''),
]
