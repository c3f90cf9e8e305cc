ALIGN = 'template<class F> static F* al(size_t n) { void *p = 0; if (posix_memalign(&p, 64, n*sizeof(F))) abort(); return (F*)p; }\n'
SEEDS = [
dict(id='c19-short-blockcount', prop='C19', edits=[('simd_memory.hpp', '    unsigned int unroll = n / offset;\n', '    unsigned short unroll = n / offset;\n')],
  inc=['simd_memory.hpp'], needs='a fill of at least 2^16 unrolled blocks (2^20 floats): the block count is truncated to 16 bits', breaks='setvec_simd / zerovec_simd leave most of a large buffer untouched',
  demo=ALIGN+'''int main(){ unsigned n = (1u<<20) + 64; float *d = al<float>(n); for (unsigned i = 0; i != n; ++i) d[i] = 7; 
 nova::setvec_simd(d, 3.f, n); for (unsigned i = 0; i != n; ++i) if (d[i] != 3.f) return 1;
 nova::zerovec_simd(d, n); for (unsigned i = 0; i != n; ++i) if (d[i] != 0.f) return 1; return 0; }'''),
dict(id='c14-exp-floor', prop='C14', edits=[('detail/vec_math.hpp', 'const VecType minlogf(-88.0f);', 'const VecType minlogf(-103.0f);')],
  inc=['simd_math.hpp'], needs='an argument between -103 and -88, where adding the exponent wraps below the smallest exponent', breaks='exp returns huge or negative garbage instead of 0 for very negative arguments',
  demo=ALIGN+'''int main(){ float *a = al<float>(16), *o = al<float>(16); for (int i = 0; i != 16; ++i) a[i] = -88.5f - 0.9f*i; 
 nova::exp_vec_simd(o, a, 16); for (int i = 0; i != 16; ++i) if (o[i] != 0) return 1; return 0; }'''),
dict(id='c07-avx-neq-nan', prop='C07', edits=[('vec/vec_avx_float.hpp', 'RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)', 'RELATIONAL_OPERATOR(!=, _CMP_NEQ_OQ)')],
  inc=['simd_binary_arithmetic.hpp'], needs='an AVX build and a NaN operand', breaks='NaN != x is 0 in the AVX single-precision vector',
  demo=ALIGN+'''int main(){ float *a = al<float>(16), *o = al<float>(16); for (int i = 0; i != 16; ++i) a[i] = i; a[5] = NAN;
 nova::notequal_vec_simd(o, (const float*)a, 5.f, 16); for (int i = 0; i != 16; ++i) if (o[i] != (a[i] != 5.f ? 1.f : 0.f)) return 1;
 nova::vec<float> v; v.load(a); nova::vec<float> r = (v != v); return r.get(5) == 1.f ? 0 : nova::vec<float>::size > 5 ? 1 : 0; }'''),
dict(id='c04-pan-reload', prop='C04', edits=[('simd_pan.hpp', '''        vout0 = vin * factor0;
        vout1 = vin * factor1;

        vout0.store_aligned(out0);
        vout1.store_aligned(out1);

        pan2<F, n-offset>::mp_iteration(out0+offset, out1+offset, in+offset, factor0, factor1);''',
'''        vout0 = vin * factor0;
        vout0.store_aligned(out0);

        vin.load_aligned(in);
        vout1 = vin * factor1;
        vout1.store_aligned(out1);

        pan2<F, n-offset>::mp_iteration(out0+offset, out1+offset, in+offset, factor0, factor1);''')],
  inc=['simd_pan.hpp'], needs='panning in place: the input buffer is also the first output', breaks='second channel is computed from the already scaled first channel',
  demo=ALIGN+'''int main(){ float *a = al<float>(16), *o = al<float>(16); for (int i = 0; i != 16; ++i) a[i] = 1 + i;
 nova::pan2_vec_simd(a, o, (const float*)a, 0.5f, 0.25f, 16u); for (int i = 0; i != 16; ++i) if (a[i] != 0.5f*(1+i) || o[i] != 0.25f*(1+i)) return 1; return 0; }'''),
dict(id='c12-pan-shortcut', prop='C12', edits=[('simd_pan.hpp', """    const int per_loop = vec<F>::objects_per_cacheline;

    vec<F> vf0, vf1, vslope0, vslope1;
""", """    const int per_loop = vec<F>::objects_per_cacheline;

    if (slope0 == -slope1 && factor0 == factor1 + slope1) {
        /* gains do not move */
        pan2_vec_simd(out0, out1, in, factor0, factor1, n);
        return;
    }

    vec<F> vf0, vf1, vslope0, vslope1;
""")],
  inc=['simd_pan.hpp'], needs='opposite slopes and channel gains that are one slope apart (a cross-fade met at its crossing point)', breaks='vectorised ramped panning ignores the slopes',
  demo=ALIGN+"""int main(){ float *a = al<float>(32), *o = al<float>(32), *p = al<float>(32); for (int i = 0; i != 32; ++i) a[i] = 1;
 nova::pan2_vec_simd(o, p, (const float*)a, 1.f, 0.25f, 1.25f, -0.25f, 32u); for (int i = 0; i != 32; ++i) if (o[i] != 1+0.25f*i || p[i] != 1.25f-0.25f*i) return 1; return 0; }"""),
dict(id='c11-peak-last', prop='C11', edits=[('simd_peakmeter.hpp', '    return abs1.get(vec<F>::size - 1);', '    return abs1.horizontal_max();')],
  inc=['simd_peakmeter.hpp'], needs='a last vector whose largest sample is not the last one', breaks='the vectorised peak meter returns the loudest of the last samples instead of the last one',
  demo=ALIGN+'''int main(){ float *a = al<float>(32); for (int i = 0; i != 32; ++i) a[i] = i == 30 ? -0.75f : 0.25f; float p = 0;
 float l = nova::peak_vec_simd((const float*)a, &p, 32); return l == 0.25f && p == 0.75f ? 0 : 1; }'''),
dict(id='c10-sum-pairs', prop='C10', edits=[('simd_horizontal_functions.hpp', """    n /= vec_size;
    do {
        vec<F> val;
        val.load_aligned(in);

        current = current + val;
        in += vec_size;
    } while(--n);
""", """    n /= vec_size;
    if (n == 1) {
        current.load_aligned(in);
    } else {
        /* two vectors per iteration */
        n /= 2;
        do {
            vec<F> val0, val1;
            val0.load_aligned(in);
            val1.load_aligned(in + vec_size);

            current = current + (val0 + val1);
            in += 2*vec_size;
        } while(--n);
    }
""")],
  inc=['simd_horizontal_functions.hpp'], needs='an odd number (3, 5, ...) of vectors in the buffer', breaks='the vectorised sum leaves out the last vector',
  demo=ALIGN+"""int main(){ float *a = al<float>(64); for (int i = 0; i != 64; ++i) a[i] = 1 + i; int n = 3*nova::vec<float>::size;
 return nova::horizontal_sum_vec_simd((const float*)a, n) == n*(n+1)/2 ? 0 : 1; }"""),
dict(id='c13-softclip-large', prop='C13', edits=[('softclip.hpp', 'vec_type alt_ret = (abs_ - const025) / arg;', 'vec_type alt_ret = select((abs_ - const025) / arg, sign(arg), mask_gt(abs_, vec_type(FloatType(100000))));')],
  inc=['softclip.hpp'], needs='samples of magnitude above 1e5 (below 2^22 in single precision), where the result is not yet 1', breaks='the vectorised soft clip no longer equals the scalar one for loud samples',
  demo=ALIGN+'''int main(){ float *a = al<float>(16), *o = al<float>(16), *s = al<float>(16); for (int i = 0; i != 16; ++i) a[i] = (i & 1 ? 1.f : -1.f) * (0.51f + 0.37f*i); a[3] = 100001.5f;
 nova::softclip_vec_simd(o, (const float*)a, 16); nova::softclip_vec(s, (const float*)a, 16); return memcmp(o, s, 64) ? 1 : 0; }'''),
dict(id='c08-undenorm-literal', prop='C08', edits=[('detail/vec_math.hpp', 'const VecType abs_arg_lt_min = mask_lt(abs_arg, min_positive_value);', 'const VecType abs_arg_lt_min = mask_lt(abs_arg, float_type(0.999) * min_positive_value);')],
  inc=['simd_unary_arithmetic.hpp'], needs='one of the largest 0.1% of the denormals', breaks='the vectorised undenormalize passes the largest denormals through',
  demo=ALIGN+'''int main(){ float *a = al<float>(16), *o = al<float>(16); for (int i = 0; i != 16; ++i) a[i] = 1.175e-38f * (i & 1 ? 1 : -1);
 nova::undenormalize_vec_simd(o, (const float*)a, 16); for (int i = 0; i != 16; ++i) if (o[i] != 0) return 1; return 0; }'''),
dict(id='c18-440', prop='C18', edits=[('simd_unit_conversion.hpp', """        return abs_log2()(freq * FloatType(0.0022727272727)) + FloatType(4.75);""", """        return abs_log2()(freq * FloatType(0.00227273)) + FloatType(4.75);""")],
  inc=['simd_unit_conversion.hpp'], needs='looking at more digits than the tests: the constant 1/440 is cut to six digits', breaks='double-precision freq2oct is off by 1.7e-6',
  demo=ALIGN+"""int main(){ double *a = al<double>(8), *o = al<double>(8); for (int i = 0; i != 8; ++i) a[i] = 20 * pow(2, i); 
 nova::freq2oct_vec_simd(o, (const double*)a, 8); for (int i = 0; i != 8; ++i) if (fabs(o[i] - (4.75 + log2(a[i]/440))) > 1e-8) return 1;
 return 0; }"""),
dict(id='c15-cos-coeff', prop='C15', edits=[('detail/vec_math.hpp', """        - 1.388731625493765E-003) * z
        + 4.166664568298827E-002) * z * z
        -0.5f * z + 1
""", """        - 1.387731625493765E-003) * z
        + 4.166664568298827E-002) * z * z
        -0.5f * z + 1
""")],
  inc=['simd_math.hpp'], needs='arguments near odd multiples of pi/4 and a finer comparison than the tests make', breaks='vectorised cosine has an absolute error of up to 3e-7 near pi/4',
  demo=ALIGN+"""int main(){ float *a = al<float>(1024), *o = al<float>(1024); for (int i = 0; i != 1024; ++i) a[i] = 0.76f + i*0.00002f; 
 nova::cos_vec_simd(o, (const float*)a, 1024); for (int i = 0; i != 1024; ++i) if (fabs(o[i] - cos((double)a[i])) > 2e-7) return 1; return 0; }"""),
dict(id='c17-log-split', prop='C17', edits=[('detail/vec_math.hpp', 'const VecType sqrt_05 = 0.707106781186547524f;', 'const VecType sqrt_05 = 0.617106781186547524f;')],
  inc=['simd_math.hpp'], needs='a mantissa between 0.617 and 0.707, where the polynomial is used outside of its interval', breaks='vectorised log is inaccurate for such arguments when the exponent is 0 (result near -0.45)',
  demo=ALIGN+'''int main(){ float *a = al<float>(1024), *o = al<float>(1024); for (int i = 0; i != 1024; ++i) a[i] = 0.6171071f + i*0.00008f; 
 nova::log_vec_simd(o, (const float*)a, 1024); for (int i = 0; i != 1024; ++i) if (fabs(o[i] - log((double)a[i])) > 5e-7*fabs(log((double)a[i]))) return 1; return 0; }'''),
]
