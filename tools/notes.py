SYM = 'symbolic execution of the real headers (LLVM IR regenerated by clang on each run), '
for _i in ('C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C13', 'C21', 'C22'):
    TECH[_i] = SYM + 'z3 verdict per obligation over all bit patterns (QF_UFBV / QF_FPBV) and symbolic length by loop induction where a length is involved; native replay of counterexamples'
TECH['C06'] = TECH['C07'] = TECH['C21'] = SYM + 'z3 verdict per lane over all bit patterns (QF_UFBV / QF_FPBV / QF_LRA for ramps); native replay of counterexamples'
TECH['C02'] = SYM + 'ramp values as polynomials over the reals with an accumulated rounding bound, z3 linear real arithmetic verdict; symbolic length by loop induction; native replay'
TECH['C03'] = SYM + 'at -O0: bounds, alignment, constness and definedness of every access as z3 obligations; native replay with guard pages and read-only pages'
TECH['C10'] = TECH['C11'] = SYM + 'order theory over all non-NaN patterns (min/max/peak), polynomial identities over the reals with rounding bound (sums); symbolic length by loop induction; native replay'
TECH['C14'] = SYM + 'two-run queries f(-x) against f(x) and range queries over all bit patterns in the IEEE theory; native replay'
for _i in ('C15', 'C16', 'C17', 'C18'):
    TECH[_i] = SYM + 'lane term abstracted cell by cell into Taylor models that include all rounding errors, polynomial inequality refuted by z3 non-linear real arithmetic on every cell of the range; native replay'
TECH['C19'] = SYM + 'with a symbolic 32-bit length: loops summarised by an arbitrary iteration, tiling / value / induction obligations discharged by z3; native replay'
TECH['C20'] = SYM + 'equivalence of the terms of two builds (solver-merged inner nodes, then z3); native replay on both builds'
TECH['C23'] = SYM + 'reachability of writes to globals / MXCSR and equivalence of a second call with a first one, by z3; native replay'
_acc = ('Cells cover the complete stated input range. Trusts the mpmath enclosures of the reference functions. ')
for _i in ('C15', 'C16', 'C17', 'C18'):
    NOTE_P[_i] = _acc + DEF
NOTE_P['C14'] = 'The sign of the intermediate 1-2/(exp(2|x|)+1) is proved first as a Taylor-model lemma and then used as a hypothesis. ' + DEF
NOTE_P['C02'] = 'Values are exact over the reals plus a stated bound on accumulated rounding, not bit-exact. ' + DEF
for _i in ("C01","C02","C05","C10","C11","C12","C13"):
    NOTE_P[_i] = NOTE_P.get(_i, DEF).replace(DEF, '') + 'Element-wise lengths: small lengths are unrolled, and for loops the summariser recognises n is symbolic (all 32-bit values). ' + DEF
