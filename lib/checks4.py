"""Lengths as symbolic variables."""
import engine as E, build, catalog as C, checks2, loops
from engine import Check
from checks import prop, cf, add_validation

@prop('C19')
def c19(tier):
    ck = Check('C19', tier, {'configs': cf(tier), 'lengths': 'all n in 1 .. 2^32-1 (vectorised: all multiples of the documented block), one symbolic variable', 'loops': 'one arbitrary iteration k; trip count is a term over n verified by the solver', 'values': 'all bit patterns'},
               ['buffers fit the address space', 'ramps and reductions: coverage and data flow per iteration for every n; their values are decided at the bounds of C02, C10, C11'])
    calls = [c for c in checks2.everything(tier) if c.has_n and c.form in ('vec', 'simd')]
    checks2.compile_(ck, calls, cf(tier))
    loops.add(ck, calls, cf(tier))
    ck.run()
    return ck.finish()
