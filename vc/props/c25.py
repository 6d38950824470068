"""C25 source terms: explicit Euler half steps before and after the relaxation"""
from ..kprops import kernel_proofs, kernel_cases

ROUTINES = ['source_term', 'one_time_step']


def select(name, spec):
    return any(q.get('source') for q in spec['schemes'])


def check_case(case):
    from .. import kharness
    return kharness.check(case)


def cases(tier, rng):
    yield from kernel_cases(tier, rng, select, ROUTINES, source=lambda r: r < .9, rel=lambda r: .6 < r < .9)


def proofs(tier):
    return kernel_proofs(tier, select, ROUTINES)
