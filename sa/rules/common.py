"""Helpers shared by the rule modules."""
from .shares import *
from . import arith_cases as ac, binary_cases as bcs


def value_obligations(chk, rule, cases, ring=False, ns=None, unchanged=False):
    for case in cases:
        for n in case.ns if ns is None or "replicated" in case.label else ns:
            def f(case=case, n=n):
                runs = run_case(case, n)
                chk.saw(runs)
                check_value(case, n, runs, ring)
            chk.ob(rule, "%s n=%d" % (case.label, n), f)


def unchanged_obligations(chk, rule, cases, ring=False, ns=None):
    for case in cases:
        case.poke = not case.inplace and not case.view
        for n in case.ns if ns is None or "replicated" in case.label else ns:
            def f(case=case, n=n):
                runs = run_case(case, n)
                chk.saw(runs)
                check_unchanged(case, n, runs, ring)
            chk.ob(rule, "%s n=%d" % (case.label, n), f)


def more_parties(cases, ns):
    for c in cases:
        if "replicated" not in c.label:
            c.ns = tuple(c.ns) + tuple(n for n in ns if n not in c.ns)
    return cases


def pick(cases, pred):
    return [c for c in cases if pred(c)]
