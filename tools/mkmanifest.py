#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (run after changing the registry)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from nv import registry
TECH = {
 'C01': 'static: scalar-evolution footprint and trip-count analysis of the IR loops + definite out-of-range accesses in straight-line value flow',
 'C02': 'static: value-flow extraction from IR, polynomial normal form / rounding-error abstract domain',
 'C03': 'static: value-flow extraction, finite order-region abstraction (all orderings of arguments incl. NaN, inf, zeros)',
 'C04': 'static: value-flow extraction, sign/threshold region abstraction of the per-sample term',
 'C05': 'static: value-flow extraction, rounding-function abstract domain (integer part / magnitude regions)',
 'C06': 'static: value-flow extraction from IR, Taylor-model abstract interpretation of the per-sample term over the whole argument range; term identity with the library call',
 'C07': 'static: value-flow extraction from IR, Taylor-model abstract interpretation of the per-sample term over the whole argument range; term identity with the library call',
 'C08': 'static: value-flow extraction from IR, Taylor-model abstract interpretation of the per-sample term over the whole argument range; term identity with the library call',
 'C09': 'static: value-flow extraction from IR, Taylor-model abstract interpretation of the conversion terms',
 'C10': 'static: value-flow extraction, linear-in-index normal form of the ramp terms',
 'C11': 'static: value-flow extraction, term identity of stored samples',
 'C12': 'static: value-flow extraction, linear/exponent normal form of stored samples',
 'C13': 'static: value-flow extraction, reduction (min/max/sum) normal form over all leaves',
 'C14': 'static: value-flow extraction, reduction normal form including incoming state',
 'C15': 'static: per-lane value-flow extraction of vec members, term identity',
 'C16': 'static: per-lane value-flow extraction of vec members, polynomial and order-region domains',
 'C17': 'static: alignment analysis of every load/store reached from a caller buffer',
 'C18': 'static: aliasing dependence analysis (store-before-load order per element) on extracted value flow',
 'C19': 'static: effect analysis over the call graph (writes, calls, mutable globals, exceptions)',
 'C20': 'static: compile witnesses for every API instantiation x configuration, symbol-level linkage analysis',
 'C21': 'static: undefined-value taint analysis and release/debug term equality',
 'C22': 'static: value-flow extraction, polynomial normal form',
 'C23': 'static: per-sample dependence analysis and template equality over all indices',
}
NOTE = 'Decides from LLVM IR compiled (unoptimised) from the current headers, in every x86 ISA configuration; a sample/function is alarmed only on a definite counterexample in the extracted term, undecided obligations are listed in the evidence. Trusts clang 18 and the semantics of the x86 intrinsics in the extractor; x86 only.'
NA = {'C24': 'Run time and throughput are properties of the machine executing the code; no static argument in reach bounds them (denormal penalties, cache, compiler scheduling).'}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
chk = [{'property': p, 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': 'other', 'level_note': NOTE} for p in props if p in registry.CHECKS]
na = [{'property': p, 'reason': NA.get(p, 'not built yet')} for p in props if p not in registry.CHECKS]
json.dump({'version': 1, 'setup_cmd': 'python3-vt /verif/tools/setup.py', 'checks': chk, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
