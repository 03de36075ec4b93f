#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it is broken;
exit 2: the check could not give an answer.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402
from vlib.core import log  # noqa: E402
from vlib.registry import load_all  # noqa: E402


def digest(value):
    return hashlib.sha256(json.dumps(value, sort_keys=True).encode()).hexdigest()[:16]


def matches(pattern, value):
    """A known finding's pattern is a partial JSON value that has to occur in the record."""
    if isinstance(pattern, dict):
        return isinstance(value, dict) and all(
            k in value and matches(v, value[k]) for k, v in pattern.items()
        )
    return pattern == value


def run_source(prop, source, rng, tier, scratch, replay_cases=None):
    stats = []
    if replay_cases is not None:
        cases = replay_cases
    elif source.gen:
        module, cfg = source.gen
        cases, stat = core.run_generator(module, cfg(tier) if callable(cfg) else cfg, scratch)
        stats.append(stat)
        if source.adapt:
            cases = source.adapt(cases, rng, tier)
    else:
        cases = source.cases(rng, tier)
    t0 = time.time()
    recs = core.run_driver(
        source.driver, cases, scratch, case_timeout=source.case_timeout, shards=source.shards,
        total_timeout=source.total_timeout, env=source.env
    )
    t1 = time.time()
    bad, stat = core.judge(
        source.trace, [{k: v for k, v in r.items() if k not in ('case', 'tb')} for r in recs],
        scratch, constants=source.constants, chunk=source.chunk, heap=source.heap
    )
    stats.append(stat)
    log('  %-28s %6d executions (%.1f s), %d judged states (%.1f s)' % (
        source.name, len(recs), t1 - t0, stat['distinct'], time.time() - t1
    ))
    return cases, recs, bad, stats


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    args = ap.parse_args()
    t0 = time.time()
    prop = load_all()[args.property]
    pid, tier = prop.pid, args.tier
    known = [k for k in core.load_known_findings() if k['property'] == pid]
    known_seen = {}
    violations = []
    coverage = {
        'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
        'distinct_nontrivial': 0, 'samples': [], 'models': [], 'sources': [],
        'rule': '; '.join(s.name + ': ' + s.rule for s in prop.sources if s.rule)
    }
    replay = None
    if not args.replay and os.path.isdir(core.EVIDENCE):
        for name in os.listdir(core.EVIDENCE):
            if name.startswith('replay-%s-' % pid):
                os.unlink(os.path.join(core.EVIDENCE, name))
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
    with core.Scratch() as scratch:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            futures = []
            if not replay:
                for module, cfg in prop.models:
                    text = cfg(tier) if callable(cfg) else cfg
                    if text is not None:
                        futures.append(ex.submit(
                            core.run_model, module, text, scratch,
                            timeout=780 if tier == 'quick' else 7200
                        ))
            distinct = set()
            for source in prop.sources:
                if replay and replay['source'] != source.name:
                    continue
                rng = random.Random('%s/%s/%s' % (args.seed, pid, source.name))
                cases, recs, bad, stats = run_source(
                    prop, source, rng, tier, scratch,
                    replay_cases=[replay['case']] if replay else None
                )
                for i, (rec, case) in enumerate(zip(recs, cases)):
                    if rec.get('nontrivial', True):
                        distinct.add(digest(case))
                if recs and len(coverage['samples']) < 6:
                    k = len(recs) // 2
                    coverage['samples'].append({
                        'source': source.name, 'case': json.dumps(cases[k])[:1500],
                    })
                coverage['traces_validated_against_impl'] += len(recs)
                for stat in stats:
                    coverage['states'] += stat['distinct']
                    coverage['transitions'] += stat['generated']
                coverage['sources'].append({
                    'name': source.name, 'executions': len(recs), 'trace_module': source.trace,
                    'clauses': sorted(source.clauses) if source.clauses else 'all'
                })
                for i in sorted(bad):
                    clauses = bad[i]
                    if source.clauses is not None:
                        clauses = [
                            c for c in clauses
                            if c in source.clauses or c in ('completes', 'unexplained')
                        ]
                    if not clauses:
                        continue
                    entry = {
                        'property': pid, 'source': source.name, 'clauses': clauses,
                        'exc': recs[i].get('exc', ''), 'case': cases[i], 'record': recs[i]
                    }
                    finding = next((
                        k for k in known
                        if k['source'] == source.name and set(clauses) <= set(k['clauses'])
                        and matches(k['match'], {'case': cases[i], 'record': recs[i]})
                    ), None)
                    if finding:
                        known_seen[finding['what']] = True
                    else:
                        violations.append(entry)
            for future in futures:
                stat = future.result()
                coverage['models'].append(stat)
                coverage['states'] += stat['distinct']
                coverage['transitions'] += stat['generated']
                log('  model %-22s %d distinct states, no error' % (
                    stat['module'], stat['distinct']
                ))
            coverage['distinct_nontrivial'] = len(distinct)
    for what in sorted(known_seen):
        log('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = round(time.time() - t0, 1)
    if not replay:
        core.write_json(os.path.join(core.EVIDENCE, pid + '.json'), {
            'property': pid, 'tier': tier, 'seed': args.seed, 'level': prop.level,
            'coverage': coverage, 'assumptions': prop.assumptions, 'wall_s': wall,
            'violations': len(violations)
        })
    if violations:
        for n, entry in enumerate(violations[:3]):
            path = os.path.join(core.EVIDENCE, 'replay-%s-%d.json' % (pid, n))
            if not replay:
                core.write_json(path, entry)
            log('  failing clause(s) %s in %s %s' % (
                ', '.join(entry['clauses']), entry['source'], entry['exc'][:300]
            ))
            log('VIOLATION property=%s replay=%s' % (pid, args.replay if replay else path))
        log('%s: %d violating executions (%.1f s)' % (pid, len(violations), wall))
        return 1
    log('%s: held on %d executions of the real code, %d specification states (%.1f s)' % (
        pid, coverage['traces_validated_against_impl'], coverage['states'], wall
    ))
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    core.exit_with(code)
