"""A small bounded-exhaustive explorer for the implementation in /repo.

A check module (one per property) defines:

  ID, ASSUMPTIONS
  groups(tier) -> list of Group

A Group enumerates a finite space completely: gen() yields cases (values with a
literal repr), simplest first, and run(case, ctx) drives the real code from
/repo on that case and compares what it did with a reference model. run() raises
Violation, or returns an observed outcome (anything hashable or with a stable
repr). Nothing is sampled: the cases of a group are split between the workers by
index, and every one is executed.
"""

import ast
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DFIR_REPO', '/repo')

CASE_CPU_SECONDS = 40
WORKERS = int(os.environ.get('MC_WORKERS', '8'))
MEM_LIMIT = 3 * 1024 * 1024 * 1024


CLEANUP = []


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Group(object):
    def __init__(self, name, gen, run, bound, cpu = CASE_CPU_SECONDS):
        self.name = name
        self.gen = gen
        self.run = run
        self.bound = bound
        self.cpu = cpu


def h64(data):
    if not isinstance(data, bytes):
        data = repr(data).encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(data, digest_size = 8).digest(), 'little')


class Ctx(object):
    def __init__(self):
        self.states = set()
        self.ops = 0
        self.traces = 0

    def state(self, key):
        self.states.add(h64(key))

    def op(self, n = 1):
        self.ops += n


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def equal(got, want, what):
    if got != want:
        raise Violation('{}: expected {}, got {}'.format(what, short(want), short(got)))


def short(value, limit = 600):
    s = repr(value)
    if len(s) > limit:
        s = s[:limit // 2] + ' ... ' + s[-limit // 2:]
    return s


def _on_alarm(signum, frame):
    raise Hang()


def run_case(group, case, ctx):
    """Run one case; return (ok, message, outcome)."""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, group.cpu)
    try:
        try:
            outcome = group.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        return (False, str(e), None)
    except Hang:
        return (False, 'the code did not terminate within {} s of CPU time'.format(group.cpu), None)
    except MemoryError:
        return (False, 'the code exhausted the memory limit (unbounded growth)', None)
    except RecursionError:
        return (False, 'the code recursed without bound', None)
    except Exception:
        return (False, 'unexpected exception:\n' + traceback.format_exc()[-3000:], None)
    return (True, None, outcome)


def _worker(groups, idx, total, known, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(3000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    result = []
    for g in groups:
        ctx = Ctx()
        n = 0
        outcomes = set()
        samples = []
        bad = []
        knownhits = []
        for i, case in enumerate(g.gen()):
            if i % total != idx:
                continue
            n += 1
            ctx.states.add(h64(case))
            ok, msg, outcome = run_case(g, case, ctx)
            if ok:
                ctx.traces += 1
                if len(outcomes) < 2000000:
                    outcomes.add(h64(outcome))
                if len(samples) < 2:
                    samples.append([i, repr(case)[:400], short(outcome, 200)])
            else:
                k = known.get((g.name, repr(case)))
                if k is not None:
                    knownhits.append(k)
                    continue
                bad.append((i, repr(case), msg))
                break
        result.append((g.name, n, ctx.states, ctx.ops, ctx.traces, outcomes, samples, bad, knownhits))
    for f in CLEANUP:
        f()
    conn.send(result)
    conn.close()


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for item in json.load(f)['findings']:
                if item.get('status') == 'known' and item['property'] == pid:
                    for case in item['cases']:
                        known[(item['group'], case)] = item['what']
    return known


def write_evidence(pid, data):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok = True)
    tmp = os.path.join(d, '.{}.tmp'.format(pid))
    with open(tmp, 'w') as f:
        json.dump(data, f, indent = 1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, pid + '.json'))


def violation(pid, group, case, msg):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok = True)
    path = os.path.join(d, pid + '.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'group': group, 'case': case, 'message': msg,
                   'replay': 'cd /verif && ./check {} --replay {}'.format(pid, path)}, f, indent = 1)
        f.write('\n')
    print('group {}: case {}'.format(group, case[:1500]))
    print(msg[:3000])
    print('VIOLATION property={} replay={}'.format(pid, path))


def main(pid, load, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1

    started = time.time()
    try:
        module = load(pid)
        groups = module.groups(tier)
    except BaseException:
        violation(pid, 'import', '()', 'the code under test cannot be loaded:\n' + traceback.format_exc()[-3000:])
        write_evidence(pid, {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                             'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []},
                             'wall_s': time.time() - started, 'violations': 1})
        return 1

    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        for g in groups:
            if g.name == rec['group']:
                ok, msg, outcome = run_case(g, ast.literal_eval(rec['case']), Ctx())
                for f in CLEANUP:
                    f()
                print('case', rec['case'][:2000])
                print('held, outcome {}'.format(short(outcome)) if ok else msg)
                return 0 if ok else 1
        print('no such group')
        return 1

    only = None
    if '--group' in argv:
        only = argv[argv.index('--group') + 1]
        groups = [g for g in groups if g.name == only]

    known = load_known(pid)
    procs = []
    mp = multiprocessing.get_context('fork')
    for i in range(WORKERS):
        parent, child = mp.Pipe(duplex = False)
        p = mp.Process(target = _worker, args = (groups, i, WORKERS, known, child))
        p.start()
        child.close()
        procs.append((p, parent))

    merged = {}
    order = [g.name for g in groups]
    crashed = []
    for i, (p, conn) in enumerate(procs):
        try:
            res = conn.recv()
        except EOFError:
            res = []
        p.join()
        if not res and groups:
            crashed.append((i, p.exitcode))
        for name, n, states, ops, traces, outcomes, samples, bad, knownhits in res:
            m = merged.setdefault(name, {'n': 0, 'states': set(), 'ops': 0, 'traces': 0, 'outcomes': set(), 'samples': [], 'bad': [], 'known': []})
            m['n'] += n
            m['states'] |= states
            m['ops'] += ops
            m['traces'] += traces
            m['outcomes'] |= outcomes
            m['samples'] += samples
            m['bad'] += bad
            m['known'] += knownhits

    bad = []
    knownhits = []
    per_group = []
    samples = []
    for g in groups:
        m = merged.get(g.name)
        if m is None:
            continue
        for item in sorted(m['bad'])[:1]:
            bad.append((g.name,) + item)
        for k in m['known']:
            if k not in knownhits:
                knownhits.append(k)
        per_group.append({'group': g.name, 'bound': g.bound, 'cases': m['n'], 'states': len(m['states']), 'calls': m['ops'],
                          'distinct_outcomes': len(m['outcomes']), 'violations': len(m['bad'])})
        samples += [{'group': g.name, 'case': s[1], 'outcome': s[2]} for s in sorted(m['samples'])[:2]]

    wall = time.time() - started
    write_evidence(pid, {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(len(m['states']) for m in merged.values()),
            'transitions': sum(m['ops'] for m in merged.values()),
            'traces_validated_against_impl': sum(m['traces'] for m in merged.values()),
            'samples': samples[:12],
            'exhaustive': not bad and not crashed,
            'groups': per_group,
        },
        'assumptions': module.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(bad) + len(crashed),
    })

    for g in per_group:
        print('{}: cases={} states={} calls={} outcomes={} [{}]'.format(g['group'], g['cases'], g['states'], g['calls'], g['distinct_outcomes'], g['bound']))
    for k in knownhits:
        print('KNOWN-FINDING: property={} {}'.format(pid, k))
    print('{} tier={} wall={:.1f}s'.format(pid, tier, wall))

    if bad:
        g, i, case, msg = bad[0]
        for other in bad[1:]:
            print('also: group {} case {}: {}'.format(other[0], other[2][:200], other[3][:300]))
        violation(pid, g, case, msg)
        return 1
    if crashed:
        violation(pid, 'worker', repr(crashed), 'a worker running the code under test died: {}'.format(crashed))
        return 1
    return 0
