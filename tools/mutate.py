#!/usr/bin/env python3
"""A development aid (used by no check): how much of the code do the checks pin down?

mutate.py cov DIR [ID...]       line coverage of /repo by every group of every check -> DIR/cov.json
mutate.py uncovered DIR         executable lines no check reaches
mutate.py run DIR [--file F] [--n N] [--budget S]   small changes of the code, each run against the groups reaching its line -> DIR/results.jsonl
"""
import ast
import glob
import importlib
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time
import types

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['dfir_ntfs/' + x + '.py' for x in ('Attributes', 'BootSector', 'LogFile', 'MFT', 'MoveTable', 'PartitionTable', 'ShadowCopy', 'USN', 'WSL', 'addons/FAT', 'addons/exFAT')] + ['fat_parser', 'ntfs_parser', 'vsc_mount']


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def load(pid):
    names = glob.glob(os.path.join(ROOT, 'mc', pid.lower() + '_*.py'))
    return importlib.import_module('mc.' + os.path.basename(names[0])[:-3])


def all_ids():
    return sorted(os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(ROOT, 'mc', 'p[0-9][0-9]_*.py')))


def child_setup():
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['TZ'] = 'UTC'
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.environ.get('DFIR_REPO', REPO))
    os.chdir(ROOT)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def cov_worker(pid, idx, total, out):
    child_setup()
    from mc import core
    module = load(pid)
    groups = module.groups('quick')
    mon = sys.monitoring
    mon.use_tool_id(3, 'cov')
    cur = {}

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(REPO + '/'):
            cur.setdefault(f[len(REPO) + 1:] + ':' + str(line), None)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    res = {}
    for g in groups:
        cur.clear()
        mon.restart_events()
        t = time.process_time()
        for i, case in enumerate(g.gen()):
            if i % total == idx:
                core.run_case(g, case, core.Ctx())
        res[pid + ':' + g.name] = [sorted(cur), time.process_time() - t]
    for f in core.CLEANUP:
        f()
    sys.stdout = real
    json.dump(res, open(out, 'w'))


def cov(d, ids):
    os.makedirs(d, exist_ok = True)
    path = d + '/cov.json'
    data = json.load(open(path)) if os.path.exists(path) else {'lines': {}, 'cost': {}}
    ctx = multiprocessing.get_context('spawn')
    for pid in ids:
        procs = []
        for i in range(8):
            p = ctx.Process(target = cov_worker, args = (pid, i, 8, '{}/part{}'.format(d, i)))
            p.start()
            procs.append(p)
        for p in procs:
            p.join()
        for l in data['lines'].values():
            l[:] = [x for x in l if not x.startswith(pid + ':')]
        for i in range(8):
            for g, (lines, cost) in json.load(open('{}/part{}'.format(d, i))).items():
                data['cost'][g] = cost if i == 0 else data['cost'][g] + cost
                for l in lines:
                    v = data['lines'].setdefault(l, [])
                    if g not in v:
                        v.append(g)
            os.unlink('{}/part{}'.format(d, i))
        json.dump(data, open(path, 'w'))
        print(pid, flush = True)


def code_lines(code):
    s = {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            s |= code_lines(c)
    return s


def uncovered(d):
    data = json.load(open(d + '/cov.json'))
    for f in FILES:
        src = open(REPO + '/' + f).read()
        text = src.splitlines()
        miss = sorted(l for l in code_lines(compile(src, f, 'exec')) if not data['lines'].get('{}:{}'.format(f, l)) and not text[l - 1].strip().startswith(('def ', 'class ', 'import ', 'from ', '@', '"""')))
        print('==', f, len(miss))
        for l in miss:
            print('%5d %s' % (l, text[l - 1].rstrip()[:150]))


CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in'), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '//'), ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '//'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.LShift: ('<<', '>>'), ast.RShift: ('>>', '<<')}


def mutants(f):
    src = open(REPO + '/' + f).read()
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def rep(n, a, b, new, kind):
        out.append((n.lineno, a, b, new, kind))

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def walk(n):
        if isinstance(n, ast.FunctionDef) and n.name in ('print_information', '__str__', '__repr__', 'print_usage'):
            return
        if isinstance(n, ast.Raise):
            a, b = span(n)
            rep(n, a, b, 'pass', 'delete')
            return
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Assign) and isinstance(getattr(n, 'parent', None), (ast.Module, ast.ClassDef))):
            a, b = span(n)
            rep(n, a, b, 'pass', 'delete')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            rep(n, a, b, 'pass', 'delete')
        if isinstance(n, ast.Continue):
            rep(n, *span(n), 'break', 'jump')
            rep(n, *span(n), 'pass', 'jump')
        if isinstance(n, ast.Break):
            rep(n, *span(n), 'continue', 'jump')
            rep(n, *span(n), 'pass', 'jump')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            rep(n.test, a, b, 'not (' + seg(n.test) + ')', 'negate')
            if isinstance(n, ast.If):
                rep(n.test, a, b, 'False', 'false')
                rep(n.test, a, b, 'True', 'true')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            old, new = CMP[type(n.ops[0])]
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = raw[a:b].decode()
            if mid.count(old) == 1:
                rep(n, a, b, mid.replace(old, new), 'compare')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, 'value', 0), str):
            old, new = BIN[type(n.op)]
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            if mid.count(old) == 1:
                rep(n, a, b, mid.replace(old, new), 'binop')
        if isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                rest = [seg(x) for j, x in enumerate(n.values) if j != k]
                a, b = span(n)
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, a, b, '(' + op.join(rest) + ')', 'drop')
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            a, b = span(n)
            rep(n, a, b, str(n.value + 1), 'const')
            if n.value > 0:
                rep(n, a, b, str(n.value - 1), 'const')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            rep(n, a, b, str(not n.value), 'const')
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            a, b = span(n)
            rep(n, a, b, 'return', 'return')
        for c in ast.iter_child_nodes(n):
            c.parent = n
            walk(c)
    walk(tree)
    return [(f,) + m for m in out]


def run_mutant(task):
    n, m, groups, budget, d = task
    f, line, a, b, new, kind = m
    work = '/dev/shm/mut/{}'.format(n)
    shutil.rmtree(work, ignore_errors = True)
    os.makedirs(work)
    shutil.copytree(REPO + '/dfir_ntfs', work + '/dfir_ntfs', ignore = shutil.ignore_patterns('__pycache__'))
    for s in ('fat_parser', 'ntfs_parser', 'vsc_mount'):
        shutil.copy(REPO + '/' + s, work)
    raw = open(work + '/' + f, 'rb').read()
    mut = raw[:a] + new.encode() + raw[b:]
    try:
        compile(mut, f, 'exec')
    except SyntaxError:
        shutil.rmtree(work)
        return
    open(work + '/' + f, 'wb').write(mut)
    env = dict(os.environ, DFIR_REPO = work, PYTHONHASHSEED = '0', TZ = 'UTC', PYTHONDONTWRITEBYTECODE = '1')
    t = time.time()
    try:
        p = subprocess.run(['/opt/venv/bin/python', os.path.abspath(__file__), 'one', str(budget)] + groups, env = env, capture_output = True, text = True, timeout = budget + 60)
        out = p.stdout.strip().splitlines()[-1:] or ['CRASH ' + p.stderr[-300:]]
    except subprocess.TimeoutExpired:
        out = ['TIMEOUT']
    shutil.rmtree(work, ignore_errors = True)
    text = raw.decode().splitlines()[line - 1].strip()
    rec = {'file': f, 'line': line, 'a': a, 'b': b, 'new': new, 'old': raw[a:b].decode(), 'kind': kind, 'text': text, 'result': out[0], 'budget': budget, 't': round(time.time() - t, 1)}
    with open(d + '/results.jsonl', 'a') as o:
        o.write(json.dumps(rec) + '\n')


def one():
    """Run the given groups until a violation or the end of the budget (in three passes, each over more cases)."""
    child_setup()
    from mc import core
    budget = float(sys.argv[2])
    end = time.time() + budget
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')

    def say(s):
        for f in core.CLEANUP:
            f()
        real.write(s + '\n')
        real.flush()
        os._exit(0)
    todo = []
    mods = {}
    for x in sys.argv[3:]:
        pid, name = x.split(':', 1)
        try:
            if pid not in mods:
                mods[pid] = {g.name: g for g in load(pid).groups('quick')}
        except BaseException as e:
            say('KILLED import {} {!r}'.format(pid, e))
        todo.append((x, mods[pid][name]))
    complete = True
    for stride, share in ((1, 0.03), (37, 0.10), (1, 1.0)):
        for x, g in todo:
            g.cpu = 8
            stop = min(end, time.time() + budget * share) if share < 1 else end
            for i, case in enumerate(g.gen()):
                if time.time() > stop:
                    if share == 1:
                        complete = False
                    break
                if i % stride:
                    continue
                ok, msg, _ = core.run_case(g, case, core.Ctx())
                if not ok:
                    say('KILLED {} {}'.format(x, i))
    say('SURVIVED complete' if complete else 'SURVIVED partial')


def main():
    mode = sys.argv[1]
    if mode == 'one':
        one()
        return
    d = sys.argv[2]
    if mode == 'cov':
        cov(d, sys.argv[3:] or all_ids())
    elif mode == 'uncovered':
        uncovered(d)
    elif mode == 'list':
        for f in FILES:
            print(f, len(mutants(f)))
    elif mode == 'run':
        data = json.load(open(d + '/cov.json'))
        only = opt('--file', None)
        count = int(opt('--n', '100000'))
        budget = float(opt('--budget', '40'))
        done, retry = set(), set()
        if os.path.exists(d + '/results.jsonl'):
            for l in open(d + '/results.jsonl'):
                r = json.loads(l)
                if '--retry' not in sys.argv or not r['result'].startswith('SURVIVED partial') or r.get('budget', 40) >= budget:
                    done.add((r['file'], r['a'], r['b'], r['new']))
                else:
                    retry.add((r['file'], r['a'], r['b'], r['new']))
        todo = []
        for f in FILES:
            if only and f != only:
                continue
            top = {l for _, _, l in compile(open(REPO + '/' + f).read(), f, 'exec').co_lines() if l}
            users = sorted({g for l, gs in data['lines'].items() for g in gs if l.rsplit(':', 1)[0] == f and int(l.rsplit(':', 1)[1]) not in top})
            for m in mutants(f):
                if (m[0], m[2], m[3], m[4]) in done or '--retry' in sys.argv and (m[0], m[2], m[3], m[4]) not in retry:
                    continue
                groups = data['lines'].get('{}:{}'.format(m[0], m[1]), []) if m[1] not in top else users
                if groups:
                    todo.append((m, sorted(groups, key = lambda g: (g.startswith('P29'), data['cost'].get(g, 0)))))
        random.Random(5).shuffle(todo)
        todo = todo[:count]
        print(len(todo), 'mutants', flush = True)
        with multiprocessing.Pool(int(opt('--workers', '8'))) as pool:
            for k, _ in enumerate(pool.imap_unordered(run_mutant, [(n, m, g, budget, d) for n, (m, g) in enumerate(todo)])):
                pass


if __name__ == '__main__':
    main()
