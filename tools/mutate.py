#!/usr/bin/env python3
"""Mutation sweep: which single-site changes of the code do the checks not see?

  tools/mutate.py cov                      line coverage of every check -> /tmp/mut/cov.json
  tools/mutate.py run N SEED [FILE...]     try N random mutants, results -> /tmp/mut/results.jsonl

Everything happens in scratch copies under /tmp/mut; /repo is only read.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
CHECKS = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]


def cov():
    res = {}
    for c in CHECKS:
        if c in ('C14', 'C15'):
            continue
        d = W + '/cov'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t = time.time()
        subprocess.call([ROOT + '/bin/check', c], env=dict(os.environ, VERIF_COV=d, VERIF_EVIDENCE=W + '/ev'),
                        stdout=subprocess.DEVNULL)
        hits = set()
        for f in os.listdir(d):
            hits.update(map(tuple, json.load(open(os.path.join(d, f)))))
        res[c] = sorted(hits)
        print(c, len(hits), round(time.time() - t, 1), flush=True)
    json.dump(res, open(W + '/cov.json', 'w'))


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
SWAP = {'less': 'less_equal', 'less_equal': 'less', 'greater': 'greater_equal', 'greater_equal': 'greater',
        'logical_and': 'logical_or', 'logical_or': 'logical_and', 'min': 'max', 'max': 'min', 'any': 'all',
        'all': 'any', 'sum': 'mean', 'mean': 'sum', 'argmin': 'argmax', 'zeros': 'ones', 'ones': 'zeros',
        'vstack': 'hstack', 'argsort': 'sort', 'floor': 'ceil', 'sqrt': 'abs', 'equal': 'not_equal',
        'SUM': 'MAX', 'prod': 'sum', 'product': 'sum', 'copy': 'asarray', 'unique': 'sort'}


PAIRS = [('_input_', '_output_'), ('_values', '_reference_value'), ('_volumes', '_probabilities'),
         ('_prob_type', '_prob_type_init'), ('_prob_parameters', '_prob_parameters_init'), ('_left', '_right')]
NAMES = {'i': 'j', 'j': 'i', 'x': 'y', 'y': 'x', 'mins': 'maxes', 'maxes': 'mins', 'input_dim': 'output_dim',
         'output_dim': 'input_dim', 'set1': 'set2', 'set2': 'set1', 'num': 'num_local', 'inputs': 'outputs',
         'outputs': 'inputs', 'disc_new': 'disc', 'region': 'i'}


def subtle(n, seg, add):
    """Slips that need particular data to show."""
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'copy':
            add(n, seg(n.args[0]) if n.args else seg(f.value), 'alias')
        if isinstance(f, ast.Name) and f.id == 'range' and len(n.args) == 1:
            add(n, 'range(min(%s, 7))' % seg(n.args[0]), 'cap')
        for k in n.keywords:
            if k.arg and k.arg != 'axis':
                add(n, '%s(%s)' % (seg(f), ', '.join([seg(a) for a in n.args] + [
                    '%s=%s' % (q.arg, seg(q.value)) for q in n.keywords if q is not k and q.arg])), 'kwdrop')
        if len(n.args) == 2 and not n.keywords and not isinstance(n.args[1], ast.Constant):
            add(n, '%s(%s, %s)' % (seg(f), seg(n.args[1]), seg(n.args[0])), 'argswap')
    elif isinstance(n, ast.keyword) and n.arg == 'axis' and isinstance(n.value, ast.Constant):
        add(n.value, str(1 - n.value.value) if n.value.value in (0, 1) else '0', 'axis')
    elif isinstance(n, ast.Attribute):
        for a, b in PAIRS:
            for a, b in ((a, b), (b, a)):
                if a in n.attr and b not in n.attr.replace(a, ''):
                    add(n, seg(n.value) + '.' + n.attr.replace(a, b), 'other')
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
        add(n, NAMES[n.id], 'name')
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        if n.slice.upper is not None and n.slice.step is None:
            add(n, '%s[%s:(%s) - 1]' % (seg(n.value), seg(n.slice.lower) if n.slice.lower else '', seg(n.slice.upper)),
                'slice')
    elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
        a, b = n.value.elts
        add(n.value, '(%s, %s)' % (seg(b), seg(a)), 'tuple')


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, z = pos(n)
        return b[a:z].decode()
    out = []

    def add(n, new, op):
        a, z = pos(n)
        if b[a:z].decode() != new:
            out.append((path, n.lineno, op, a, z, new))
    for n in ast.walk(tree):
        subtle(n, seg, add)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '*'}.get(type(n.op))
            if o and not isinstance(n.left, ast.Constant) or (o and not isinstance(getattr(n.left, 'value', 0), str)):
                if not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                    add(n, '(%s) %s (%s)' % (seg(n.left), o, seg(n.right)), 'bin')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            if n.value is True or n.value is False:
                add(n, repr(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, repr(n.value + 1), 'const')
                if n.value > 0:
                    add(n, repr(n.value - 1), 'const')
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 + (n.value == 0)), 'const')
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, seg(n.value) + '.' + SWAP[n.attr], 'swap')
        elif isinstance(n, ast.Attribute) and n.attr.endswith('_local') and n.attr.startswith('_'):
            add(n, seg(n.value) + '.' + n.attr[:-6], 'local')
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), ast.Constant):
            add(n, 'pass', 'del')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', 'del')
        elif isinstance(n, ast.Raise):
            add(n, 'pass', 'raise')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'not (%s)' % seg(n.test), 'if')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, o.join('(%s)' % seg(v) for v in n.values), 'boolop')
            for v in n.values:
                add(n, ' and '.join('(%s)' % seg(x) for x in n.values if x is not v), 'dropterm')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, seg(n.operand), 'unary')
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is None:
            pass
        elif isinstance(n, ast.Break):
            add(n, 'pass', 'break')
        elif isinstance(n, ast.Continue):
            add(n, 'pass', 'continue')
    return out, b


def run(N, seed, files):
    covd = json.load(open(W + '/cov.json'))
    by = {}
    for c, hits in covd.items():
        for f, l in hits:
            by.setdefault((f, l), []).append(c)
    rnd = random.Random(seed)
    cand = []
    srcs = {}
    anch = {}
    for l in open(ROOT + '/properties.jsonl'):
        p = json.loads(l)
        anch[p['id']] = p['anchors']['files']
    for dp, _, fs in os.walk('/repo/bet'):
        for f in fs:
            rel = os.path.relpath(os.path.join(dp, f), '/repo')
            if f.endswith('.py') and f != '__init__.py' and (not files or any(x in rel for x in files)):
                ms, b = mutants(rel, open('/repo/' + rel).read())
                srcs[rel] = b
                cand += ms
    if os.environ.get('OPS'):
        cand = [m for m in cand if m[2] in os.environ['OPS'].split(',')]
    rnd.shuffle(cand)
    done = set()
    if os.path.exists(W + '/results.jsonl'):
        for l in open(W + '/results.jsonl'):
            r = json.loads(l)
            done.add((r['file'], r['old_start'], r['new']))
    cand = [m for m in cand if (m[0], m[3], m[5]) not in done][:N]
    print(len(cand), 'mutants', flush=True)

    def one(m):
        path, line, op, a, z, new = m
        b = srcs[path]
        src = b[:a] + new.encode() + b[z:]
        old = b[a:z].decode()
        try:
            compile(src, path, 'exec')
        except SyntaxError:
            return
        checks = by.get((path, line), [])
        checks = sorted(checks, key=lambda c: (path not in anch[c], c))
        if 'comm' in b.decode().split('\n')[line - 1] or op == 'local' or 'rank' in b.decode().split('\n')[line - 1]:
            checks = ['C14'] + checks
        else:
            checks = checks + ['C14'] * ('sample.py' in path or 'util' in path)
        w = '%s/w%d' % (W, abs(hash((m, seed))))
        os.makedirs(w + '/repo')
        shutil.copytree('/repo/bet', w + '/repo/bet', ignore=shutil.ignore_patterns('__pycache__'))
        open(w + '/repo/' + path, 'wb').write(src)
        res, by_ = 'SURVIVED' if checks else 'NOT-COVERED', None
        t = time.time()
        try:
            for c in checks:
                p = subprocess.run([ROOT + '/bin/check', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_EVIDENCE=w + '/ev',
                                            VERIF_WORKERS='2'))
                if p.returncode == 1:
                    res, by_ = 'killed', c
                    break
                if p.returncode != 0:
                    res, by_ = 'broken', c + ' ' + p.stdout.decode()[-200:]
                    break
        finally:
            shutil.rmtree(w, ignore_errors=True)
        with open(W + '/results.jsonl', 'a') as f:
            f.write(json.dumps(dict(file=path, line=line, op=op, old_start=a, old=old[:300], new=new[:300],
                                    result=res, by=by_, checks=checks, s=round(time.time() - t, 1))) + '\n')
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '5'))) as ex:
        list(ex.map(one, cand))


if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    if sys.argv[1] == 'cov':
        cov()
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
