''' Mutation testing of the machinery:  python3 tools/mutate.py FILE(relative to the repository) N SEED OUT.jsonl PID...

Generates small syntactic changes of FILE, applies each to a scratch copy of /repo and runs the checks PID... against it until one of them
reports a violation.  The outcome of each mutant is appended to OUT.jsonl; the survivors are to be reviewed by hand (many change no behaviour). '''
import ast
import json
import os
import random
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.Div: '*'}
SWAP = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any', 'left_weight': 'dual_weight', 'append': 'extend'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno))

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    def walk(n, skip=False):
        if isinstance(n, ast.FunctionDef) and (n.name in ('__str__', '__repr__')):
            return
        if isinstance(n, (ast.Assert, ast.JoinedStr, ast.Raise)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                rep(n, f'{text(n.left)} {op} {text(n.comparators[0])}', 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})', 'bin')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join(text(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                vs = [text(v) for j, v in enumerate(n.values) if j != i]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(vs) + ')', 'booldrop')
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                rep(n, f'bool({text(n.operand)})', 'not')
            elif isinstance(n.op, (ast.USub, ast.Invert)):
                rep(n, f'({text(n.operand)})', 'neg')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), 'const')
            if n.value:
                rep(n, f'({n.value - 1})', 'const')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), 'const')
        if isinstance(n, ast.IfExp):
            rep(n, f'({text(n.body)})', 'ifexp')
            rep(n, f'({text(n.orelse)})', 'ifexp')
        if isinstance(n, (ast.If, ast.While)):
            rep(n.test, 'False', 'if')
            if isinstance(n, ast.If):
                rep(n.test, 'True', 'if')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, 'True', 'compif')
        if isinstance(n, (ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, 'pass', 'del')
        if isinstance(n, ast.AugAssign):
            op = {'+=': '-=', '-=': '+='}
            t = text(n)
            for k, v in op.items():
                if f' {k} ' in t:
                    rep(n, t.replace(f' {k} ', f' {v} ', 1), 'aug')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in SWAP:
                rep(f, SWAP[f.id], 'swap')
            if isinstance(f, ast.Name) and f.id in ('reversed', 'sorted', 'abs', 'set') and len(n.args) == 1 and not n.keywords:
                rep(n, ('list(' if f.id == 'sorted' else '(') + text(n.args[0]) + ')', 'unwrap')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(f, ast.Name) and f.id in ('isinstance', 'max', 'min', 'range')):
                rep(n, f'{text(f)}({text(n.args[1])}, {text(n.args[0])}' + ''.join(', ' + text(k) for k in n.keywords) + ')', 'args')
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    res = []
    for s, e, new, what, line in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((line, what, b[s:e].decode(), new, m))
    return res


def main():
    f, n, seed, out, pids = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
    w = f'/tmp/vf-mut-{os.getpid()}'
    subprocess.run(['rm', '-rf', w], check=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo/curver', w + '/curver'], check=True)
    src = open(os.path.join('/repo', f)).read()
    ms = mutants(src)
    lo, hi = [int(x) for x in os.environ.get('MUT_LINES', '0-100000').split('-')]
    ms = [m for m in ms if lo <= m[0] <= hi]
    random.Random(seed).shuffle(ms)
    print(len(ms), 'mutants')
    for line, what, old, new, m in ms[:n]:
        open(os.path.join(w, f), 'w').write(m)
        res = {'file': f, 'line': line, 'what': what, 'old': old, 'new': new, 'caught': None, 'other': []}
        for pid in pids:
            env = dict(os.environ, VF_REPO=w, VF_WORKERS=os.environ.get('VF_WORKERS', '2'), VERIF_TIER='quick')
            try:
                p = subprocess.run(['timeout', '-k', '5', '400', 'bash', os.path.join(V, 'check.sh'), pid, '--scale', os.environ.get('MUT_SCALE', '0.5')], env=env, capture_output=True, text=True)
            except Exception as e:  # pylint: disable=broad-except
                res['other'].append((pid, repr(e)))
                continue
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                res['caught'] = pid
                res['how'] = [l for l in p.stdout.split('\n') if l.startswith('[')][:1]
                break
            if p.returncode != 0:
                res['other'].append((pid, p.returncode, p.stderr[-300:]))
        with open(out, 'a') as g:
            g.write(json.dumps(res) + '\n')
    subprocess.run(['rm', '-rf', w], check=True)


if __name__ == '__main__':
    main()
