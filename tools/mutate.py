"""Mutation testing of the checks (development aid, not part of any check).

usage: mutate.py OUT.jsonl SEED COUNT [SCALE] [FILE...]
Makes COUNT random small edits of /repo/dfols (one per mutant, in scratch copies under /tmp/mut), drops those the
repository's own tests notice, and runs the checks (single worker, budget * SCALE) against the rest until one alarms.
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = '/tmp/mut'
FILES = ['solver.py', 'controller.py', 'model.py', 'trust_region.py', 'util.py', 'params.py', 'diagnostic_info.py']
ORDER = {
    'solver.py': 'C02 C10 C03 C04 C18 C07 C20 C08 C01 C19 C11 C17 C14 C09 C05 C16 C06',
    'controller.py': 'C18 C14 C04 C10 C02 C03 C17 C01 C09 C08 C07 C11 C05 C19 C16 C20 C06 C13',
    'model.py': 'C17 C16 C01 C03 C11 C04 C08 C20 C10 C02 C18 C05 C07 C14 C09 C19 C06',
    'trust_region.py': 'C12 C13 C05 C09 C07 C01 C08 C04 C18 C03 C10 C02 C06',
    'util.py': 'C15 C14 C13 C12 C01 C09 C08 C02 C03 C07 C20 C04 C19 C05 C06 C10 C18',
    'params.py': 'C07 C10 C18 C02 C03 C04 C01 C08 C19 C05 C20 C06',
    'diagnostic_info.py': 'C18 C20 C07 C03 C10',
}
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*']}
SWAP = {'sl': 'su', 'su': 'sl', 'xl': 'xu', 'xu': 'xl', 'nf': 'nx', 'nx': 'nf', 'delta': 'rho', 'rho': 'delta', 'min': 'max', 'max': 'min',
        'minimum': 'maximum', 'maximum': 'minimum', 'argmin': 'argmax', 'argmax': 'argmin', 'lower': 'upper', 'upper': 'lower',
        'any': 'all', 'all': 'any', 'n': 'm', 'kmin': 'knew', 'xmin': 'x0', 'objopt': 'objbeg', 'floor': 'ceil', 'kopt': 'k',
        'argsh': 'argsprox', 'argsprox': 'argsh', 'nsamples': 'eval_num', 'xmin2': 'xmin', 'rmin2': 'rmin', 'isnan': 'isinf'}


def seg(src_lines, node):
    return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)


def candidates(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(l, c):
        return offs[l - 1] + c
    res = []
    skip = set()
    for node in ast.walk(tree):
        txt = ''
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            txt = ast.unparse(node.value.func)
            if 'logger' in txt or txt == 'print' or 'warn' in txt:
                for x in ast.walk(node):
                    skip.add(id(x))
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            for x in ast.walk(node):
                skip.add(id(x))
        if isinstance(node, (ast.Assert, ast.Import, ast.ImportFrom)):
            for x in ast.walk(node):
                skip.add(id(x))
        if isinstance(node, ast.FunctionDef):
            for x in list(node.decorator_list):
                for y in ast.walk(x):
                    skip.add(id(y))

    def add(node, a, z, new, kind):
        old = b[a:z].decode()
        if old != new:
            res.append((a, z, new, kind, node.lineno, old))
    for node in ast.walk(tree):
        if id(node) in skip or not hasattr(node, 'lineno'):
            continue
        a, z = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            L, R = node.left, node.comparators[0]
            la, rb = pos(L.end_lineno, L.end_col_offset), pos(R.lineno, R.col_offset)
            mid = b[la:rb].decode()
            for o in CMP.get(type(node.ops[0]), []):
                pre = mid[:len(mid) - len(mid.lstrip(' )'))]
                post = mid[len(mid.rstrip(' (')):]
                add(node, la, rb, pre + o + post, 'cmp')
        elif isinstance(node, ast.BinOp):
            L, R = node.left, node.right
            la, rb = pos(L.end_lineno, L.end_col_offset), pos(R.lineno, R.col_offset)
            mid = b[la:rb].decode()
            if isinstance(L, ast.Constant) and isinstance(L.value, str):
                continue
            for o in BIN.get(type(node.op), []):
                pre = mid[:len(mid) - len(mid.lstrip(' )'))]
                post = mid[len(mid.rstrip(' (\\\n')):]
                add(node, la, rb, pre + o + post, 'bin')
            if isinstance(node.op, (ast.Add, ast.Sub)):
                add(node, a, z, b[a:pos(L.end_lineno, L.end_col_offset)].decode() + (')' if mid.startswith(')') else ''), 'dropterm')
        elif isinstance(node, ast.BoolOp):
            vals = node.values
            for i in range(len(vals) - 1):
                la, rb = pos(vals[i].end_lineno, vals[i].end_col_offset), pos(vals[i + 1].lineno, vals[i + 1].col_offset)
                mid = b[la:rb].decode()
                w = 'and' if isinstance(node.op, ast.And) else 'or'
                add(node, la, rb, mid.replace(w, 'or' if w == 'and' else 'and'), 'bool')
            for i in range(len(vals)):
                v = vals[i]
                add(v, pos(v.lineno, v.col_offset), pos(v.end_lineno, v.end_col_offset), 'True' if isinstance(node.op, ast.And) else 'False', 'dropcond')
        elif isinstance(node, ast.UnaryOp):
            o = node.operand
            if isinstance(node.op, ast.Not):
                add(node, a, pos(o.lineno, o.col_offset), '', 'not')
            elif isinstance(node.op, ast.USub) and not isinstance(o, ast.Constant):
                add(node, a, pos(o.lineno, o.col_offset), '', 'neg')
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(node, a, z, str(not v), 'const')
            elif isinstance(v, (int, float)):
                for nv in ([v + 1, v - 1] if isinstance(v, int) else [v * 2, v * 0.5, v * 10]):
                    add(node, a, z, '(%r)' % nv if nv < 0 else repr(nv), 'const')
        elif isinstance(node, ast.Attribute) and node.attr in SWAP:
            add(node, z - len(node.attr), z, SWAP[node.attr], 'swap')
        elif isinstance(node, ast.Name) and node.id in SWAP:
            add(node, a, z, SWAP[node.id], 'swap')
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'copy' and not node.args:
            v = node.func.value
            add(node, pos(v.end_lineno, v.end_col_offset), z, '', 'nocopy')
        elif isinstance(node, (ast.Assign, ast.AugAssign)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            add(node, a, z, 'pass', 'delstmt')
            if isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub)):
                t = b[a:z].decode()
                add(node, a, z, t.replace('+=', '-=') if '+=' in t else t.replace('-=', '+='), 'aug')
        elif isinstance(node, (ast.Break, ast.Continue)):
            add(node, a, z, 'pass', 'delstmt')
        elif isinstance(node, ast.If):
            t = node.test
            add(t, pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset), 'False', 'iffalse')
    return res


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, 'timeout'


def one(job):
    try:
        return one_(job)
    except Exception as e:
        return dict(id=job[0], file=job[1], result='error', text=repr(e))


def one_(job):
    mid, f, (a, z, new, kind, line, old), scale, checks = job
    d = '%s/r%d' % (ROOT, mid)
    v = '%s/v%d' % (ROOT, mid)
    rec = dict(id=mid, file=f, line=line, kind=kind, old=old[:200], new=new[:200])
    try:
        os.makedirs(d)
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s' % d, shell=True, check=True)
        p = os.path.join(d, 'dfols', f)
        src = open(p, 'rb').read()
        mut = src[:a] + new.encode() + src[z:]
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            rec['result'] = 'syntax'
            return rec
        open(p, 'wb').write(mut)
        rec['text'] = mut.decode().split('\n')[line - 1].strip()
        env = dict(os.environ, PYTHONPATH=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        rc, out = run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'dfols'], d, env, 90)
        if rc != 0:
            rec['result'] = 'tests'
            return rec
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
        env = dict(os.environ, PBT_REPO=d, PBT_SCALE=str(scale), PBT_WORKERS='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        rec['checks'] = {}
        t0 = time.time()
        for c in (checks or ORDER[f].split()):
            rc, out = run(['bash', os.path.join(v, 'check.sh'), c, 'quick'], v, env, 600)
            if rc == 1 and 'VIOLATION property=' + c in out:
                rec['result'] = 'caught'
                rec['by'] = c
                rec['msg'] = [l for l in out.split('\n') if l.startswith('  [')][:1]
                break
            if rc != 0:
                rec['checks'][c] = rc
        else:
            rec['result'] = 'SURVIVED'
        rec['t'] = round(time.time() - t0)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.1
    files = sys.argv[5:] or FILES
    os.makedirs(ROOT, exist_ok=True)
    rnd = random.Random(seed)
    pool = []
    for f in files:
        src = open('/repo/dfols/' + f).read()
        for c in candidates(src):
            pool.append((f, c))
    print(len(pool), 'candidate edits')
    rnd.shuffle(pool)
    jobs = [(seed * 100000 + i, f, c, scale, None) for i, (f, c) in enumerate(pool[:count])]
    with ThreadPoolExecutor(int(os.environ.get('MUT_PROCS', '7'))) as ex:
        for rec in (fu.result() for fu in as_completed([ex.submit(one, j) for j in jobs])):
            with open(out, 'a') as fo:
                fo.write(json.dumps(rec) + '\n')


if __name__ == '__main__':
    main()
