#!/opt/stempy-venv/bin/python
"""tools/mutate.py FILE N SEED [LANE]: small changes to one source file, one at a time, in a scratch copy; tells
which checks notice them. Survivors go to /tmp/mutants-<name>.txt (most are equivalent; look at each)."""
import ast
import os
import random
import re
import shutil
import subprocess
import sys

sys.dont_write_bytecode = True
V = '/verif'
CHECKS = {
    'stempy/electron.cpp': 'C04 C05 C07 C08 C21 C25', 'stempy/electronthresholds.cpp': 'C06 C04 C05',
    'stempy/image.cpp': 'C10 C12 C11 C18 C21', 'stempy/mask.cpp': 'C10 C11',
    'stempy/reader.cpp': 'C01 C02 C03 C04 C07 C08 C25', 'stempy/reader.h': 'C01 C02 C03 C04 C07 C08 C25',
    'stempy/electronthresholds.h': 'C06', 'stempy/electron.h': 'C04 C05 C06',
    'stempy/image.h': 'C10 C12', 'h5cpp/h5readwrite.cpp': 'C23', 'h5cpp/h5readwrite.h': 'C23 C09',
    'h5cpp/h5typemaps.h': 'C23', 'h5cpp/hidcloser.h': 'C23',
    'python/image.cpp': 'C05 C04 C10 C11 C12 C06 C21', 'python/io.cpp': 'C02 C01 C03 C05 C07',
    'python/pyreader.cpp': 'C08 C05 C10 C09', 'thirdparty/ThreadPool/ThreadPool.h': 'C07',
    'python/stempy/image/__init__.py': 'C17 C18 C19 C11 C10 C12 C05 C04 C06 C21',
    'python/stempy/io/__init__.py': 'C09 C16 C02 C01 C24 C10 C03 C25',
    'python/stempy/io/sparse_array.py': 'C13 C14 C15 C16 C24 C11 C18 C21',
    'python/stempy/io/compatibility.py': 'C16', 'python/stempy/contrib/__init__.py': 'C20',
    'python/stempy/pipeline/__init__.py': 'C22', 'python/stempy/utils.py': 'C21 C10 C11 C12',
}
CPP = [(r'(?<![<\w-])< (?![<=])', '<= '), (r' <= ', ' < '), (r'(?<![->])> (?![>=])', '>= '), (r' >= ', ' > '),
       (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '),
       (r' % ', ' / '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'&&', '||'), (r'\|\|', '&&'), (r'\b0\b', '1'),
       (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\.first\b', '.second'), (r'\.second\b', '.first'), (r'std::min', 'std::max'),
       (r'std::max', 'std::min'), (r'\bsize_t\b', 'uint16_t'), (r'\buint64_t\b', 'uint32_t'),
       (r'\buint32_t\b', 'uint16_t'), (r'\bdouble\b', 'float'), (r'\bunsigned\b', 'int16_t'), (r'\bint\b', 'int8_t'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\+= ', '= '),
       (r'\+= ', '-= '), (r'!(?=[\w(])', ''), (r'\+\+', '--'), (r'\bif \(', 'if (!'), (r'\bfloat\b', 'int'),
       (r'\bwidth\b', 'height'), (r'\bheight\b', 'width'), (r'std::unique_lock<[^;]*;', ';'), (r'std::ceil', ''),
       (r'\bpos\b', '0'), (r'\buint8_t\b', 'int8_t'), (r'\bstatic_cast<[^>]*>', ''), (r'&(?=\w+[,;)])', '')]


def cpp_mutants(text):
    out = []
    lines = text.split('\n')
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith(('//', '#', '*', 'template', 'using', 'namespace', 'throw', 'ss <<', 'std::cout')) \
                or 'std::ostringstream' in s or '"' in s:
            continue
        code = l.split('//')[0]
        for pat, rep in CPP:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                if pat == r'\bif \(':
                    if not code.rstrip().endswith(') {'):
                        continue
                    new = re.sub(r'\bif \((.*)\) \{', r'if (!(\1)) {', code)
                out.append((i, new))
        # Drop a statement
        if re.match(r'^[\w\.\->:\[\]\(\)\*&, +<>=]+;$', s) and not re.match(
                r'^(auto|const|int|unsigned|uint|size_t|double|float|bool|std::\w+(<.*>)? \w|return|[A-Z]\w+ \w|[A-Z]\w+<)', s) \
                and not lines[i - 1].strip().endswith((',', '=', '(', '<<', '&&', '||', '+')):
            out.append((i, l.replace(s, ';')))
    res = []
    for i, new in out:
        if new != lines[i]:
            t = list(lines)
            t[i] = new
            res.append((i + 1, lines[i].strip(), new.strip(), '\n'.join(t)))
    return res


class Py(ast.NodeTransformer):
    """Applies the k-th mutation."""

    def __init__(self, k):
        self.k, self.n, self.line, self.what = k, 0, 0, None

    def hit(self, node, what):
        self.n += 1
        if self.n - 1 == self.k:
            self.line, self.what = getattr(node, 'lineno', 0), what
            return True
        return False

    CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt],
           ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
           ast.NotIn: [ast.In]}
    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult, ast.FloorDiv],
           ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr],
           ast.BitOr: [ast.BitAnd]}
    NAMES = {'uint32': ['uint16', 'int32'], 'uint64': ['uint32'], 'int64': ['int32'], 'float64': ['float32'],
             'min': ['max'], 'max': ['min'], 'maximum': ['minimum'], 'any': ['all'], 'all': ['any'],
             'sum': ['max'], 'append': ['insert'], 'unique': ['sort'], 'zeros': ['ones'], 'ones': ['zeros'],
             'scan_shape': ['frame_shape'], 'frame_shape': ['scan_shape'], 'ceil': ['floor'], 'floor': ['ceil'],
             'sin': ['cos'], 'cos': ['sin']}

    def visit_Compare(self, n):
        self.generic_visit(n)
        for j, o in enumerate(n.ops):
            for new in self.CMP.get(type(o), []):
                if self.hit(n, f'{type(o).__name__}->{new.__name__}'):
                    n.ops[j] = new()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        for new in self.BIN.get(type(n.op), []):
            if self.hit(n, f'{type(n.op).__name__}->{new.__name__}'):
                n.op = new()
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.hit(n, 'and<->or'):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        for j in range(len(n.values)):
            if self.hit(n, f'drop operand {j}'):
                rest = n.values[:j] + n.values[j + 1:]
                return rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Not, ast.USub)) and self.hit(n, 'drop ' + type(n.op).__name__):
            return n.operand
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit(n, 'not ' + repr(n.value)):
                return ast.copy_location(ast.Constant(not n.value), n)
        elif isinstance(n.value, int):
            for d in (1, -1):
                if self.hit(n, f'{n.value}->{n.value + d}'):
                    return ast.copy_location(ast.Constant(n.value + d), n)
        elif n.value is None and self.hit(n, 'None->0'):
            return ast.copy_location(ast.Constant(0), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        for new in self.NAMES.get(n.attr, []):
            if self.hit(n, f'{n.attr}->{new}'):
                n.attr = new
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        for j, k in enumerate(n.keywords):
            if self.hit(n, f'drop keyword {k.arg}'):
                n.keywords.pop(j)
                return n
        if isinstance(n.func, ast.Attribute) and not n.args and self.hit(n, f'drop .{n.func.attr}()'):
            return n.func.value
        if len(n.args) == 1 and not n.keywords and self.hit(n, f'drop call {ast.unparse(n.func)}'):
            return n.args[0]
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit(n, 'if expression: then'):
            return n.body
        if self.hit(n, 'if expression: else'):
            return n.orelse
        return n

    def visit_Slice(self, n):
        self.generic_visit(n)
        for f in ('lower', 'upper', 'step'):
            if getattr(n, f) is not None and self.hit(getattr(n, f), 'drop slice ' + f):
                setattr(n, f, None)
        return n

    def statements(self, body):
        out = []
        for s in body:
            doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            keep = isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)) or doc
            if doc:
                out.append(s)
                continue
            if not keep and self.hit(s, 'drop: ' + ast.unparse(s).split('\n')[0]):
                out.append(ast.copy_location(ast.Pass(), s))
                continue
            if isinstance(s, ast.If) and self.hit(s, 'always: ' + ast.unparse(s.test)):
                out += s.body
                continue
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def body(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.args.defaults if isinstance(n, ast.FunctionDef) else []:
                pass
        for f, v in ast.iter_fields(n):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                setattr(n, f, self.statements(v))
            elif isinstance(v, list):
                setattr(n, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(n, f, self.visit(v))
        return n

    visit_Module = visit_FunctionDef = visit_ClassDef = visit_If = visit_For = visit_While = visit_With = body
    visit_Try = visit_ExceptHandler = body


def py_mutants(text):
    p = Py(-1)
    p.visit(ast.parse(text))
    res = []
    lines = text.split('\n')
    for k in range(p.n):
        m = Py(k)
        t = m.visit(ast.parse(text))
        res.append((m.line, lines[m.line - 1].strip(), m.what, ast.unparse(ast.fix_missing_locations(t))))
    return res


def main():
    name, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    lane = sys.argv[4] if len(sys.argv) > 4 else '0'
    repo, ver, build = f'/tmp/mut{lane}-repo', f'/tmp/mut{lane}-verif', f'/tmp/mut{lane}-build'
    for d in (repo, ver):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    os.makedirs(ver)
    for x in ('run.py', 'vp', 'checks', 'harness', 'known_findings.txt', 'corpus'):
        subprocess.run(['cp', '-a', f'{V}/{x}', ver])
    path = os.path.join(repo, name)
    text = open(path).read()
    muts = (py_mutants if name.endswith('.py') else cpp_mutants)(text)
    random.Random(seed).shuffle(muts)
    log = open('/tmp/mutants-' + name.replace('/', '_') + '.txt', 'a')
    print(name, len(muts), 'mutants', file=log, flush=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD_INCR=build, VERIF_FAST='1', VERIF_SEED='1', VERIF_TIER='quick')
    env.setdefault('VERIF_JOBS', '6')
    scale = env.get('MUT_SCALE', '0.3')
    killed = 0
    try:
        for i, (line, old, new, body) in enumerate(muts[:n]):
            open(path, 'w').write(body)
            by = None
            for c in CHECKS[name].split():
                if c in env.get('MUT_SKIP', ''):
                    continue
                try:
                    r = subprocess.run(['/opt/stempy-venv/bin/python', 'run.py', c, '--scale', scale], cwd=ver, env=env,
                                       capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    by = f'{c} rc={rc}'
                    break
            killed += by is not None
            print(f'{"killed " + by if by else "SURVIVED"} | {line}: {old[:150]} | {new[:150]}', file=log, flush=True)
    finally:
        for d in (repo, ver):
            shutil.rmtree(d, ignore_errors=True)
    print(f'{killed} of {min(n, len(muts))} noticed', file=log, flush=True)


main()
