"""Random small changes to the library: which checks notice them?
   mutants.py OUT.jsonl N SEED [file...]   tries N mutants that build, pass the 30 tests and change the generated code."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['C%02d' % i for i in range(1, 33)]
FIRST = {'dict.c': ['C18', 'C20', 'C05', 'C06', 'C07'], 'array.c': ['C17', 'C05', 'C07'], 'lexer.c': ['C23', 'C01', 'C08', 'C22'], 'arena.c': ['C24', 'C07', 'C08'],
         'std.c': ['C19', 'C17', 'C18', 'C25', 'C27', 'C28'], 'pos.c': ['C22', 'C08'], 'util.c': ['C22', 'C08', 'C27'], 'tiny.c': []}
TINY = [('Disasm', ['C21']), ('GetFileLine|AddPCFile', ['C22', 'C13']), ('Parse|Resolve|IsTagAss|GetTag|GetField|Struct', ['C10', 'C11', 'C04', 'C08', 'C03']), ('Compile|Generate|Patch', ['C02', 'C01', 'C12', 'C09', 'C03']),
        ('Register|Bind|Declare|Reference|CloseScope|Symbol', ['C16', 'C03', 'C09', 'C26']), ('Mark|Sweep|Garbage|Delete|NewObject|Protect', ['C05', 'C06']), ('Exec|DoP|Read', ['C01', 'C02', 'C15', 'C26']),
        ('CallFunction|Thread|Global', ['C15', 'C13', 'C03'])]


def sh(cmd, timeout=1200, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, 'timeout', '')


REL = ['<', '<=', '>', '>=', '==', '!=']


def mutate(line, r):
    """One small change of a line of C, or None."""
    code = line.split('//')[0]
    if not code.strip() or code.lstrip().startswith(('#', 'assert', '/', '*', 'static assert')) or 'assert(' in code:
        return None
    ops = []
    for m in re.finditer(r'(?<![<>=!\-+&|])(<=|>=|==|!=|<|>)(?![<>=])', code):
        if "'" in code[max(0, m.start() - 1):m.end() + 1] or '"' in code[max(0, m.start() - 1):m.end() + 1] or '->' in code[m.start() - 1:m.end()] or 'include' in code:
            continue
        ops.append((m.start(), m.end(), r.choice([x for x in REL if x != m.group(0)])))
    for m in re.finditer(r'&&|\|\|', code):
        ops.append((m.start(), m.end(), '||' if m.group(0) == '&&' else '&&'))
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
        v = int(m.group(1))
        ops.append((m.start(), m.end(), str(r.choice([v + 1, max(0, v - 1) if v else 1]))))
    for m in re.finditer(r' ([+\-*/%]) ', code):
        ops.append((m.start(), m.end(), ' %s ' % r.choice([x for x in '+-' if x != m.group(1)])))
    for m in re.finditer(r'\+\+|--', code):
        ops.append((m.start(), m.end(), '--' if m.group(0) == '++' else '++'))
    for m in re.finditer(r'[+\-]= ', code):
        ops.append((m.start(), m.end(), '= '))
    for m in re.finditer(r'\b(true|false)\b', code):
        ops.append((m.start(), m.end(), 'false' if m.group(0) == 'true' else 'true'))
    for m in re.finditer(r'\bif \((.*)\) ?(\{|\S.*;)$', code.rstrip()):
        ops.append((m.start(1), m.end(1), '!(%s)' % m.group(1)))
        ops.append((m.start(1), m.end(1), r.choice(['0', '1'])))
        parts = re.split(r' (?:&&|\|\|) ', m.group(1))
        if len(parts) == 2 and m.group(1).count('(') == m.group(1).count(')') and all(p.count('(') == p.count(')') for p in parts):
            ops.append((m.start(1), m.end(1), r.choice(parts)))
    s = code.strip()
    if re.match(r'^[\w>\-.\[\]&*()+ ]+(\(.*\)| [-+|&]?= .*|\+\+|--);$', s) and not re.match(r'^(const |static |unsigned |int |char |bool |Tiny_\w+ \*?\w+ |size_t |return|Word |void )', s):
        i = code.index(s)
        ops += [(i, i + len(s), ';')] * 2
    if s in ('break;', 'continue;', 'return;'):
        i = code.index(s)
        ops.append((i, i + len(s), ';'))
    m = re.search(r'\breturn (.+);', code)
    if m and m.group(1) in ('true', 'false', 'NULL', '0', '-1'):
        pass
    if not ops:
        return None
    a, b, t = r.choice(ops)
    return code[:a] + t + code[b:] + ('' if code == line else '\n' if not code.endswith('\n') else '')


def func_at(lines, n):
    for k in range(n, -1, -1):
        m = re.match(r'^[A-Za-z].*?(\w+)\([^;]*$', lines[k])
        if m:
            return m.group(1)
    return ''


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or ['tiny.c'] * 6 + ['std.c'] * 3 + ['lexer.c', 'dict.c', 'array.c', 'util.c', 'arena.c', 'pos.c']
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    for e in ('tiny', 'test'):
        shutil.copytree('/repo/' + e, d + '/' + e)
    src = {f: open('/repo/tiny/src/' + f, errors='replace').read().split('\n') for f in set(files)}

    def asm(f):
        q = sh(['gcc', '-O1', '-w', '-S', '-D_GNU_SOURCE', '-Itiny/include', 'tiny/src/' + f, '-o', '-'], cwd=d)
        return q.stdout if q.returncode == 0 else None
    base = {f: asm(f) for f in src}
    done = 0
    seen = set()
    try:
        while done < count:
            f = r.choice(files)
            n = r.randrange(len(src[f]))
            new = mutate(src[f][n], r)
            if new is None or (f, n, new) in seen:
                continue
            seen.add((f, n, new))
            fn = func_at(src[f], n)
            if fn in ('DebugBreak', 'Lib_Sleep', 'Lib_Time', 'Exit', 'Lib_PerfCount', 'Lib_PerfFreq', 'Rand', 'SeedRand'):
                continue
            lines = list(src[f])
            lines[n] = new
            p = d + '/tiny/src/' + f
            open(p, 'w').write('\n'.join(lines))
            try:
                a = asm(f)
                if a is None or a == base[f]:
                    continue
                q = sh('gcc -g -w -D_GNU_SOURCE -Itest/include -Itiny/include tiny/src/*.c test/src/*.c -o %s/t -lm && cd test && timeout 20 %s/t' % (d, d), shell=True, cwd=d)
                m = re.findall(r'(ALL TESTS PASSED|SOME TESTS FAILED) \((\S+)\)', q.stdout)
                if q.returncode or not m or m[-1][0] != 'ALL TESTS PASSED':
                    continue
                done += 1
                order = list(FIRST[f])
                if f == 'tiny.c':
                    for pat, cs in TINY:
                        if re.search(pat, fn):
                            order += cs
                order = list(dict.fromkeys(order + ALL))
                t0 = time.time()
                caught, odd = None, []
                for c in order:
                    q = sh([sys.executable, 'check.py', c, 'quick'], cwd=VERIF, env=dict(os.environ, VT_REPO=d))
                    if q.returncode == 1 and 'VIOLATION' in q.stdout:
                        caught = c
                        break
                    if q.returncode:
                        odd.append((c, q.returncode, q.stdout[-300:]))
                rec = dict(file=f, line=n + 1, func=fn, old=src[f][n].strip(), new=new.strip(), caught=caught, odd=odd, secs=round(time.time() - t0))
                open(out, 'a').write(json.dumps(rec) + '\n')
                print('%-6s %s:%d %s | %s  =>  %s' % (caught, f, n + 1, fn, rec['old'], rec['new']), odd or '', flush=True)
            finally:
                open(p, 'w').write('\n'.join(src[f]))
    finally:
        shutil.rmtree(d)


main()
