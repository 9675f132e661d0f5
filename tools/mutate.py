#!/usr/bin/env python3
"""Development aid (no check uses it): mutation sampling of /repo/src.
usage: mutate.py WORKDIR [-n MUTANTS] [-s SCALE] [-j JOBS] [--seed N] [FILES...]
Mutants that compile and pass the repository's tests are run against the
checks relevant to the file; survivors are listed in WORKDIR/results.jsonl."""
import argparse, glob, hashlib, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
R = '/repo'; V = '/verif'
SAN = "-fsanitize=address,bounds,signed-integer-overflow,integer-divide-by-zero,return,unreachable -fno-sanitize-recover=all".split()
CF = ['-O1', '-g1', '-fno-omit-frame-pointer'] + SAN
GRAM = 'C01 C02 C03 C16 C12 C13 C11 C21 C17'.split()
MAP = {'node_int': 'C07 C16 C13 C17', 'node_re': 'C06 C16 C13 C12', 'node_re_lex': 'C06 C01 C16 C13 C12 C02', 'node_sh_lex': 'C05 C03 C13 C16 C12 C18',
 'node_expr': 'C08 C12 C13', 'node_cmd': 'C09 C12 C13 C16', 'node_cond': 'C10 C13 C16 C12 C01', 'node_dynamic': 'C01 C03 C13 C02 C11 C12',
 'node_file': 'C20 C13', 'node_helper': 'C16 C13 C12', 'node': 'C12 C16 C21 C19 C13 C11', 'parse': 'C02 C01 C13 C11 C21 C10', 'complete': 'C04 C03 C13 C21 C11',
 'config': 'C16 C13 C17', 'dict': 'C14 C13', 'htable': 'C14 C13', 'murmurhash': 'C14', 'strvec': 'C15 C13 C02 C05', 'vec': 'C15 C13', 'string': 'C15 C13',
 'yaml': 'C17', 'editline': 'C18', 'init': 'C19', 'malloc': 'C19 C13', 'log': 'C19'}
REL = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), ('&&', '||'), ('||', '&&'),
 (' + 1', ''), (' - 1', ''), (' + 1', ' + 2'), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('return -1', 'return 0'), ('return 0', 'return -1'), ('NOMATCH', 'NOMATCH - 1'),
 (' = 0', ' = 1'), (' = 1', ' = 0'), (' = NULL', ' = (void *)(long)ENULL'), ('true', 'false'), ('false', 'true'), ('goto fail', 'goto out'), ('goto out', 'goto fail'), (', 0)', ', 1)'), (', 1)', ', 0)'), ('* ', '')]
def cands(f):
    out = []
    skip = False
    L = open(f).read().split('\n')
    depth = 0
    for i, l in enumerate(L):
        if 'LCOV_EXCL_START' in l: skip = True
        if 'LCOV_EXCL_STOP' in l: skip = False
        s = l.strip()
        infn = l.startswith('\t')
        if skip or not infn or s.startswith(('//', '*', '/*', '#', '"', 'EC_LOG', 'assert', 'ec_assert')) or not s or 'EC_LOG' in l: continue
        for a, b in REL:
            if 'ENULL' in b: continue
            for m in re.finditer(re.escape(a), l):
                n = l[:m.start()] + b + l[m.end():]
                if a == '== ' : continue
                if n != l: out.append((i, n, a.strip() + '->' + b.strip()))
        m = re.match(r'^(\t+)((else )?if|while) \((.*)\)( \{)?$', l)
        if m: out.append((i, '%s%s (!(%s))%s' % (m.group(1), m.group(2), m.group(4), m.group(5) or ''), 'negate'))
        m = re.match(r'^(\t+)((else )?if) \((.*)\)( \{)?$', l)
        if m:
            out.append((i, '%s%s (0 && (%s))%s' % (m.group(1), m.group(2), m.group(4), m.group(5) or ''), 'never'))
        if re.match(r'^\t+[^{}]*;$', l) and not re.match(r'^\t+(const |struct |char |int |size_t |unsigned |enum |static |bool |return|case|default|u?int\d+_t |ssize_t |FILE |ec_|void )[^=(]*(=.*)?;$', l):
            prev = L[i - 1]
            if prev.rstrip().endswith((';', '{', '}', ':')) or re.match(r'^\t+(if|else|while|for)\b.*\)?$', prev):
                out.append((i, re.match(r'^\t+', l).group(0) + ';', 'delete'))
    return L, out
def run(cmd, t, **k):
    try: p = subprocess.run(cmd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k); return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired: return 124, 'timeout'
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('work'); ap.add_argument('-n', type=int, default=200); ap.add_argument('-s', type=float, default=0.1)
    ap.add_argument('-j', type=int, default=8); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--redo', default=''); ap.add_argument('files', nargs='*')
    a = ap.parse_args()
    W = os.path.abspath(a.work); os.makedirs(W + '/obj', exist_ok=True)
    inc = ['-I' + R + '/include', '-I' + R + '/src']
    srcs = sorted(glob.glob(R + '/src/*.c'))
    def comp(src, o): return run(['clang', '-c', '-std=gnu99', '-D_GNU_SOURCE', '-w'] + CF + ['-fsanitize-coverage=inline-8bit-counters'] + inc + [src, '-o', o], 60)
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda s: comp(s, W + '/obj/' + os.path.basename(s)[:-2] + '.o'), srcs))
    comp(R + '/test/test.c', W + '/test.o')
    for f in sorted(glob.glob(V + '/props/C*.cpp')):
        subprocess.run(['bash', V + '/bin/check', os.path.basename(f)[:3]], env=dict(os.environ, BUILD_ONLY='1'), check=True)
    hd = max(glob.glob(V + '/build/h-*'), key=os.path.getmtime)
    shutil.rmtree(W + '/h', ignore_errors=True); shutil.copytree(hd, W + '/h')
    muts = []
    for s in srcs:
        b = os.path.basename(s)[6:-2]
        if a.files and b not in a.files: continue
        if b in ('assert', 'test'): continue
        L, c = cands(s)
        for i, n, k in c: muts.append((s, i, n, k, L))
    print(len(muts), 'candidates', file=sys.stderr)
    random.Random(a.seed).shuffle(muts)
    res = W + '/results.jsonl'
    done = {json.loads(l)['key'] for l in open(res)} if os.path.exists(res) else set()
    muts = muts[:a.n]
    def one(m):
        s, i, n, kind, L = m
        b = os.path.basename(s)[6:-2]
        key = hashlib.sha1(('%s:%d:%s' % (b, i, n)).encode()).hexdigest()[:12]
        if key in done: return
        d = W + '/m-' + key; os.makedirs(d + '/o', exist_ok=True)
        r = dict(key=key, file=b, line=i + 1, kind=kind, old=L[i].strip(), new=n.strip())
        src = d + '/ecoli_%s.c' % b
        open(src, 'w').write('\n'.join(L[:i] + [n] + L[i + 1:]))
        rc, o = comp(src, d + '/x.o')
        if rc: r['status'] = 'nobuild'
        else:
            objs = [d + '/x.o' if os.path.basename(x) == 'ecoli_%s.o' % b else x for x in sorted(glob.glob(W + '/obj/*.o'))]
            rc, o = run(['clang++'] + CF + ['-o', d + '/t', W + '/test.o'] + objs + ['-lyaml', '-ledit'], 60)
            rc, o = run([d + '/t'], 40, cwd=d)
            if rc: r['status'] = 'tests'
            else:
                r['status'] = 'SURVIVES'; r['ran'] = []
                for cid in MAP.get(b, ' '.join(GRAM)).split():
                    po = glob.glob(W + '/h/%s-*.o' % cid)[0]
                    rc, o = run(['clang++'] + CF + ['-o', d + '/c'] + [W + '/h/%s.o' % x for x in ('engine', 'ec', 'model', 'user')] + [po] + objs + ['-lyaml', '-ledit', '-fuse-ld=lld'] if False else
                        ['clang++'] + CF + ['-o', d + '/c'] + [W + '/h/%s.o' % x for x in ('engine', 'ec', 'model', 'user')] + [po] + objs + ['-lyaml', '-ledit'], 120)
                    rc, o = run([d + '/c', '--evidence', d + '/e.json', '--out', d + '/o', '--jobs', '1', '--scale', str(a.s), '--seed', '1'], 400, cwd=d, env=dict(os.environ, LC_ALL='C.UTF-8', TZ='UTC'))
                    r['ran'].append([cid, rc])
                    if rc == 1: r['status'] = cid; break
        shutil.rmtree(d)
        with open(res, 'a') as f: f.write(json.dumps(r) + '\n')
        print(r['status'], b, i + 1, kind, '|', L[i].strip(), '=>', n.strip(), flush=True)
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, muts))
    c = {}
    for l in open(res): k = json.loads(l)['status']; c[k] = c.get(k, 0) + 1
    print(c)
main()
