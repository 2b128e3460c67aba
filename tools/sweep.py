#!/usr/bin/env python3
"""Mutation sweep (development tool, not a registered check; run it on copies of /repo and /verif).

  sweep.py gen OUT.json SEED N-PER-FILE [file-regex]     choose mutants that still pass clang -fsyntax-only
  sweep.py run LIST.json LOG                             run the mutants one by one (several workers may share LOG)
"""
import fcntl, json, os, random, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')

MAP = {
    'src/cosim/execution.cpp': 'C04 C05 C03 C22 C07 C08',
    'src/cosim/algorithm/fixed_step_algorithm.cpp': 'C01 C02 C08 C07',
    'src/cosim/slave_simulator.cpp': 'C06 C07 C08',
    'src/cosim/manipulator/override_manipulator.cpp': 'C09',
    'src/cosim/manipulator/scenario_manager.cpp': 'C10',
    'src/cosim/scenario_parser.cpp': 'C11',
    'src/cosim/observer/time_series_observer.cpp': 'C12',
    'src/cosim/observer/last_value_observer.cpp': 'C13',
    'src/cosim/observer/slave_value_provider.cpp': 'C13',
    'src/cosim/observer/file_observer.cpp': 'C14',
    'src/cosim/uri.cpp': 'C15 C16 C17',
    'src/cosim/function/utility.cpp': 'C19',
    'src/cosim/function/linear_transformation.cpp': 'C18 C19',
    'src/cosim/function/vector_sum.cpp': 'C18 C19',
    'include/cosim/function/utility.hpp': 'C19',
    'src/cosim/system_structure.cpp': 'C20 C21 C22',
    'src/cosim/file_cache.cpp': 'C23',
    'src/cosim/utility/concurrency.cpp': 'C24',
    'src/cosim/utility/concurrency.hpp': 'C24',
    'src/cosim/utility/thread_pool.hpp': 'C25',
    'src/cosim/utility/zip.cpp': 'C26',
    'src/cosim/timer.cpp': 'C27',
    'include/cosim/time.hpp': 'C28',
    'src/cosim/utility/filesystem.cpp': 'C29',
    'src/cosim/orchestration.cpp': 'C30',
    'src/cosim/osp_config_parser.cpp': 'C31',
    'src/cosim/ssp/ssp_loader.cpp': 'C32',
    'src/cosim/ssp/ssp_parser.cpp': 'C32',
}
INC = ['-I/repo/include', '-I/repo/src', '-I' + ROOT + '/build/generated', '-I' + ROOT + '/harness']


def mutate(line):
    """All (description, new line) mutants of one source line."""
    s = line.rstrip('\n')
    code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', s)
    code = re.sub(r"'(\\.|[^'\\])'", lambda m: "'" + '_' * (len(m.group(0)) - 2) + "'", code)
    code = code.split('//')[0]
    t = code.strip()
    if not t or t.startswith(('#', '*', '/*', 'using ', 'namespace', 'template', 'case ', 'static_assert', 'typedef', 'friend', 'public', 'private', 'COSIM_ASSERT', 'assert(', 'BOOST_LOG')):
        return
    def sub(rx, to, d):
        for m in re.finditer(rx, code):
            new = to(m) if callable(to) else to
            a, b = m.span(1) if m.re.groups else m.span()
            if '_' * 3 in code[a:b]:
                continue
            yield '%s -> %s' % (s[a:b].strip(), new.strip()), s[:a] + new + s[b:]
    for rx, to in [(r'( < )', ' <= '), (r'( <= )', ' < '), (r'( > )', ' >= '), (r'( >= )', ' > '), (r'( == )', ' != '), (r'( != )', ' == '), (r'( && )', ' || '), (r'( \|\| )', ' && '),
                   (r'( \+ )', ' - '), (r'( - )', ' + '), (r'( \* )', ' / '), (r'( / )', ' * '), (r'( \+= )', ' -= '), (r'(\+\+)', '--'), (r'\bif \((!)', ''), (r'\b(true)\b', 'false'), (r'\b(false)\b', 'true'),
                   (r'(?<![\w.])(0)(?![\w.])', '1'), (r'(?<![\w.])(1)(?![\w.])', '0'), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'std::(min|max)\b', lambda m: 'max' if m.group(1) == 'min' else 'min'),
                   (r'\b(break;)', 'continue;'), (r'\b(continue;)', 'break;'), (r'\b(upper_bound|lower_bound)\b', lambda m: 'lower_bound' if m.group(1)[0] == 'u' else 'upper_bound'),
                   (r'\b(rbegin|begin)\(\)', lambda m: 'begin' if m.group(1)[0] == 'r' else 'rbegin'), (r'\b(front|back)\(\)', lambda m: 'front' if m.group(1)[0] == 'b' else 'back'),
                   (r'\b(find_first_of|find_last_of)\b', lambda m: 'find_last_of' if 'first' in m.group(1) else 'find_first_of'), (r'\b(push_back)\b', lambda m: 'push_front'), (r'\bif \(([^;{]*)\) ?\{?$', 'true'), (r'\bif \(([^;{]*)\) ?\{?$', 'false'),
                   (r'\? (.*) : .*;', None)]:
        if to is None:
            continue
        yield from sub(rx, to, '')
    if t.endswith(';') and not re.match(r'(return|throw|const |auto |std::|int |double |bool |break|continue|[\w:<>]+ [\w]+(;| =|\{|\())', t) and t.count('(') == t.count(')') and re.match(r'[\w\*\+\-]', t) and re.search(r'[(=]|\+\+', t):
        yield 'delete: ' + t[:80], s.replace(s.strip(), ';')


def gen1(f, seed, n):
    rnd = random.Random(str(seed) + f)
    lines = open('/repo/' + f).read().split('\n')
    ms, res = [], []
    for i, l in enumerate(lines):
        if re.match(r'\s*(/?\*|///)', l) or (f.endswith('.hpp') and not l.startswith('    ')):
            continue
        ms += [(i, d, new) for d, new in mutate(l)]
    rnd.shuffle(ms)
    used, tried = set(), 0
    for i, d, new in ms:
        if len(res) >= n or tried > 4 * n:
            break
        if i in used and rnd.random() < 0.7:
            continue
        ls = list(lines); ls[i] = new
        p = '/tmp/sweep/m_%s_%s' % (f.split('/')[-2], os.path.basename(f))
        if f.endswith('.cpp'):
            tried += 1
            open(p, 'w').write('\n'.join(ls))
            r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I/repo/' + os.path.dirname(f)] + INC + ['-DBOOST_ALL_DYN_LINK', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                if os.environ.get('DBG'): print(f, i, d, r.stdout[:300])
                continue
        used.add(i)
        res.append(dict(file=f, line=i, old=lines[i], new=new, what=d))
    print(f, len(ms), len(res), flush=True)
    return res


def gen(out, seed, n, rx='.'):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        res = [m for r in ex.map(lambda f: gen1(f, seed, int(n)), [f for f in MAP if re.search(rx, f)]) for m in r]
    random.Random(seed).shuffle(res)
    json.dump(res, open(out, 'w'), indent=0)
    print(len(res))


def one(pid):
    import check
    c = check.Check(pid, 'quick', 1)
    c.prepare_ir()
    if c.notes:
        print('NOTES', c.notes[:2])
    inc = 0
    for r in c.p['runs']:
        if r.get('thorough_only') or r['harness'] not in c.linked:
            continue
        opts, j, err = c.symexec(r)
        if err:
            print('ERR', r['entry'], err[:200]); continue
        inc += j['incomplete']
        if j['bugs']:
            b = j['bugs'][0]
            print('BUG %s %s %s' % (r['entry'], b['kind'], b['msg'][:150]))
            return 1
        miss = [l for l in r.get('reach', []) if not j['reach'].get(l)]
        if miss:
            print('MISS', r['entry'], miss)
    print('NONE incomplete=%d' % inc)
    return 0


def run(lst, log):
    ms = json.load(open(lst))
    while True:
        with open(log + '.next', 'a+') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            f.seek(0); k = int(f.read() or 0)
            f.truncate(0); f.write(str(k + 1))
        if k >= len(ms):
            return
        m = ms[k]
        p = '/repo/' + m['file']
        src = open(p).read()
        ls = src.split('\n')
        assert ls[m['line']] == m['old'], m
        ls[m['line']] = m['new']
        open(p, 'w').write('\n'.join(ls))
        t = time.time(); outs = []; caught = ''
        try:
            for pid in MAP[m['file']].split():
                r = subprocess.run([sys.executable, __file__, 'one', pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                o = [l for l in r.stdout.splitlines() if l.startswith(('BUG', 'NONE', 'NOTES', 'ERR', 'MISS', 'Trace'))]
                outs.append(pid + ': ' + ' / '.join(o)[:300])
                if any(l.startswith('BUG') for l in o):
                    caught = pid; break
        finally:
            open(p, 'w').write(src)
        with open(log, 'a') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            f.write('%s %d %s:%d [%s] %.0fs\n      - %s\n      + %s\n      %s\n' % ('CAUGHT' if caught else 'SURVIVED', k, m['file'], m['line'] + 1, m['what'], time.time() - t, m['old'].strip(), m['new'].strip(), ' | '.join(outs)[-600:]))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'gen':
        gen(*a[2:])
    elif a[1] == 'run':
        run(*a[2:])
    else:
        sys.exit(one(a[2]))
