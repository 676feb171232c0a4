#!/usr/bin/env python3
"""Mutation study of the checks (not a registered check).

usage: mutate.py OUT.jsonl WORKERS [file ...]

Makes small mechanical changes to tezc/sc, keeps those that compile and pass
the module's own tests, and runs the checks of the properties of that module
against each. Every survivor is either a change of no behaviour or a hole.
Works in copies under /tmp/mut.
"""
import json, os, random, re, subprocess, sys, threading, time
PROPS = {
    'array/sc_array.h': ['C01'], 'queue/sc_queue.h': ['C02'], 'map/sc_map.c': ['C03'],
    'heap/sc_heap.c': ['C04'], 'string/sc_str.c': ['C05'], 'buffer/sc_buf.c': ['C06', 'C07'],
    'timer/sc_timer.c': ['T01', 'T02'], 'time/sc_time.c': ['T03'],
    'condition/sc_cond.c': ['M01'], 'mutex/sc_mutex.c': ['M02'], 'thread/sc_thread.c': ['M03'],
    'logger/sc_log.c': ['L01', 'L03', 'L02'], 'signal/sc_signal.c': ['S03', 'S01', 'S02'],
    'socket/sc_sock.c': ['N02', 'N01', 'N03', 'N04', 'N05', 'N06', 'N07'],
    'memory-map/sc_mmap.c': ['F01', 'F02'], 'ini/sc_ini.c': ['F03'], 'perf/sc_perf.c': ['P01'],
    'uri/sc_uri.c': ['R01', 'M04'], 'crc32/sc_crc32.c': ['M04'], 'sc/sc.c': ['M04'], 'option/sc_option.c': ['M04'],
    'linked-list/sc_list.c': ['M04'],
}
TESTS = {'array': 'sc_array_test', 'queue': 'sc_queue_test'}


def sh(c, t=300, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, 'timeout')


def active(path):
    """lines that the Linux build compiles"""
    if path.endswith('.h'):
        return None
    r = sh("gcc -E -D_GNU_SOURCE -DHAVE_BACKTRACE -I/repo/%s %s" % (os.path.dirname(path), '/repo/' + path))
    on, cur, f = set(), 0, False
    for l in r.stdout.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            cur = int(m.group(1)) - 1
            f = m.group(2) == '/repo/' + path
            continue
        cur += 1
        if f and l.strip():
            on.add(cur)
    return on


def mutants(path):
    lines = open('/repo/' + path).read().split('\n')
    on = active(path)
    out = []
    for i, l in enumerate(lines):
        macro = l.rstrip().endswith('\\')
        if on is not None and (i + 1) not in on and not macro:
            continue
        s = l.strip()
        if not s or s.startswith(('//', '*', '/*', '#include', '#if', '#el', '#en', '#pragma', '#undef')):
            continue
        tail = ''
        body = l
        if path.endswith('.h') and not macro:
            continue
        if macro:
            if i < 30:
                continue
            body = l.rstrip()[:-1].rstrip()
            tail = ' \\'
            s = body.strip()
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '\0' * len(m.group(0)), body)

        def add(new, op):
            if new != body:
                out.append((i, new + tail, op))

        def sub(rx, rep, op):
            for m in re.finditer(rx, code):
                r = rep(m) if callable(rep) else rep
                add(body[:m.start()] + r + body[m.end():], op)
        # statements
        if re.match(r'^[\w(*&].*;$', s) and not re.match(r'^(return|break|continue|goto|case|default|const|static|struct|int|char|void|size_t|uint\d+_t|int\d+_t|bool|unsigned|long|double|va_list|ssize_t|socklen_t|FILE|time_t|pthread_\w+_t|sc_\w+_t|enum|DWORD|BOOL)\b(?!\()', s) and code.count('(') == code.count(')'):
            add(re.sub(r'\S.*', ';', body), 'delete')
        if re.match(r'^(break|continue|goto \w+);$', s):
            add(re.sub(r'\S.*', ';', body), 'delete')
        m = re.match(r'^return (.*);$', s)
        if m:
            v = m.group(1)
            alt = {'0': ['-1'], '-1': ['0'], 'true': ['false'], 'false': ['true'], 'NULL': []}.get(v, ['0'] if re.match(r'^(rc|rv|n|-?\w+)$', v) else [])
            for a in alt:
                add(body.replace('return ' + v, 'return ' + a), 'return')
        # conditions
        m = re.match(r'^(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$', code)
        if m:
            a, b = len(m.group(1)), len(m.group(1)) + len(m.group(2))
            c = body[a:b]
            add(body[:a] + '!(' + c + ')' + body[b:], 'negate')
            if 'while' not in m.group(1):
                add(body[:a] + '1 || (' + c + ')' + body[b:], 'always')
            add(body[:a] + '0 && (' + c + ')' + body[b:], 'never')
            for op in ('&&', '||'):
                parts = m.group(2).split(op)
                if len(parts) == 2 and m.group(2).count('(') == m.group(2).count(')'):
                    x = a + len(parts[0])
                    if parts[0].count('(') == parts[0].count(')'):
                        add(body[:a] + body[a:x].strip() + body[b:], 'drop-right')
                        add(body[:a] + body[x + 2:b].strip() + body[b:], 'drop-left')
        # operators
        rel = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['==']}
        for m in re.finditer(r' (<=|>=|==|!=|<|>) ', code):
            for r in rel[m.group(1)]:
                add(body[:m.start()] + ' ' + r + ' ' + body[m.end():], 'relation')
        sub(r' && ', ' || ', 'and-or')
        sub(r' \|\| ', ' && ', 'or-and')
        sub(r'(?<=[\w)\]]) \+ (?=[\w(])', ' - ', 'plus')
        sub(r'(?<=[\w)\]]) - (?=[\w(])', ' + ', 'minus')
        sub(r'\+\+', '--', 'inc')
        sub(r'(?<!-)--(?!-)', '++', 'dec')
        sub(r' \+= ', ' -= ', 'plus-eq')
        sub(r' \+= ', ' = ', 'plus-eq')
        sub(r' -= ', ' += ', 'minus-eq')
        sub(r' \|= ', ' = ', 'or-eq')
        sub(r' / ', ' * ', 'div')
        sub(r' % ', ' / ', 'mod')
        sub(r' \| [A-Z_][A-Z_0-9]+', '', 'flag')
        sub(r'[A-Z_][A-Z_0-9]+ \| ', '', 'flag')
        for m in re.finditer(r'(?<![\w.\'])(\d+)(?=(u|ul|l|ull)?\b)(?!\.)', code):
            n = int(m.group(1))
            add(body[:m.start()] + str(n + 1) + body[m.end():], 'const')
            if n > 0:
                add(body[:m.start()] + str(n - 1) + body[m.end():], 'const')
        sub(r'\btrue\b', 'false', 'bool')
        sub(r'\bfalse\b', 'true', 'bool')
    seen, res = set(), []
    for m in out:
        if (m[0], m[1]) not in seen:
            seen.add((m[0], m[1]))
            res.append(m)
    return lines, res


def main():
    outp, nw = sys.argv[1], int(sys.argv[2])
    files = sys.argv[3:] or list(PROPS)
    jobs = []
    for f in files:
        lines, ms = mutants(f)
        for m in ms:
            jobs.append((f, lines, m))
    random.Random(7).shuffle(jobs)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    jobs = [j for j in jobs if (j[0], j[2][0] + 1, j[2][1].strip()) not in done]
    print(len(jobs), 'mutants', flush=True)
    lock = threading.Lock()
    out = open(outp, 'a')

    def work(k):
        R, V = '/tmp/mut/r%d' % k, '/tmp/mut/v%d' % k
        sh('rm -rf /tmp/mut/r%d /tmp/mut/v%d; mkdir -p /tmp/mut; git clone -q /repo %s; mkdir %s; cd /verif && cp -a check.py sim scen build MANIFEST.json %s/; cp known-findings* %s/ 2>/dev/null' % (k, k, R, V, V, V))
        sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc "-DCMAKE_C_FLAGS_DEBUG=-g -Wno-error" -DHAVE_BACKTRACE=1 && ninja -C %s/_build' % (R, R, R))
        while True:
            with lock:
                if not jobs:
                    return
                f, lines, (i, new, op) = jobs.pop()
            n = list(lines)
            n[i] = new
            open(R + '/' + f, 'w').write('\n'.join(n))
            d = {'file': f, 'line': i + 1, 'op': op, 'old': lines[i].strip(), 'new': new.strip()}
            mod = f.split('/')[0]
            t = sh('unshare -n bash -c "ip link set lo up 2>/dev/null; ninja -C %s/_build %s/all" ' % (R, mod), 120)
            if t.returncode:
                d['st'] = 'build'
            else:
                t = sh('unshare -n bash -c "ip link set lo up 2>/dev/null; timeout 60 ctest --test-dir %s/_build/%s --timeout %d"' % (R, mod, {'socket': 50, 'time': 25, 'map': 20, 'signal': 20}.get(mod, 12)), 120)
                if t.returncode:
                    d['st'] = 'tests'
                else:
                    d['st'] = 'SURVIVED'
                    for p in PROPS[f]:
                        t0 = time.time()
                        t = sh('python3 check.py ' + p, 300, cwd=V, env=dict(os.environ, SC_REPO=R, SIM_WORKERS='1', SIM_TIME=os.environ.get('SIM_TIME', '40'), VERIF_SEED='1'))
                        if t.returncode:
                            d['st'] = 'caught' if t.returncode == 1 else 'rc%d' % t.returncode
                            d['by'] = p
                            d['why'] = (t.stdout.strip().splitlines() or [''])[0:2]
                            d['t'] = round(time.time() - t0, 1)
                            break
            open(R + '/' + f, 'w').write('\n'.join(lines))
            with lock:
                out.write(json.dumps(d) + '\n')
                out.flush()
            sh('ls -t %s/build/*.o %s/build/sim.* 2>/dev/null | tail -n +400 | xargs -r rm -f; rm -rf %s/replays' % (V, V, V))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
