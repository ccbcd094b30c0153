"""Common machinery of the checks: building the harness, running it, judging with TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The check could not be carried out (exit code 2)."""


def log(*a):
    print(*a, flush=True)


def src_hash():
    h = hashlib.sha256()
    for top in ('src', 'Cargo.toml'):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTFLAGS='-Awarnings', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', PATH='/usr/local/bin:/root/.cargo/bin:' + os.environ['PATH'],
             CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    for v in ('NO_PURITY', 'STRUCTURAL', 'CHECK_DCG', 'WRITE_DCG', 'GMLOG_DCG'):
        e.pop('ADAPTON_' + v, None)
    return e


def build_harness():
    """Builds the harness against the current tree of the repository."""
    os.makedirs(BUILD, exist_ok=True)
    stamp, h = os.path.join(BUILD, 'src.sha256'), src_hash()
    if not os.path.exists(stamp) or open(stamp).read() != h:
        # Do not trust file times: the tree's content is not the one that was built.
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'adapton', '-p', 'vh'], cwd=os.path.join(ROOT, 'harness'), env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(ROOT, 'harness'), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('harness does not build:\n' + p.stdout[-4000:])
    open(stamp, 'w').write(h)
    return os.path.join(BUILD, 'target', 'debug', 'vh')


def run_batch(binary, cmd, reqs, scratch, timeout=20):
    """Feeds request lines to the harness; returns the emitted lines per request id.
    A request in which the process dies or hangs gets a final line {"died": "crash"|"hang"}."""
    out = {r['id']: [] for r in reqs}
    todo, hangs, deaths = list(reqs), 0, 0
    while todo:
        if hangs >= 2 or deaths >= 100:
            # Enough to judge; the rest would only take time.
            for q in todo:
                del out[q['id']]
            return out
        inp = ''.join(json.dumps(r) + '\n' for r in todo)
        p = subprocess.Popen([binary, cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             cwd=scratch, env=env(), text=True)
        import threading
        lines, last = [], [time.time()]

        def reader():
            for l in p.stdout:
                lines.append(l); last[0] = time.time()
        th = threading.Thread(target=reader); th.start()
        def feeder():
            try:
                p.stdin.write(inp); p.stdin.close()
            except BrokenPipeError:
                pass
        tf = threading.Thread(target=feeder); tf.start()
        died = None
        while th.is_alive():
            th.join(0.2)
            if th.is_alive() and time.time() - last[0] > timeout:
                died = 'hang'; p.kill(); th.join()
        tf.join()
        rc = p.wait()
        if rc != 0 and died is None:
            died = 'crash'
        cur = None
        for l in lines:
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j['t'] != cur:
                cur = j['t']; out[cur] = []
            out[cur].append(j)
        if died is None:
            return out
        if cur is None:
            cur = todo[0]['id']
        hangs, deaths = hangs + (died == 'hang'), deaths + 1
        out[cur].append({'t': cur, 'died': died})
        i = [r['id'] for r in todo].index(cur)
        todo = todo[i + 1:]
    return out


def run_harness(binary, cmd, reqs, scratch, jobs=CORES, timeout=20):
    """The lines emitted for each request; requests not tried, after too many that hang, are taken off the list."""
    if not reqs:
        return {}
    jobs = max(1, min(jobs, (len(reqs) + 19) // 20))
    parts = [reqs[i::jobs] for i in range(jobs)]
    out = {}
    with ThreadPoolExecutor(jobs) as ex:
        dirs = []
        for i in range(jobs):
            d = os.path.join(scratch, 'h%d' % i); os.makedirs(d, exist_ok=True); dirs.append(d)
        for o in ex.map(lambda a: run_batch(binary, cmd, a[0], a[1], timeout), zip(parts, dirs)):
            out.update(o)
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    reqs[:] = [q for q in reqs if q['id'] in out]
    return out


def to_traces(reqs, lines):
    """Recorded engine histories, in the form that Trace.tla reads; one per request, or, for
    interleaved requests, one per part."""
    traces = []
    for r in reqs:
        parts = r.get('multi', [r])
        for i, q in enumerate(parts):
            ops, begun = [], None
            last = ([l['sub'] for l in lines[r['id']] if 'sub' in l] or [0])[-1]
            for l in lines[r['id']]:
                if 'sub' in l and l['sub'] != i:
                    continue
                if 'begin' in l:
                    begun = l['begin']
                elif 'died' in l:
                    if begun is not None:
                        ops.append({'op': begun, 'out': ['panic', l['died']], 'lg': []})
                        begun = None
                    elif not any('begin' in m for m in lines[r['id']][-2:]) and i == last:
                        # Between two operations, or before the first one of the next request.
                        ops.append({'op': ops[-1]['op'] if ops else q['ops'][0], 'out': ['panic', l['died']], 'lg': []})
                else:
                    begun = None
                    ops.append({k: l[k] for k in ('op', 'out', 'lg', 'ev', 'snap', 'eng', 'dump', 'mids', 'now') if k in l})
            if begun is not None:
                ops.append({'op': begun, 'out': ['panic', 'no answer'], 'lg': []})
            traces.append({'id': q['id'], 'codes': q['codes'], 'ops': ops,
                           'purity': 'ADAPTON_NO_PURITY' not in q.get('env', []),
                           'dbg': bool(q.get('dbg')), 'twin': 0, 'naive': bool(q.get('naive'))})
    return traces


def tlc(module, cfg, scratch, workers=CORES, env_extra=None, timeout=880, args=(), xss='512m', heap=None):
    """Runs TLC in a private copy of the specification; returns its output."""
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, 'run.cfg'), 'w') as f:
        f.write(cfg)
    e = env(); e.update(env_extra or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss' + xss] + (['-Xmx' + heap] if heap else []) + \
          ['-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC', '-config', 'run.cfg', '-metadir', os.path.join(d, 'meta'),
           '-workers', str(workers), '-noGenerateSpecTE', '-lncheck', 'final'] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Broken('TLC did not finish within %d s on %s' % (timeout, module))
    finally:
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    out = p.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    res = {'out': out, 'rc': p.returncode, 'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0, 'dir': d}
    return res


def tlc_errors(res, what):
    if 'Model checking completed. No error has been found' not in res['out']:
        txt = '\n'.join(l for l in res['out'].split('\n') if not re.match(r'(Parsing|Semantic|Linting)', l))
        raise Broken('TLC failed on %s:\n%s' % (what, txt[:6000]))


class Unjudged(Broken):
    """TLC stopped at a record that it could not evaluate."""


def unjudged(res, what):
    try:
        tlc_errors(res, what)
    except Broken as x:
        if res['rc'] < 0 or re.search(r'OutOfMemory|Java heap|StackOverflow|No space left|Parsing or semantic|Could not (find|parse) module', res['out']):
            raise
        raise Unjudged(str(x))


def first_unjudged(items, run):
    """Index of a record that cannot be evaluated on its own: a value of a form that the specification
    knows nothing of, such as a string for a list.  Such a record is a violation in itself."""
    lo, hi = 0, len(items)
    def fails(a, b):
        try:
            run(items[a:b])
            return False
        except Unjudged:
            return True
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if fails(lo, mid):
            hi = mid
        elif fails(mid, hi):
            lo = mid
        else:
            return None
    return lo


def judge(traces, checks, scratch, workers=CORES, timeout=880):
    """Trace validation; returns (violations, stats). A violation is (trace index, op index, description)."""
    try:
        return judge_all(traces, checks, scratch, workers, timeout)
    except Unjudged:
        if any(t['twin'] for t in traces):
            raise
        i = first_unjudged(traces, lambda part: judge_all(part, checks, scratch, workers, timeout))
        if i is None:
            raise
        return [(i, 0, 'not a history that the specification can read')], {'done': 1, 'ops': 0, 'sync': 0, 'stopped': 0, 'distinct': 0, 'generated': 0}


def judge_all(traces, checks, scratch, workers, timeout):
    if not traces:
        return [], {'done': 0, 'ops': 0, 'sync': 0, 'stopped': 0, 'distinct': 0, 'generated': 0}
    f = os.path.join(scratch, 'traces%d.json' % (hash(str(checks)) % 100000))
    with open(f, 'w') as fh:
        json.dump(traces, fh)
    cfg = 'CONSTANTS Checks = {%s}\nINIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n' % ', '.join('"%s"' % c for c in checks)
    res = tlc('Trace', cfg, scratch, workers, {'TRACES': f}, timeout)
    unjudged(res, 'Trace')
    bad, done, ops, sync, vague = [], 0, 0, 0, 0
    for l in res['out'].split('\n'):
        m = re.match(r'"?<<\\?"DONE\\?", (\d+), (\d+), (TRUE|FALSE), (TRUE|FALSE)>>', l)
        if m:
            done += 1; ops += int(m.group(2)); sync += m.group(3) == 'TRUE'; vague += m.group(4) == 'TRUE'
            continue
        m = re.match(r'"?<<\\?"BAD\\?", (\d+), (\d+), (.*)>>"?$', l)
        if m:
            bad.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3).replace('\\"', '"')))
            done += 1; ops += int(m.group(2))
    empty = sum(1 for t in traces if not t['ops'])
    if done + empty != len(traces):
        raise Broken('TLC judged %d of %d histories' % (done, len(traces)))
    os.unlink(f)
    return bad, {'done': done, 'ops': ops, 'sync': sync, 'stopped': vague, 'distinct': res['distinct'], 'generated': res['generated']}


def explore(module, consts, scratch, export=True, inv='Holds', timeout=880, heap=None):
    """Model checking of one of the smaller specifications; returns the exported histories and statistics."""
    cfg = ('CONSTANTS %s Export = %s\nINIT Init\nNEXT Next\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n'
           % (' '.join('%s = %s' % kv for kv in consts.items()), 'TRUE' if export else 'FALSE', inv))
    res = tlc(module, cfg, scratch, timeout=timeout, heap=heap)
    tlc_errors(res, module)
    hs = set()
    for l in res['out'].split('\n'):
        m = re.match(r'<<"H", "(.*)">>$', l)
        if m:
            hs.add(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
    return [json.loads(h) for h in sorted(hs)], {'states': res['distinct'], 'transitions': res['generated']}


def judge_records(module, consts, recs, scratch, timeout=880):
    """Judges records of what the implementation did; returns [(index, complaints)] and statistics."""
    try:
        return judge_records_all(module, consts, recs, scratch, timeout)
    except Unjudged:
        i = first_unjudged(recs, lambda part: judge_records_all(module, consts, part, scratch, timeout))
        if i is None:
            raise
        return [(i, 'not a record that the specification can read')], {'distinct': 0, 'generated': 0}


def judge_records_all(module, consts, recs, scratch, timeout):
    if not recs:
        return [], {'distinct': 0, 'generated': 0}
    f = os.path.join(scratch, 'recs.json')
    with open(f, 'w') as fh:
        json.dump(recs, fh)
    cfg = ('CONSTANTS %s Export = FALSE\nINIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n' % ' '.join('%s = %s' % kv for kv in consts.items()))
    res = tlc(module, cfg, scratch, env_extra={'RECS': f}, timeout=timeout)
    unjudged(res, module)
    os.unlink(f)
    bad, ok = [], 0
    for l in res['out'].split('\n'):
        m = re.match(r'<<"OK", (\d+)>>', l)
        if m:
            ok += 1
            continue
        m = re.match(r'<<"BAD", (\d+), "(.*)">>$', l)
        if m:
            bad.append((int(m.group(1)) - 1, m.group(2).replace('\\"', '"').replace('\\\\', '\\')))
    if ok + len(bad) != len(recs):
        raise Broken('%s judged %d of %d records' % (module, ok + len(bad), len(recs)))
    return bad, {'distinct': res['distinct'], 'generated': res['generated']}


def observe(ctx, module, consts, cmd, reqs, what=None, timeout=20):
    """Runs requests in the harness, one record each, and has the specification judge them."""
    lines = run_harness(ctx.binary, cmd, reqs, ctx.scratch, timeout=timeout)
    recs = []
    for q in reqs:
        r = dict(q)
        got = lines[q['id']]
        died = [l['died'] for l in got if 'died' in l]
        for l in got:
            r.update({k: v for k, v in l.items() if k not in ('t', 'start', 'died')})
        if not got:
            died = ['no answer']
        r['died'] = died[0] if died else ''
        recs.append(r)
    bad, st = judge_records(module, consts, recs, ctx.scratch)
    ctx.add(states=st['distinct'], transitions=st['generated'], traces=len(recs))
    for i, what in bad:
        ctx.violation({'request': reqs[i], 'record': recs[i], 'what': what})
    for r in recs[:400:150]:
        if len(ctx.samples) < 4 and len(json.dumps(r)) < 3000:
            ctx.samples.append(r)
    return recs
