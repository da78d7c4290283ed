"""Shared plumbing of the checks: building the runner, running it, running TLC,
reporting.  No property is decided here; TLC decides against spec/."""
import glob, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 8
os.environ['RUST_BACKTRACE'] = os.environ['RUST_LIB_BACKTRACE'] = '0'   # slow, and a lock


class ToolError(Exception):
    pass


def env_rust():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    return e


def build_runner():
    """Builds the runner against /repo's current working tree."""
    for d in glob.glob(os.path.join(BUILD, 'target/debug/.fingerprint/mvdparser-*')):
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(VERIF, 'harness'),
                       env=env_rust(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('building the runner failed:\n' + p.stdout[-4000:])
    return os.path.join(BUILD, 'target/debug/runner')


class Work:
    """Scratch directory of one run of one check."""
    def __init__(self, name):
        self.dir = os.path.join(VERIF, '.run', '%s-%d' % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, n):
        return os.path.join(self.dir, n)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def write_jsonl(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r, separators=(',', ':')))
            f.write('\n')


def read_jsonl(path):
    out = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass  # torn last line of a dead runner
    return out


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def run_runner(runner, work, recs, apis, threads=CORES, name='calls'):
    """Runs the calls; returns {id: r}.  A runner that dies or hangs is itself
    an observation: the call in progress is recorded as not returned.  After a
    hang the remaining records are not run."""
    recs = list(recs)
    results = {}
    todo = recs
    rounds = 0
    while todo:
        rounds += 1
        inp, out = work.path('%s.in' % name), work.path('%s.out' % name)
        write_jsonl(inp, todo)
        n = threads if rounds == 1 else 1
        p = subprocess.run([runner, 'run', inp, out, ','.join(apis), str(n)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit_memory)
        got = read_jsonl(out) if os.path.exists(out) else []
        hung = None
        for g in got:
            if 'hang' in g:
                hung = g
                results[g['id']] = {g['hang']: {'panic': 'does not return (deadline)'}}
            else:
                results[g['id']] = g['r']
        missing = [r for r in todo if r['id'] not in results]
        if p.returncode == 2:
            raise ToolError('runner: ' + p.stderr.decode(errors='replace')[-500:])
        if not missing or hung:
            break
        if p.returncode == 0:
            raise ToolError('runner lost %d records' % len(missing))
        if n == 1 and hung is None:
            # single threaded: the first missing record killed the process
            r = missing[0]
            results[r['id']] = {(r.get('apis') or apis)[0]: {'panic': 'process died (%d): %s' % (
                p.returncode, p.stderr.decode(errors='replace')[-200:])}}
            missing = missing[1:]
        if rounds > 12:
            raise ToolError('runner keeps dying')
        todo = missing
    return results


def run_mass(runner, work, jobs, threads=CORES, name='mass'):
    inp, out = work.path('%s.in' % name), work.path('%s.out' % name)
    write_jsonl(inp, jobs)
    p = subprocess.run([runner, 'mass', inp, out, str(threads)], stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, preexec_fn=limit_memory)
    got = read_jsonl(out)
    bad = [g for g in got if 'api' in g]
    bad += [{'id': g['id'], 'api': g['hang'], 'r': {'panic': 'does not return (deadline)'}}
            for g in got if 'hang' in g]
    done = [g for g in got if g.get('done')]
    if p.returncode == 2:
        raise ToolError('runner: ' + p.stderr.decode(errors='replace')[-500:])
    if not done and not bad:
        bad = [{'id': {'job': None}, 'api': '?', 'r': {'panic': 'process died (%d)' % p.returncode}}]
    return bad, (done[0] if done else {'inputs': 0, 'calls': 0, 'tally': {}})


TLC_ERR = re.compile(r'^Error: (?!Invariant|Action property|The behavior up|The postcondition|Postcondition|Temporal)')


def tlc(module, cfg=None, env=None, workers=CORES, opts=(), heap='6g', timeout=800, work=None, stack='64m', meta='states'):
    """Runs TLC; returns (exit code, output)."""
    meta = (work.path(meta) if work else os.path.join(VERIF, '.run', 'states-%d' % os.getpid()))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-cp', JARS, 'tlc2.TLC',
           '-config', cfg or module + '.cfg', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-nowarning'] + list(opts) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(',', '')), int(b.replace(',', ''))


def conform(work, bases, events, name='trace', heap='10g', timeout=800, stack='64m'):
    """Validates recorded events against Conform.tla.  Returns a dict with the
    rejected event ids (with the functions concerned) and TLC's counts."""
    bpath, tpath = work.path(name + '.bases.ndjson'), work.path(name + '.trace.ndjson')
    # every event needs the same fields; bases may not be empty
    write_jsonl(bpath, [{'d': list(b)} for b in bases] or [{'d': []}])
    write_jsonl(tpath, events)
    if not events:
        raise ToolError('empty trace')
    code, out = tlc('Conform', env={'BASES': bpath, 'TRACE': tpath}, opts=['-continue'], heap=heap,
                    timeout=timeout, work=work, stack=stack)
    rejects = {}
    for m in re.finditer(r'<<\s*"REJECT",\s*(-?\d+|"[^"]*"),\s*(\{[^}]*\})\s*>>', out):
        i = m.group(1)
        i = int(i) if not i.startswith('"') else i.strip('"')
        rejects[i] = re.findall(r'"([^"]+)"', m.group(2))
    gen, distinct = tlc_stats(out)
    finished = 'Model checking completed' in out or 'states generated' in out
    if distinct != 2 * len(events) or not finished or code not in (0, 12):
        raise ToolError('TLC did not validate the whole trace (exit %d, %d states for %d events):\n%s'
                        % (code, distinct, len(events), out[-3000:]))
    if ('Invariant Accepted is violated' in out) != bool(rejects):
        raise ToolError('TLC verdict unclear:\n' + out[-2000:])
    return {'rejects': rejects, 'states': distinct, 'generated': gen, 'events': len(events)}


def event(i, base, r, cut=-1, edits=(), kind='call', **more):
    e = {'id': i, 'kind': kind, 'base': base, 'cut': cut, 'edits': [list(x) for x in edits], 'r': r}
    e.update(more)
    return e
