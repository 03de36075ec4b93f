"""Shared infrastructure: running TLC, running the real code in isolated workers, judging, evidence."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
EVIDENCE = os.path.join(VERIF, 'evidence')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8


class CheckError(Exception):
    """The check itself could not give an answer."""


class Scratch:
    """A scratch directory outside /repo and /verif, removed at the end."""
    def __init__(self):
        self.path = None

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-check-')
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


# --------------------------------------------------------------------------- TLC

_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def run_tlc(module, cfg_text, scratch, env=None, workers=2, timeout=800, heap='3g', extra=()):
    """Runs TLC on spec/<module>.tla in its own metadir. Returns (rc, output, generated, distinct)."""
    work = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    for name in os.listdir(SPEC):
        if name.endswith('.tla'):
            os.symlink(os.path.join(SPEC, name), os.path.join(work, name))
    cfg = os.path.join(work, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    cmd = [
        'java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
        '-XX:ParallelGCThreads=2', '-XX:CICompilerCount=2',
        '-Djava.io.tmpdir=' + work,
        '-cp', TLA_CP, 'tlc2.TLC', '-nowarning', '-workers', str(workers),
        '-metadir', os.path.join(work, 'meta'), '-config', cfg
    ] + list(extra) + [module + '.tla']
    full_env = dict(os.environ)
    full_env.update(env or {})
    try:
        p = subprocess.run(
            cmd, cwd=work, env=full_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout, text=True, errors='replace'
        )
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ''
        if isinstance(out, bytes):
            out = out.decode('utf-8', 'replace')
        rc = -1
    m = None
    for m in _STATS.finditer(out):
        pass
    generated, distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    shutil.rmtree(work, ignore_errors=True)
    return rc, out, generated, distinct


def run_model(module, cfg, scratch, timeout=600, workers=2, heap='3g', env=None):
    """Exhaustive check of a spec-level model; it has to pass (a failure is an error of the check)."""
    rc, out, generated, distinct = run_tlc(
        module, cfg, scratch, workers=workers, timeout=timeout, heap=heap, env=env
    )
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('model %s did not pass (rc=%s):\n%s' % (module, rc, out[-4000:]))
    return {'module': module, 'generated': generated, 'distinct': distinct}


def run_generator(module, cfg, scratch, timeout=300, env=None):
    """Lets TLC enumerate cases: the module writes a JSON array to IOEnv.OUT."""
    fd, path = tempfile.mkstemp(prefix='gen-', suffix='.json', dir=scratch)
    os.close(fd)
    rc, out, generated, distinct = run_tlc(
        module, cfg, scratch, env=dict(env or {}, OUT=path), workers=1, timeout=timeout
    )
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('generator %s failed (rc=%s):\n%s' % (module, rc, out[-4000:]))
    with open(path) as f:
        text = f.read()
    cases = json.loads(text) if text.strip() else []
    return cases, {'module': module, 'generated': generated, 'distinct': distinct}


_BAD = re.compile(r'"BAD (\d+) \{(.*)\}"')


def _judge_chunk(args):
    module, recs, constants, scratch, timeout, heap = args
    fd, path = tempfile.mkstemp(prefix='recs-', suffix='.json', dir=scratch)
    with os.fdopen(fd, 'w') as f:
        json.dump(recs, f)
    cfg = 'INIT JInit\nNEXT JNext\nINVARIANT JInv\nCHECK_DEADLOCK FALSE\n' + constants
    rc, out, generated, distinct = run_tlc(
        module, cfg, scratch, env={'RECS': path}, workers=2, timeout=timeout, heap=heap
    )
    os.unlink(path)
    bad = {}
    for m in _BAD.finditer(out):
        bad[int(m.group(1)) - 1] = sorted(set(re.findall(r'\\?"([^"\\]+)\\?"', m.group(2))))
    ok = rc == 0 and 'No error has been found' in out and distinct >= len(recs)
    return ok, bad, generated, distinct, out


def judge(module, recs, scratch, constants='', timeout=700, chunk=None, heap='3g'):
    """Evaluates the trace module's clauses on every recorded execution.

    Returns ({index: [failing clauses]}, stats). An execution that the specification cannot even be
    evaluated on (a value of a kind it does not know) counts as failing clause "unexplained".
    """
    if not recs:
        return {}, {'module': module, 'generated': 0, 'distinct': 0}
    par = 4
    if chunk is None:
        chunk = max(1, -(-len(recs) // par))
    parts = [(o, recs[o:o + chunk]) for o in range(0, len(recs), chunk)]
    bad, generated, distinct = {}, 0, 0
    pending = parts
    rounds = 0
    while pending:
        rounds += 1
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(_judge_chunk, [
                (module, part, constants, scratch, timeout, heap) for _, part in pending
            ]))
        following = []
        for (offset, part), (ok, part_bad, gen, dist, out) in zip(pending, results):
            generated += gen
            distinct += dist
            if ok:
                bad.update({offset + k: v for k, v in part_bad.items()})
            elif len(part) == 1:
                if re.search(r'OutOfMemory|StackOverflow|Parsing or semantic analysis failed|'
                             r'Could not (find|create|reserve)|Unknown operator', out) or not out.strip():
                    raise CheckError('TLC failed on %s:\n%s' % (module, out[-3000:]))
                bad[offset] = ['unexplained']
                with open(os.path.join(scratch, 'unexplained.txt'), 'a') as f:
                    f.write(out[-3000:])
            else:
                if 'Parsing or semantic analysis failed' in out:
                    raise CheckError('TLC failed on %s:\n%s' % (module, out[-3000:]))
                step = max(1, -(-len(part) // 4))
                following.extend(
                    (offset + o, part[o:o + step]) for o in range(0, len(part), step)
                )
        pending = following
        if len([1 for v in bad.values() if v == ['unexplained']]) > 8:
            break
        if rounds > 14:
            break
    return bad, {'module': module, 'generated': generated, 'distinct': distinct}


# --------------------------------------------------------------------------- real code

def run_driver(driver, cases, scratch, case_timeout=30, shards=CORES, total_timeout=600, env=None):
    """Runs props.<mod>:<func> on every case in isolated worker processes on the code in /repo.

    Every case yields a record; a case that raises, hangs or kills its worker yields one with "exc".
    """
    if not cases:
        return []
    shards = max(1, min(shards, len(cases)))
    work = tempfile.mkdtemp(prefix='drv-', dir=scratch)

    def one(shard):
        idx = list(range(shard, len(cases), shards))
        done = {}
        deadline = time.time() + total_timeout
        attempts = 0
        while len(done) < len(idx):
            todo = [i for i in idx if i not in done]
            attempts += 1
            inp = os.path.join(work, '%d-%d.in.json' % (shard, attempts))
            outp = os.path.join(work, '%d-%d.out.ndjson' % (shard, attempts))
            tmp = os.path.join(work, 'tmp-%d-%d' % (shard, attempts))
            os.makedirs(tmp)
            with open(inp, 'w') as f:
                json.dump([cases[i] for i in todo], f)
            full_env = dict(os.environ)
            full_env.update({
                'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                'PYTHONPATH': VERIF + ':' + REPO, 'TMPDIR': tmp,
                'VERIF_CASE_TIMEOUT': str(case_timeout)
            })
            full_env.update(env or {})
            log = os.path.join(work, '%d-%d.log' % (shard, attempts))
            with open(log, 'w') as logf:
                p = subprocess.Popen(
                    [PYTHON, '-W', 'ignore', '-m', 'vlib.worker', driver, inp, outp], cwd=tmp,
                    env=full_env, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True
                )
                # a worker that reports nothing for a while is stuck on its current case
                last, last_size = time.time(), -1
                stuck = False
                while p.poll() is None:
                    try:
                        p.wait(0.5)
                    except subprocess.TimeoutExpired:
                        pass
                    size = os.path.getsize(outp) if os.path.exists(outp) else 0
                    now = time.time()
                    if size != last_size:
                        last, last_size = now, size
                    if now - last > 3 * case_timeout + 60 or now > deadline:
                        stuck = True
                        break
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            n = 0
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if line.endswith('\n'):
                            done[todo[n]] = json.loads(line)
                            n += 1
            if n < len(todo):
                with open(log, errors='replace') as f:
                    tail = f.read()[-1500:]
                if n == 0 and attempts == 1 and not stuck and 'WORKER-READY' not in tail:
                    return done, 'worker for %s did not start:\n%s' % (driver, tail)
                done[todo[n]] = {
                    'exc': 'worker %s on this case' % ('hung' if stuck else 'died'),
                    'case': cases[todo[n]]
                }
                if time.time() > deadline:
                    return done, 'driver %s ran out of time' % driver
                if attempts > 20:
                    return done, 'driver %s died too often' % driver
        return done, None

    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(one, range(shards)))
    recs = [None] * len(cases)
    errors = []
    for done, error in results:
        if error:
            errors.append(error)
        for i, rec in done.items():
            recs[i] = rec
    shutil.rmtree(work, ignore_errors=True)
    if errors and not any(r and r.get('exc', '').startswith('worker ') for r in recs):
        raise CheckError('\n'.join(errors[:2]))
    return [r for r in recs if r is not None]


# --------------------------------------------------------------------------- known findings

def load_known_findings():
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e.get('status') == 'known']


def log(*args):
    print(*args, flush=True)


def write_json(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(value, f, indent=1, ensure_ascii=True, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


def exit_with(code):
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
