"""Batches of files: B01 (independence), B02 (errors), B03 (crash and resume), Q02 (routing)."""
import json
import os
import shutil

from vlib import cli, core, sched, tei
from vlib.registry import Prop, Source

PKG_DIR = os.path.join(core.REPO, 'sciencebeam_trainer_grobid_tools') + os.sep
IO_FILES = ('beam_utils/io.py', 'apache_beam/io/filesystems.py', 'apache_beam/io/localfilesystem.py',
            'apache_beam/io/filesystem.py', 'tempfile.py')


def make_files(case, src, xml, only=None):
    tool = case['tool']
    for k, f in enumerate(case['files']):
        if only is not None and k != only:
            continue
        name = cli.source_name(tool, f['name'], f.get('gz', False))
        text = cli.document_xml(tool, f['article'], f['layout'])
        target = cli.jats(f['article'])
        damage = f['damage']
        if damage == 'no-container':
            text = '<tei><other>abc</other></tei>'
        elif damage == 'attributes':
            text = text.replace('<lb/>', '<x a="1" b="2">y</x><lb/>', 1)
        elif damage == 'target':
            target = '<article><front>'
        elif damage == 'title':
            target = cli.jats(dict(f['article'], title='Completely different words in this one'))
        elif damage == 'no-title':
            target = target.replace('article-title', 'trans-title', 2)
        elif damage == 'two-titles':
            target = target.replace('</title-group>', '<article-title>Another</article-title></title-group>')
        cli.write_file(os.path.join(src, name), text, f.get('gz', False))
        if damage != 'no-target':
            cli.write_file(os.path.join(xml, f['name'] + '.xml'), target)


def outcome(path, full, pre):
    if not os.path.exists(path):
        return 'none'
    data = cli.read_file(path)
    if full is not None and data == full:
        return 'full'
    if pre is not None and data == pre:
        return 'pre'
    return 'part'


def tree_bytes(path):
    out = {}
    for base, _, names in os.walk(path):
        for n in names:
            with open(os.path.join(base, n), 'rb') as f:
                out[os.path.relpath(os.path.join(base, n), path)] = f.read()
    return out


class Env:
    def __init__(self, case, tmp):
        self.case, self.tool = case, case['tool']
        self.src, self.xml, self.out, self.failed = (
            os.path.join(tmp, n) for n in ('src', 'xml', 'out', 'failed'))
        self.temps = os.path.join(tmp, 'temps')
        self.ref = os.path.join(tmp, 'ref')
        os.makedirs(self.temps)
        make_files(case, self.src, self.xml)
        os.makedirs(self.src, exist_ok=True)
        os.makedirs(self.xml, exist_ok=True)
        self.names = [cli.source_name(self.tool, f['name'], f.get('gz', False)) for f in case['files']]
        self.full = [None] * len(self.names)
        self.full_failed = [None] * len(self.names)
        self.alone = []
        self.src_before = None

    def __enter__(self):
        import tempfile
        self.saved = tempfile.tempdir, os.environ.get('TMPDIR', '/tmp')
        tempfile.tempdir = self.temps
        os.environ['TMPDIR'] = self.temps
        self.cwd = os.getcwd()
        if self.case.get('relative'):
            os.chdir(os.path.dirname(self.out))
        return self

    def shown(self, path):
        """how a path is given on the command line"""
        if not self.case.get('relative'):
            return path + self.case.get('slash', '')
        return os.path.relpath(path) + self.case.get('slash', '')

    def __exit__(self, *_):
        import tempfile
        os.chdir(self.cwd)
        tempfile.tempdir, os.environ['TMPDIR'] = self.saved

    def args(self, resume=False, skip=None, workers=None, extra=True):
        c = self.case
        args = list(c['args'])
        if c['failedPath']:
            args.append('--failed-output-path=' + self.shown(self.failed))
        if c['skip'] if skip is None else skip:
            args.append('--skip-errors')
        if resume:
            args.append('--resume')
        args.append('--num-workers=%d' % (c['workers'] if workers is None else workers))
        if extra and c.get('mp'):
            args.append('--multi-processing')
        if extra and c.get('limit') is not None:
            args.append('--limit=%d' % c['limit'])
        return args

    def reference(self):
        """what every file gives when it is the only one"""
        for k, name in enumerate(self.names):
            shutil.rmtree(self.ref, ignore_errors=True)
            src, xml, out = (os.path.join(self.ref, n) for n in ('src', 'xml', 'out'))
            make_files(self.case, src, xml, only=k)
            os.makedirs(xml, exist_ok=True)
            self.failed = os.path.join(self.ref, 'failed')
            keep, self.case['failedPath'] = self.case['failedPath'], True
            error = cli.run_tool(self.tool, cli.argv_for(
                self.tool, self.shown(src), self.shown(xml), self.shown(out), self.args(skip=False, workers=1, extra=False)))
            self.case['failedPath'] = keep
            done, fdone = os.path.join(out, name), os.path.join(self.failed, name)
            if error:
                self.alone.append('bad' if not os.path.exists(done) else 'bad-with-output')
            elif os.path.exists(done):
                self.alone.append('ok' if not os.path.exists(fdone) else 'both')
                self.full[k] = cli.read_file(done)
            elif os.path.exists(fdone):
                self.alone.append('fail')
                self.full_failed[k] = cli.read_file(fdone)
            else:
                self.alone.append('nothing')
        shutil.rmtree(self.ref, ignore_errors=True)
        self.failed = os.path.join(os.path.dirname(self.out), 'failed')

    def prepare(self):
        for path in (self.out, self.failed, self.temps):
            shutil.rmtree(path, ignore_errors=True)
        os.makedirs(self.temps)
        if any(f['pre'] for f in self.case['files']):
            for name, f in zip(self.names, self.case['files']):
                if f['pre']:
                    cli.write_file(os.path.join(self.out, name), 'earlier result', f.get('gz', False))
        if self.case.get('mkdirs'):
            os.makedirs(self.out, exist_ok=True)
        self.src_before = tree_bytes(self.src)

    def argv(self, **kwargs):
        return cli.argv_for(
            self.tool, self.shown(self.src), self.shown(self.xml), self.shown(self.out),
            self.args(**kwargs))

    def observe(self, status, resume, crashed=False, faulty=False):
        found = tree_bytes(self.out)
        extra = len([n for n in found if n not in self.names])
        return {
            'crashed': crashed, 'status': status, 'resume': resume, 'faulty': faulty, 'kinds': [],
            'out': [outcome(os.path.join(self.out, n), f, b'earlier result')
                    for n, f in zip(self.names, self.full)],
            'failed': [outcome(os.path.join(self.failed, n), f, None)
                       for n, f in zip(self.names, self.full_failed)],
            'extra': extra, # the beam runner has working directories of its own
            'temps': 0 if self.case['workers'] == 0 else len(os.listdir(self.temps)),
            'sourcesSame': tree_bytes(self.src) == self.src_before
        }


def base_record(case, env):
    return {
        'kinds': [f['kind'] for f in case['files']], 'alone': env.alone,
        'pre': ['pre' if f['pre'] else 'none' for f in case['files']],
        'skip': case['skip'], 'failedPath': case['failedPath'], 'runs': [], 'limited': True
    }


def batch_run(case):
    with tei.scratch_dir() as tmp, Env(case, tmp) as env:
        env.reference()
        rec = base_record(case, env)
        env.prepare()
        baton = None
        if case.get('plan') is not None:
            baton = sched.Baton([PKG_DIR], case['plan'])
            baton.install()
        try:
            error = cli.run_tool(case['tool'], env.argv(resume=case['resume']))
        finally:
            if baton:
                baton.uninstall()
        run = env.observe('error' if error else 'ok', case['resume'])
        if case.get('limit') is not None:
            n = len([o for o in run['out'] if o == 'full'])
            want = min(case['limit'], len(env.names))
            rec['limited'] = n == want and not error and run['extra'] == 0
            rec['kinds'] = rec['alone'] = ['ok'] * n
            rec['pre'] = ['none'] * n
            run['out'], run['failed'] = ['full'] * n, ['none'] * n
        rec['runs'].append(run)
        if case.get('then_resume') and not case.get('limit'):
            error = cli.run_tool(case['tool'], env.argv(resume=True))
            rec['runs'].append(env.observe('error' if error else 'ok', True))
        return rec


def crash_run(case):
    """kills a run at a chosen point, then resumes it"""
    with tei.scratch_dir() as tmp, Env(case, tmp) as env:
        env.reference()
        rec = base_record(case, env)
        env.prepare()

        def counting():
            c = sched.Counter([PKG_DIR], IO_FILES)
            c.install()
            cli.run_tool(case['tool'], env.argv(resume=case['resume']))
            c.uninstall()
            return json.dumps([c.n, c.marks[:4000]])
        code, text = sched.in_child(counting)
        if code != 0:
            raise RuntimeError('run in child ended with %s %s' % (code, text))
        try:
            n, marks = json.loads(text)
        except ValueError:
            n, marks = json.loads(text[:text.rindex(',')] + ']]')
        if case['at'][0] == 'io' and marks:
            point = marks[int(case['at'][1] * (len(marks) - 1))]
        else:
            point = 1 + int(case['at'][1] * (n - 1))
        env.prepare()

        def crashing():
            c = sched.Counter([PKG_DIR], IO_FILES, stop_at=point)
            c.install()
            cli.run_tool(case['tool'], env.argv(resume=case['resume']))
            return ''
        code, text = sched.in_child(crashing)
        rec['code'] = code
        run = env.observe('error', case['resume'], crashed=code == 77)
        if code not in (0, 77):
            raise RuntimeError('run in child ended with %s %s' % (code, text))
        if code == 77:
            rec['runs'].append(run)
            shutil.rmtree(env.temps)
            os.makedirs(env.temps)
            error = cli.run_tool(case['tool'], env.argv(resume=True))
            rec['runs'].append(env.observe('error' if error else 'ok', True))
        else:
            rec['nontrivial'] = False
        return rec


def fault_run(case):
    """writing fails (no space): the file is reported, nothing incomplete is left, resume completes"""
    import resource
    import signal
    with tei.scratch_dir() as tmp, Env(case, tmp) as env:
        env.reference()
        rec = base_record(case, env)
        env.prepare()

        def limited():
            null = os.open(os.devnull, os.O_WRONLY)     # only the files of the run are limited
            os.dup2(null, 1)
            os.dup2(null, 2)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (case['space'], case['space']))
            return 'error' if cli.run_tool(case['tool'], env.argv(resume=case['resume'])) else 'ok'
        code, status = sched.in_child(limited)
        if code != 0:
            raise RuntimeError('run in child ended with %s %s' % (code, status))
        run = env.observe(status, case['resume'], faulty=True)
        # files whose result needs more space could not be processed
        run['kinds'] = [
            'bad' if f['kind'] != 'bad' and too_big(env, k, case) else f['kind']
            for k, f in enumerate(case['files'])
        ]
        if any(f['kind'] == 'fail' for f in case['files']) and not case['failedPath']:
            run['kinds'] = [
                f['kind'] if f['kind'] == 'fail' else kk
                for f, kk in zip(case['files'], run['kinds'])
            ]
        rec['runs'].append(run)
        shutil.rmtree(env.temps)
        os.makedirs(env.temps)
        error = cli.run_tool(case['tool'], env.argv(resume=True))
        rec['runs'].append(env.observe('error' if error else 'ok', True))
        return rec


def too_big(env, k, case):
    data = env.full[k] if env.full[k] is not None else env.full_failed[k]
    sizes = [len(data or b'')]
    if case['tool'] in ('fulltext', 'figure'):      # a working copy of the source is written, too
        sizes.append(os.path.getsize(os.path.join(env.src, env.names[k])))
    return max(sizes) > case['space']


# ---------------------------------------------------------------- cases

BAD = ['no-target', 'target', 'attributes']


def rand_file(rng, tool, k, kind, gz=False):
    layout = cli.rand_layout(rng)
    layout.update(swap=False, drop=0, lineno=False)
    damage = ''
    if kind == 'bad':
        damage = rng.choice(BAD + (
            ['two-titles'] if tool in ('header', 'segmentation') else ['no-container']))
    elif kind == 'fail':
        damage = rng.choice(['title', 'no-title'])
    article = cli.rand_article(rng, size=rng.choice([1, 2]))
    if kind == 'fail' or True:
        article['title'] = cli.sentence(rng, 6, 9)
    return {'name': 'doc%d' % k, 'article': article, 'layout': layout, 'kind': kind,
            'damage': damage, 'pre': False, 'gz': gz}


def rand_batch(rng, tools=None, kinds=('ok', 'ok', 'bad', 'fail'), n=None, **kw):
    tool = rng.choice(tools or sorted(cli.TOOLS))
    if tool not in ('header', 'segmentation'):
        kinds = [k for k in kinds if k != 'fail'] or ['ok']
    files = [
        rand_file(rng, tool, k, rng.choice(kinds), gz=rng.random() < .15)
        for k in range(n or rng.randint(2, 4))
    ]
    args = []
    if tool == 'header':
        args = ['--fields=title,abstract', '--required-fields=title']
    elif tool == 'segmentation':
        args = ['--required-fields=title']
    elif tool in ('figure', 'table', 'affiliation', 'reference'):
        args = rng.choice(cli.TOOL_ARGS[tool])
    elif tool == 'fulltext':
        args = rng.choice(cli.TOOL_ARGS[tool])
    case = {
        'tool': tool, 'files': files, 'args': args, 'failedPath': rng.random() < .6,
        'skip': rng.random() < .5, 'resume': rng.random() < .4, 'workers': rng.choice([1, 2, 3, 8]),
        'mkdirs': rng.random() < .5, 'relative': rng.random() < .3,
        'slash': rng.choice(['', '', '', '/'])
    }
    for f in files:
        f['pre'] = rng.random() < (.4 if case['resume'] else .15)
    case.update(kw)
    return case


def independence_cases(rng, tier):
    n = 120 if tier == 'quick' else 1500
    cases = []
    for k in range(n):
        case = rand_batch(rng, kinds=('ok', 'ok', 'ok', 'bad', 'fail'))
        if k % 12 == 0:
            case['mp'] = True
        elif k % 20 == 7:
            case['workers'] = 0        # beam pipeline
            case['skip'] = True
        if k % 10 == 3:
            for f in case['files']:
                f.update(kind='ok', damage='', pre=False)
            case['limit'] = rng.randint(1, 5)
        cases.append(case)
    return cases


def schedule_cases(rng, tier):
    """all tools; hand over at one or two points of the first tasks"""
    n = 200 if tier == 'quick' else 4000
    cases = []
    for k in range(n):
        tool = sorted(cli.TOOLS)[k % len(cli.TOOLS)]
        case = rand_batch(rng, tools=[tool], kinds=('ok', 'ok', 'ok', 'ok', 'bad'), n=2,
                          workers=2, resume=False)
        for f in case['files']:
            f['pre'] = False

        def points(m):
            return [int(rng.choice([1, 40, 300, 3000, 20000]) * rng.random()) + 1 for _ in range(m)]
        case['plan'] = {'0': points(rng.choice([1, 1, 2, 6])), '1': points(rng.choice([0, 1, 2, 6]))}
        cases.append(case)
    return cases


def error_cases(rng, tier):
    n = 160 if tier == 'quick' else 2000
    cases = []
    for k in range(n):
        case = rand_batch(rng, kinds=('ok', 'bad', 'bad', 'fail'), then_resume=rng.random() < .5)
        if k % 15 == 0:
            case['mp'] = True
        cases.append(case)
    return cases


def routing_cases(rng, tier):
    n = 150 if tier == 'quick' else 2000
    return [
        rand_batch(rng, tools=['header', 'segmentation'], kinds=('ok', 'fail', 'fail'),
                   then_resume=rng.random() < .3)
        for _ in range(n)
    ]


def crash_cases(rng, tier):
    n = 120 if tier == 'quick' else 2500
    cases = []
    for _ in range(n):
        cases.append(rand_batch(
            rng, kinds=('ok', 'ok', 'fail', 'bad'), workers=rng.choice([1, 1, 2]), skip=True,
            at=[rng.choice(['io', 'io', 'any']), rng.random()]
        ))
    return cases


def fault_cases(rng, tier):
    n = 40 if tier == 'quick' else 500
    cases = []
    for _ in range(n):
        case = rand_batch(rng, kinds=('ok', 'ok', 'fail'), space=rng.choice([0, 100, 700, 1200, 2500]),
                          resume=False)
        for f in case['files']:
            f['pre'] = False
            f['gz'] = False
        cases.append(case)
    return cases


def mc_cfg(tier):
    return '''SPECIFICATION Spec
CONSTANTS Files = {%s} Workers = {1, 2}
INVARIANTS EndsRight CrashSafe CopyInUse NothingLeft ResumeComplete NeverPartial OneWorkerPerFile
PROPERTY EventuallyEnds
CHECK_DEADLOCK FALSE
''' % ('1, 2' if tier == 'quick' else '1, 2, 3')


RULE = 'batches of generated files (good, unprocessable, failing checks, already done, gzip) through ' \
       'the real command lines; '
INDEP = Source('batches', 'props.batch:batch_run', 'TraceBatch', cases=independence_cases,
               case_timeout=120, rule=RULE + 'threads, processes, beam pipeline, limits')
SCHED = Source('interleavings', 'props.batch:batch_run', 'TraceBatch', cases=schedule_cases,
               case_timeout=120, rule=RULE + 'two files by two workers, handing over at chosen lines')
ERRORS = Source('errors', 'props.batch:batch_run', 'TraceBatch', cases=error_cases,
                case_timeout=120, rule=RULE + 'some fail')
ROUTING = Source('routing', 'props.batch:batch_run', 'TraceBatch', cases=routing_cases,
                 case_timeout=120, rule=RULE + 'quality checks pass or fail')
CRASH = Source('crashes', 'props.batch:crash_run', 'TraceBatch', cases=crash_cases,
               case_timeout=180, rule=RULE + 'killed at a chosen line or file operation, then resumed')
FAULT = Source('write-errors', 'props.batch:fault_run', 'TraceBatch', cases=fault_cases,
               case_timeout=180, rule=RULE + 'file size limit makes writing fail, then resumed')
MODEL = [('Batch', mc_cfg)]

PROPS = [
    Prop('B01', [INDEP, SCHED], models=MODEL),
    Prop('B02', [ERRORS], models=MODEL),
    Prop('B03', [CRASH, FAULT], models=MODEL),
    Prop('Q02', [ROUTING], models=MODEL),
]
