"""Copying pairs of files named by file lists: W01."""
import csv
import gzip
import os
import shutil
import tempfile

from vlib.registry import Prop, Source


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(gzip.compress(content) if path.lower().endswith('.gz') else content)


def read(path):
    with open(path, 'rb') as f:
        data = f.read()
    # compression goes by the name
    if path.lower().endswith('.gz'):
        return gzip.decompress(data)
    return data


def tree(path):
    out = {}
    for folder, _, names in os.walk(path):
        for name in names:
            p = os.path.join(folder, name)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


def content(case, side, k):
    text = '%s %d ' % (side, k)
    return text.encode() + bytes((k * 7 + j * 31) % 256 for j in range(case['size']))


def pattern_text(pattern):
    return ''.join(
        e['x'] if e['k'] == 'lit' else '{index}' if e['k'] == 'index' else '{%s}' % e['f']
        if e['k'] == 'self' else '{%s.%s}' % (e['k'], e['f'])
        for e in pattern
    )


def download_run(case):
    from sciencebeam_trainer_grobid_tools import download_source_files as m
    tmp = tempfile.mkdtemp(prefix='dl-')
    try:
        lists = {}
        ids = {}
        argv = []
        for side in ('document', 'target'):
            cfg = case[side]
            base = os.path.join(tmp, 'src', cfg['folder'])
            column = m.DEFAULT_DOCUMENT_COLUMN if side == 'document' else m.DEFAULT_TARGET_COLUMN
            column = cfg['column'] or column
            entries, names = [], []
            for k, e in enumerate(cfg['entries']):
                path = os.path.join(tmp, 'other' if e['other'] else base, e['p'])
                data = content(case, side, k)
                if e['exists']:
                    if not os.path.exists(path):
                        write(path, data)
                        ids[data] = '%s%d' % (side, k)
                    else:
                        data = read(path) if not path.lower().endswith('.gz') else gzip.decompress(
                            open(path, 'rb').read())
                names.append(path if e['abs'] or e['other'] else e['p'])
                entries.append({
                    'p': list(path if e['other'] else e['p']), 'exists': os.path.exists(path),
                    'c': ids.get(data, '?')
                })
            # an earlier entry may name a file that a later one makes
            for e, own in zip(cfg['entries'], entries):
                path = os.path.join(tmp, 'other' if e['other'] else base, e['p'])
                own['exists'] = os.path.exists(path)
                if own['exists']:
                    own['c'] = ids[gzip.decompress(open(path, 'rb').read())
                                   if path.lower().endswith('.gz') else read(path)]
            list_path = os.path.join(base, 'list' + cfg['kind'])
            shown = (lambda x: os.path.relpath(x, tmp)) if case['cwd'] else str
            os.makedirs(base, exist_ok=True)
            with open(list_path, 'w', newline='') as f:
                if cfg['kind'] == '.lst':
                    f.write('\n'.join(names))
                else:
                    w = csv.writer(f, delimiter=',' if cfg['kind'] == '.csv' else '\t')
                    w.writerow(['n', column, 'note'])
                    for k, name in enumerate(names):
                        w.writerow([k, name, 'x'])
            argv += ['--%s-file-list' % side, shown(list_path)]
            if cfg['base']:
                argv += ['--%s-base-path' % side, shown(base) + cfg['slash']]
            if cfg['column']:
                argv += ['--%s-file-column' % side, cfg['column']]
            argv += ['--%s-output-path' % side, shown(os.path.join(tmp, cfg['out']))]
            if cfg['pattern']:
                argv += ['--%s-output-filename-pattern' % side, pattern_text(cfg['pattern'])]
            lists[side] = entries
        if case['limit']:
            argv += ['--limit', str(case['limit'])]
        argv += ['--threads', str(case['threads'])]
        before = tree(tmp)
        failed = False
        cwd = os.getcwd()
        try:
            os.chdir(tmp)
            m.main(argv)
        except (ValueError, AssertionError):
            failed = True
        finally:
            os.chdir(cwd)
        after = tree(tmp)
        found, elsewhere = [], True
        for path in sorted(after):
            if path in before:
                continue
            at = path.split('/')[0]
            if at not in (case['document']['out'], case['target']['out']):
                elsewhere = False
                continue
            try:
                data = read(os.path.join(tmp, path))
            except OSError:
                data = b'not compressed'
            found.append({'at': at, 'path': list(path[len(at) + 1:]), 'c': ids.get(data, '?')})
        default = [{'k': 'self', 'f': 'filename', 'x': []}]
        return {
            'docs': lists['document'], 'tgts': lists['target'], 'found': found, 'failed': failed,
            'sources': all(after.get(p) == data for p, data in before.items()), 'elsewhere': elsewhere,
            'cfg': {
                'limit': case['limit'], 'docAt': case['document']['out'], 'tgtAt': case['target']['out'],
                'docPattern': [dict(e, x=list(e['x'])) for e in case['document']['pattern']] or default,
                'tgtPattern': [dict(e, x=list(e['x'])) for e in case['target']['pattern']] or default
            }
        }
    finally:
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- cases
NAMES = ['a', 'b', 'c', 'a1', 'x.y', '10.1101_2020', 'with space', 'é']
FIELDS = ['dir', 'filename', 'name', 'ext']


def lit(x):
    return {'k': 'lit', 'f': '', 'x': x}


def ref(k, f=''):
    return {'k': k, 'f': f, 'x': ''}


def rand_pattern(rng, side):
    r = rng.random()
    if r < .2:
        return []
    ext = rng.choice([[ref('self', 'ext')], [ref('self', 'ext'), lit('.gz')],
                      [lit('.pdf' if side == 'document' else '.xml')], [lit('.gz')]])
    if r < .35:
        return [ref('self', 'dir'), ref('self', 'filename')]
    if r < .5:
        return [ref('self', 'dir'), ref('self', 'name')] + ext
    if r < .65:
        return [ref('document', 'name')] + [lit('/')] * rng.randint(0, 1) + [ref('document', 'name')] + ext
    if r < .75:
        return [ref('index'), lit('-'), ref('target', 'name')] + ext
    if r < .85:
        return [ref('document', 'dir'), ref('target', 'filename'), lit('_'), ref('index')]
    return [rng.choice([lit('x'), ref('index'), ref(rng.choice(['self', 'document', 'target']),
                                                    rng.choice(FIELDS))])
            for _ in range(rng.randint(1, 4))] + [lit('_'), ref('index')]


def rand_download(rng):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    outside = rng.random() < .2
    case = {'limit': rng.choice([0, 0, 0, 1, 2, 4]), 'threads': rng.choice([1, 1, 2, 4]),
            'size': rng.choice([0, 5, 300, 70000]), 'cwd': rng.random() < .3}
    dirs = rng.choice([[''], ['', 'd/', 'e/f/'], ['d/', 'd2/']])
    stems = ['%s%s' % (rng.choice(NAMES), k if rng.random() < .7 else '') for k in range(n)]
    folders = [rng.choice(dirs) for _ in range(n)]
    same = rng.random() < .3
    p_miss = rng.choice([0, 0, .2, .6])
    for side in ('document', 'target'):
        ext = '.pdf' if side == 'document' else '.xml'
        entries = []
        for k in range(n):
            e = ext + ('.gz' if rng.random() < .3 else '')
            if rng.random() < .05:
                e = rng.choice(['', '.PDF', '.tar' + ext, '.', ext + '.GZ', '.zip', ext + '.zip'])
            entries.append({
                'p': folders[k] + stems[k] + e, 'exists': rng.random() >= p_miss,
                'abs': not case['cwd'] and rng.random() < .2, 'other': outside and rng.random() < .5
            })
        if rng.random() < .07:
            entries = entries[:-1] if len(entries) > 1 else entries + [dict(entries[0])]
        case[side] = {
            'entries': entries, 'folder': 'both' if same else side, 'kind': rng.choice(['.lst', '.csv', '.tsv']),
            'column': rng.choice(['', '', 'col']), 'base': rng.random() < .5, 'slash': rng.choice(['', '/']),
            'out': 'out' if same else 'out-' + side, 'pattern': rand_pattern(rng, side)
        }
    if same:
        # both lists in the same folder
        case['target']['kind'] = {'.lst': '.csv', '.csv': '.tsv', '.tsv': '.lst'}[case['document']['kind']]
    return case


def cases(rng, tier):
    return [rand_download(rng) for _ in range(1200 if tier == 'quick' else 15000)]


PROPS = [
    Prop('W01', [Source(
        'random-lists', 'props.download:download_run', 'TraceDownload', cases=cases, chunk=100,
        rule='lists of 1 to 12 pairs (csv, tsv, plain; relative and absolute; missing files; limits), '
             'patterns with every placeholder, compressed or not, 1 to 4 threads'
    )], models=[('MCDownload', lambda tier: (
        'INIT Init\nNEXT Next\nINVARIANTS Complete OwnContent Paired OnlyExisting\n'
        'CONSTANTS MaxRows = %d Workers = 2\n' % (2 if tier == 'quick' else 3)
    ))])
]


def show(bad, rec):
    print(sorted(bad), 'failed' if rec.get('failed') else '', {k: rec[k] for k in ('limit', 'threads', 'size')})
    for s in ('document', 'target'):
        print('  ', s, {k: v for k, v in rec[s].items() if k not in ('entries', 'pattern')},
              pattern_text(rec[s]['pattern']))
        for e, o in zip(rec[s]['entries'], rec.get({'document': 'docs', 'target': 'tgts'}[s], [])):
            print('      ', e, o['c'], ''.join(o['p']))
    for f in rec.get('found', []):
        print('   found', f['at'], ''.join(f['path']), f['c'])
