"""The complex matcher: M06."""
from vlib import tei
from vlib.registry import Prop, Source
from props import post

NONE = ['', '']
CASED = 'abcdefghijklmnopqrstuvwxyz' 'αβγδεζηθικλμνξοπρτυφχψω' 'абвгдежзийклмнопрстуфхцчшщъыьэюя'


def word(n, length):
    """the n-th word (1..): words have no characters in common"""
    return CASED[n - 1] + ''.join(chr(0x4e00 + 8 * n + k) for k in range(length - 1))


def damaged(n, length):
    x = word(n, length)
    return x[:2] + chr(0x4e00 + 8 * n + 7) + x[3:]


def dump(doc, length):
    ids = {word(n, length): (n, 0) for n in range(1, len(CASED) + 1)}
    ids.update({damaged(n, length): (n, 1) for n in range(1, len(CASED) + 1)})
    out = tei.dump_doc(doc)
    for line in out:
        for tok in line:
            tok['w'], tok['d'] = ids.get(tok['x'].lower(), (0, 0))
    return out


def complex_run(case):
    from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
    from sciencebeam_trainer_grobid_tools.core.annotation import matching_annotator as m
    cfg = case['cfg']
    n = cfg['len']

    def spell(w, up):
        return '*' if w == 0 else word(w, n).upper() if up else word(w, n)

    def text(ws, up=False):
        return ' '.join(spell(w, up) for w in ws)

    def junked(ws, junk):
        """with characters that do not count"""
        x = text(ws)
        return {'': x, '.': x + '.', '*': x.replace(' ', '* '), '**': '*' + x + '*'}[junk]
    lines = [text(line, k in case['upper']) for k, line in enumerate(case['lines'])]
    for k, w in case['hurt']:
        lines[k] = lines[k].replace(spell(w, k in case['upper']), (str.upper if k in case['upper'] else str)(
            damaged(w, n)))
    doc = post.build_doc(lines, case['tags'])
    entry = dump(doc, n)
    targets = [
        TargetAnnotation(
            [junked(v, t['junk']) for v in t['vals']] if t['list'] else junked(t['vals'][0], t['junk']),
            t['name'],
            match_multiple=t['many'], bonding=t['bond'], require_next=t['next'],
            sub_annotations=[TargetAnnotation(text(s['v']), s['name']) for s in t['subs']]
        ) for t in case['targets']
    ]
    kwargs = {}
    if cfg['thr']:
        thr = cfg['thr'] / 10
        kwargs = dict(
            seq_match_filter=m.get_simple_fuzzy_match_filter(
                thr, min_match_count=m.DEFAULT_SEQ_MIN_MATCH_COUNT,
                ratio_min_match_count=m.DEFAULT_SEQ_RATIO_MIN_MATCH_COUNT),
            choice_match_filter=m.get_simple_fuzzy_match_filter(
                thr, min_match_count=m.DEFAULT_CHOICE_MIN_MATCH_COUNT,
                ratio_min_match_count=m.DEFAULT_CHOICE_RATIO_MIN_MATCH_COUNT)
        )
    result = m.MatchingAnnotator(targets, m.MatchingAnnotatorConfig(
        use_tag_begin_prefix=cfg['begin'], max_gap=cfg['gap'], **kwargs)).annotate(doc)
    rec = {k: v for k, v in case.items() if k not in ('lines', 'tags', 'upper', 'hurt')}
    rec.update({'entry': entry, 'after': dump(result, n)})
    return rec


def split_lines(rng, words, most=3):
    lines = []
    while words:
        k = rng.randint(1, most)
        lines.append(words[:k])
        words = words[k:]
    return lines


def rand_complex(rng):
    """field values standing in lines or as whole lines, other lines, repeats, earlier labels"""
    unique = rng.random() < .7
    n_words = 60 if unique else rng.choice([6, 10])
    fresh = list(range(1, n_words + 1))
    rng.shuffle(fresh)

    def words(k):
        if unique:
            return [fresh.pop() for _ in range(k)]
        return [rng.choice(fresh) for _ in range(k)]
    names = rng.choice([['A'], ['A', 'B'], ['A', 'B', 'author']])
    targets, blocks = [], []
    for _ in range(rng.randint(1, 4)):
        as_list = rng.random() < .25
        vals = []
        for _ in range(rng.randint(1, 3) if as_list else 1):
            v = words(rng.randint(1, 4))
            vals.append(v)
        flat = [w for v in vals for w in v]
        subs = []
        if rng.random() < .4:
            for _ in range(rng.randint(1, 2)):
                k = rng.randrange(len(flat))
                subs.append({'name': rng.choice(['S', 'T']), 'v': flat[k:k + rng.randint(1, 2)]})
        t = {'name': rng.choice(names), 'vals': vals, 'list': as_list, 'bond': rng.random() < .3,
             'next': rng.random() < .15, 'many': rng.random() < .3, 'subs': subs,
             'junk': rng.choice(['', '', '', '.', '*', '**'])}
        targets.append(t)
        for v in vals:
            for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]) if not as_list else rng.choice([0, 1, 1, 1])):
                if len(v) <= 3 and rng.random() < .5:
                    blocks.append([words(rng.choice([0, 0, 1])) + v + words(rng.choice([0, 0, 1]))])
                else:
                    blocks.append(split_lines(rng, list(v)))
    if rng.random() < .5:
        rng.shuffle(blocks)
    lines = []
    for b in blocks:
        for _ in range(rng.choice([0, 0, 0, 1, 2, 7])):
            if unique and len(fresh) < 12:
                break
            lines.append(words(rng.choice([0, 1, 2])) if rng.random() < .9 else [0])
        if lines and unique and len(b) == 1 and len(lines[-1]) + len(b[0]) < 7 and rng.random() < .3:
            lines[-1] = lines[-1] + b[0] if rng.random() < .5 else b[0] + lines[-1]
        else:
            lines += b
    if not any(lines):
        lines.append([60])
    labelled = rng.random() < .3
    tags = []
    for line in lines:
        tags.append([
            [post.rand_tag(rng, names + ['D'], .2), post.rand_tag(rng, ['S', 'T'], .1), NONE, NONE]
            for _ in range(2 * len(line) + 1)
        ] if labelled and rng.random() < .4 else [])
    return {
        'lines': lines, 'tags': tags, 'targets': targets,
        'hurt': [[k, rng.choice(line)] for k, line in enumerate(lines)
                 if line and 0 not in line and rng.random() < .1],
        'upper': [k for k in range(len(lines)) if rng.random() < .2],
        'cfg': {'begin': rng.random() < .7, 'gap': rng.choice([0, 1, 2, 5, 5]),
                'thr': rng.choice([0, 8, 9, 10]), 'len': rng.choice([5, 6])}
    }


def cases(rng, tier):
    return [rand_complex(rng) for _ in range(4000 if tier == 'quick' else 60000)]


PROPS = [
    Prop('M06', [Source(
        'random-documents', 'props.complexm:complex_run', 'TraceComplex', cases=cases, chunk=500,
        rule='field values standing once or several times in lines or as whole lines, other lines, '
             'repeated words, earlier labels; lists, bonding, required next, multiple, sub values'
    )])
]


def show(bad, rec):
    print(sorted(bad), rec['cfg'])
    for t in rec['targets']:
        print('  ', {k: v for k, v in t.items() if v})
    for k, line in enumerate(rec.get('entry', [])):
        print('   ', [('%s:%s/%s' % (t['w'], '-'.join(t['t']), '-'.join(t['s'])),
                       '-'.join(a['t']) + '/' + '-'.join(a['s']))
                      for t, a in zip(line, rec['after'][k]) if not t['sp']])
