"""Quality checks of annotated documents: Q01."""
from vlib import tei
from vlib.registry import Prop, Source
from props import post

NONE = ['', '']
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
OTHER = '0123456789'


def dump(doc):
    out = tei.dump_doc(doc)
    for line in out:
        for tok in line:
            tok['cs'] = list(tok['x'])
            tok['ws'] = [] if tok['w'] == '~' else list(tok['w'])
    return out


def check_run(case):
    from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
    from sciencebeam_trainer_grobid_tools.annotation import checks as m
    from sciencebeam_trainer_grobid_tools import auto_annotate_segmentation as s
    from sciencebeam_trainer_grobid_tools.annotation.segmentation_annotator import SegmentationConfig
    doc = post.build_doc(case['lines'], case['tags'])
    before = dump(doc)
    targets = [
        TargetAnnotation([''.join(t['v'])] * 2 if t['multi'] else ''.join(t['v']), t['name'])
        for t in case['targets']
    ]
    asked = case['asked']

    def fields(x, how):
        return {'set': set(x), 'list': list(x), 'none': set(x) or None}[how]
    kwargs = dict(
        require_matching_fields=fields(asked['match'], case['how'][0]),
        required_fields=fields(asked['must'], case['how'][1]), target_annotations=targets
    )
    try:
        if asked['isSeg']:
            mapping = {}
            for f, seg in asked['seg']:
                mapping.setdefault(seg, set()).add(f)
            ok = s.is_segmentation_structured_document_passing_checks(
                doc, segmentation_config=SegmentationConfig(segmentation_mapping=mapping), **kwargs)
        else:
            ok = m.is_structured_document_passing_checks(doc, **kwargs)
        verdict = 'pass' if ok else 'fail'
        assert ok in (True, False)
    except RuntimeError:
        verdict = 'error'
    return {'doc': before, 'same': dump(doc) == before, 'targets': case['targets'], 'asked': asked,
            'verdict': verdict}


def damaged(rng, x):
    x = list(x)
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 4, 6, 8])):
        k = rng.randrange(len(x))
        r = rng.random()
        if r < .4:
            x[k] = rng.choice(OTHER)
        elif r < .7:
            x[k:k] = rng.choice(OTHER)
        elif len(x) > 1:
            del x[k]
    return ''.join(x)


def rand_check(rng):
    is_seg = rng.random() < .35
    names = ['A', 'B', 'C', 'D'][:rng.randint(1, 4)]
    letters = list(LETTERS)
    rng.shuffle(letters)
    targets, values = [], {}
    for name in names:
        if rng.random() < .15:
            continue
        n = rng.choice([5, 8, 12, 16, 24])
        rng.shuffle(letters)
        v = letters[:n]
        if len(v) > 3 and rng.random() < .6:
            k = rng.randint(1, len(v) - 1)
            v = v[:k] + [' '] + v[k:]
        values[name] = ''.join(v)
        targets.append({'name': name, 'v': v, 'multi': rng.random() < .04})
        if rng.random() < .04:
            targets.append({'name': name, 'v': ['x'], 'multi': False})
    rng.shuffle(targets)
    seg = [[n, rng.choice(['front', 'body'])] for n in names if rng.random() < .85]
    lines, tags = [''], [[]]

    def put(text, tag, begin=True):
        from props.refs import tokenise
        parts = text.split('\n')
        first = True
        for j, part in enumerate(parts):
            if j:
                lines.append('')
                tags.append([])
            lines[-1] += part
            for x in tokenise(part):
                t = NONE
                if tag and (x.strip() or rng.random() < .5):
                    t = [('b' if begin else 'i') if first else 'i', tag]
                    first = False if x.strip() else first
                tags[-1].append([t, NONE, NONE, NONE])
    preserved = rng.random() < .1
    for name in rng.sample(names, len(names)):
        r = rng.random()
        text = values.get(name) or ''.join(rng.sample(LETTERS, 6))
        text = damaged(rng, text)
        if ' ' in text and rng.random() < .2:
            text = text.replace(' ', '\n')
        elif ' ' in text and rng.random() < .2:
            text = text.replace(' ', ' ' * rng.randint(2, 6))
        tag = dict(seg).get(name, name) if is_seg else name
        if r < .12:
            tag = rng.choice(['', 'X'])
        if r > .8 and len(text) > 4:        # in two parts
            k = rng.randint(1, len(text) - 1)
            put(text[:k] + ' ', tag)
            put(rng.choice(['', '1 2 ', '\n']), '')
            put(text[k:], tag, rng.random() < .7)
        elif r > .72:                       # several times, or something else twice
            other = rng.choice([text, ''.join(rng.sample(LETTERS, rng.randint(1, 5)))])
            put(text + ' ', tag)
            for _ in range(2 if other != text else 1):
                put(rng.choice(['3 ', '\n']), '')
                put(other + ' ', tag)
        else:
            put(text, tag, rng.random() < .8)
        put(rng.choice(['.', ' ', '\n', ' 77 ', ' 5\n']), '')
    if preserved:
        for line in tags:
            for t in line:
                if rng.random() < .3:
                    t[2], t[0] = t[0], NONE
    if not ''.join(lines).strip():
        lines[0] += 'x'
        tags[0].append([NONE] * 4)
    return {
        'lines': lines, 'tags': tags, 'targets': targets, 'how': [rng.choice(['set', 'list', 'none'])
                                                                   for _ in range(2)],
        'asked': {
            'match': [n for n in names if rng.random() < .5],
            'must': [n for n in names if rng.random() < .3], 'isSeg': is_seg, 'seg': seg
        }
    }


def check_cases(rng, tier):
    return [rand_check(rng) for _ in range(3000 if tier == 'quick' else 40000)]


PROPS = [Prop('Q01', [
    Source('random-verdicts', 'props.checks:check_run', 'TraceCheck', cases=check_cases, chunk=300,
           rule='documents with fields labelled completely, damaged, partly, in two parts, across lines, '
                'under another or a preserved label or not at all; fields asked for, required, missing '
                'in the article or with several values; header and segmentation check'),
])]
