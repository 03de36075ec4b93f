"""Post-processing steps on token documents: P01-P03, L01, S01."""
from vlib import tei
from vlib.registry import Prop, Source
from xml.sax.saxutils import escape

NONE = ['', '']


# ---------------------------------------------------------------- driver (runs the real code)

def build_doc(lines, tags):
    """a real document with the given text lines; tags[l][k] = [t, s, pt, ps] for token k of line l"""
    from lxml import etree
    from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
        GrobidTrainingTeiStructuredDocument
    )
    root = etree.fromstring(
        '<tei><text>' + '<lb/>'.join(escape(x) for x in lines) + '</text></tei>'
    )
    doc = GrobidTrainingTeiStructuredDocument(
        root, tag_to_tei_path_mapping={}, container_node_path='text'
    )
    doc_lines = [line for page in doc.get_pages() for line in doc.get_lines_of_page(page)]
    for line, line_tags in zip(doc_lines, tags):
        tokens = doc.get_all_tokens_of_line(line)
        for k, token in enumerate(tokens):
            if not line_tags:
                continue
            t, s, pt, ps = line_tags[k % len(line_tags)]
            doc.set_tag_only(token, tei.join_tag(t))
            doc.set_sub_tag_only(token, tei.join_tag(s))
            doc._set_preserved_tag(token, tei.join_tag(pt))
            doc._set_preserved_tag(token, tei.join_tag(ps), level=2)
    return doc


def dump(doc):
    out = tei.dump_doc(doc)
    for line in out:
        for tok in line:
            x = tok['x']
            digits = x.isdecimal()
            tok['n'] = int(x) if digits and len(x) < 9 else -1
            tok['d'] = all(c.isdecimal() or c == '.' for c in x)
    return out


def get_step(case):
    kind = case['kind']
    ann = 'sciencebeam_trainer_grobid_tools.annotation.'
    import importlib
    if kind == 'replace':
        m = importlib.import_module(ann + 'replace_tags_annotator')
        return m.ReplaceTagsPostProcessingAnnotator(config=m.ReplaceTagsAnnotatorConfig(
            replaced_tag_by_tag={k: v or None for k, v in case['map']}
        ))
    if kind == 'merge':
        m = importlib.import_module(ann + 'merge_group_tags_annotator')
        return m.MergeGroupTagsPostProcessingAnnotator(config=m.MergeGroupTagsAnnotatorConfig(
            get_group_tag_for_tag_fn=dict(case['map']).get,
            tag_level=case['level'] or None
        ))
    if kind in ('prev', 'next'):
        m = importlib.import_module(ann + 'expand_to_untagged_lines_annotator')
        cls = (
            m.ExpandToPreviousUntaggedLinesPostProcessingAnnotator if kind == 'prev'
            else m.ExpandToFollowingUntaggedLinesPostProcessingAnnotator
        )
        return cls(config=m.ExpandToUntaggedLinesAnnotatorConfig(
            enabled_tags=set(case['enabled'])
        ))
    if kind == 'remove':
        m = importlib.import_module(ann + 'remove_untagged_annotator')
        return m.RemoveUntaggedPostProcessingAnnotator()
    cfg = case['cfg']
    if kind == 'lineno':
        m = importlib.import_module(ann + 'line_number_annotator')
        return m.TextLineNumberAnnotator(config=m.TextLineNumberAnnotatorConfig(
            tag=cfg['tag'], min_line_number=cfg['min'], max_line_number_gap=cfg['gap'],
            line_number_ratio_threshold=cfg['ratio'][0] / cfg['ratio'][1]
        ))
    assert kind == 'segment'
    m = importlib.import_module(ann + 'segmentation_annotator')
    mapping = {}
    for tag, seg in cfg['map']:
        mapping.setdefault(seg, set()).add(tag)
    return m.SegmentationAnnotator(
        m.SegmentationConfig(
            segmentation_mapping=mapping, front_max_start_line_index=cfg['frontMax'],
            page_header_max_first_line_index=cfg['headMax'], no_merge_references=cfg['noMergeRef']
        ),
        preserve_tags=cfg['preserve']
    )


def post_run(case):
    doc = build_doc(case['lines'], case['tags'])
    entry = dump(doc)
    step = get_step(case)
    result = step.annotate(doc)
    rec = {k: v for k, v in case.items() if k not in ('lines', 'tags')}
    rec.update({'entry': entry, 'after': dump(result)})
    return rec


# ---------------------------------------------------------------- cases

WORDS = ['alpha', 'Beta', 'x', 'y1', 'gamma', 'delta', '7', '12', '3']


def rand_lines(rng, max_lines=5, words=WORDS, large=False):
    lines = []
    for _ in range(rng.randint(1, max_lines) if not large else rng.choice([1, 6, 15])):
        n = rng.choice([0, 1, 1, 2, 3, 4] if not large else [0, 1, 2, 4, 8, 16])
        line = rng.choice(['', '', ' ']) + rng.choice([' ', ' ', '  ', ', ', '.', '\n']).join(
            rng.choice(words) for _ in range(n)
        ) + rng.choice(['', '', ' ', '.'])
        lines.append(line)
    if not ''.join(lines).strip():
        lines.append('alpha')
    return lines


def rand_tag(rng, values, p):
    if rng.random() > p:
        return NONE
    return [rng.choice(['b', 'i', 'i', '']), rng.choice(values)]


def rand_tags(rng, lines, values, subs=('S', 'T'), large=False):
    p, pp = rng.choice([(.3, 0), (.6, 0), (.4, .3), (.1, .6), (.8, .2)])
    stay = rng.choice([0, .7, .9]) if large else 0     # long stretches
    out = []
    last = [NONE] * 4
    for _ in lines:
        out.append([])
        for _ in range(9 if not large else 34):
            if rng.random() < stay:
                last = [[x[0] and 'i', x[1]] for x in last]
            else:
                last = [rand_tag(rng, values, p), rand_tag(rng, subs, p / 2),
                        rand_tag(rng, values, pp), rand_tag(rng, subs, pp / 2)]
            out[-1].append(last)
    return out


VALUES = ['A', 'B', 'C', 'S']


def rand_post(rng, kind):
    large = rng.random() < .1
    lines = rand_lines(rng, large=large)
    case = {'kind': kind, 'lines': lines, 'tags': rand_tags(rng, lines, VALUES, large=large)}
    if kind == 'replace':
        case['map'] = rng.choice([
            [['A', '']], [['A', 'B']], [['A', 'B'], ['B', 'A']], [['A', 'C'], ['B', '']],
            [['C', 'A']], [['X', 'A']]
        ])
    elif kind == 'merge':
        case['map'] = rng.choice([[['A', 'B']], [['A', 'A'], ['B', 'C']], [['S', 'T']],
                                  [['S', 'S']], [['A', 'C']]])
        case['level'] = rng.choice([0, 2])
    elif kind in ('prev', 'next'):
        case['enabled'] = rng.choice([['A'], ['A', 'B'], ['C'], ['X']])
    return case


def post_cases(*kinds):
    def cases(rng, tier):
        n = (1600 if tier == 'quick' else 20000) // len(kinds)
        return [rand_post(rng, k) for k in kinds for _ in range(n)]
    return cases


def combo(c):
    """'b-A', 'pA' (preserved), 'A/S' (with sub tag), '' -> [t, s, pt, ps]"""
    main, _, sub = c.partition('/')

    def one(v, inside):
        return tei.split_tag(v) if v[1:2] == '-' else [inside, v]
    out = [NONE, NONE, NONE, NONE]
    if main:
        out[2 if main[0] == 'p' else 0] = one(main[1:] if main[0] == 'p' else main, 'i')
    if sub:
        out[3 if sub[0] == 'p' else 1] = one(sub[1:] if sub[0] == 'p' else sub, 'i')
    return out


def from_gen(configs):
    """documents enumerated by TLC x configurations"""
    def adapt(docs, rng, tier):
        cases = []
        for doc in docs:
            lines, tags = [[]], [[]]
            for k, tok in enumerate(doc):
                if tok['g'] == 'l':
                    lines.append([])
                    tags.append([])
                lines[-1].append('w%d' % k)
                if tags[-1]:
                    tags[-1].append([NONE, NONE, NONE, NONE])
                tags[-1].append(combo(tok['c']))
            for cfg in configs:
                cases.append(dict(cfg, lines=[' '.join(x) for x in lines], tags=tags))
        limit = 6000 if tier == 'quick' else 120000
        if len(cases) > limit:
            cases = rng.sample(cases, limit)
        return cases
    return adapt


def gen_cfg(kinds, quick, thorough):
    return lambda tier: 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n' \
        'CONSTANTS MaxTok = %d Kinds = "%s"\n' % (quick if tier == 'quick' else thorough, kinds)


def post_source(name, kinds):
    return Source(
        name, 'props.post:post_run', 'TracePost', cases=post_cases(*kinds), chunk=1000,
        rule='random documents (words, punctuation, blanks, empty lines) with random current and '
             'preserved tags and sub tags, random configuration'
    )


def gen_source(name, kinds, quick, thorough, configs):
    return Source(
        name, 'props.post:post_run', 'TracePost', gen=('GenDocs', gen_cfg(kinds, quick, thorough)),
        adapt=from_gen(configs), chunk=2500,
        rule='every document of at most %d tokens (TLC) with every tag combination, times '
             'configurations' % quick
    )


# line numbers

def rand_lineno(rng):
    n = rng.choice([3, 6, 12, 20])
    if rng.random() < .05:
        n = rng.choice([60, 130])
    start = rng.choice([0, 1, 1, 1, 5, 8, 97, 100, 995])
    num = start
    lines = []
    for _ in range(n):
        r = rng.random()
        if r < .6:
            lines.append('%d%s' % (num, rng.choice([' word', '', ' a b', '.'])))
            num += rng.choice([1, 1, 1, 1, 2, 3, 5, 0, -2, 9])
            num = max(0, num)
        elif r < .75:
            lines.append(rng.choice(['text only', 'x 3', '', ' ', '%d' % rng.randint(0, 30)]))
        elif r < .8:
            lines.append(rng.choice(['3.5 table', '\u0663 arabic', '1a b', '-5 neg', '(2) x', '0', '00 x',
                                     '007 y', '\u00b2 x', '2\u00b2']))
        else:
            lines.append('plain words here')
    if not ''.join(lines).strip():
        lines.append('alpha')
    return {
        'kind': 'lineno', 'lines': lines,
        'tags': rand_tags(rng, lines, ['A', 'line_no']) if rng.random() < .4 else [[] for _ in lines],
        'cfg': {
            'tag': 'line_no', 'min': rng.choice([1, 2, 3, 5, 10]), 'gap': rng.choice([0, 1, 2, 10]),
            'ratio': rng.choice([[1, 10], [1, 2], [3, 10], [9, 10], [1, 1], [0, 1]])
        }
    }


# segmentation

SEG_LINES = ['1', '2', '3', '4', '5', '10', 'Running Head', 'Running Head', 'Other Header x', 'word',
             'two words', 'Running Head', '12 13', '1.2', '', ' ', 'p 3', '7 .', 'J Doe', 'a b c',
             '0', '05']
# lines of digits and punctuation, numbers in other scripts
SEG_MORE = ['1, 2', '12 / 13', '( 1 )', '3 - 4', '\u0663', '\u0661\u0660', '\u0663 \u0664', '1,', '7 , 8', '1 a']


def rand_segment(rng, big=False):
    n = rng.randint(1, 12) if not big else rng.choice([20, 35, 60])
    tag_values = ['title', 'abstract', 'author', 'section_title', 'reference', 'appendix', 'page',
                  'front', 'other', 'headnote', 'annex']
    mapping = rng.choice([
        [['title', 'front'], ['abstract', 'front'], ['section_title', 'body'],
         ['reference', 'reference'], ['appendix', 'annex']],
        [['title', 'front'], ['author', 'front'], ['reference', 'reference'], ['page', 'page'],
         ['front', 'front']],
        [['title', 'front'], ['section_title', 'body'], ['appendix', 'annex']],
    ])
    lines, tags = [], []
    pool = rng.sample(SEG_LINES, rng.randint(2, len(SEG_LINES)))
    if rng.random() < .3:
        pool = rng.sample(pool, min(len(pool), 4)) + rng.sample(SEG_MORE, 3)
    runs = rng.random() < .5
    cur = ''
    for _ in range(n):
        lines.append(rng.choice(pool))
        if runs:
            if rng.random() < .45:
                cur = rng.choice(['', '', ''] + tag_values)
            vals = [cur]
        else:
            vals = rng.choice([[''], [''], [rng.choice(tag_values)],
                               ['', rng.choice(tag_values)],
                               [rng.choice(tag_values), rng.choice(tag_values), '']])
        pres = rng.choice(['', '', '', 'page', 'front', 'body']) if rng.random() < .4 else ''
        line_tags = []
        for k in range(5):
            v = rng.choice(vals)
            line_tags.append([
                [rng.choice(['b', 'i', 'i', '']), v] if v else NONE,
                ['i', 'S'] if rng.random() < .1 else NONE,
                ['b' if k == 0 else 'i', pres] if pres and rng.random() < .8 else NONE, NONE
            ])
        tags.append(line_tags)
    if not ''.join(lines).strip():
        lines.append('alpha')
        tags.append([])
    return {
        'kind': 'segment', 'lines': lines, 'tags': tags,
        'cfg': {
            'map': mapping, 'frontMax': rng.choice([0, 0, 1, 2, 4]),
            'headMax': rng.choice([0, 1, 3, 50]), 'noMergeRef': rng.random() < .25,
            'preserve': rng.random() < .5
        }
    }


HEADS = ['Running Head', 'Other Header x', 'J Doe', 'two words', 'a b c', 'even pages', 'odd pages 2']


def rand_paged(rng):
    """a document of several pages: repeated headers, page numbers, a front part"""
    case = rand_segment(rng)
    heads = rng.sample(HEADS, rng.randint(1, 4))
    if rng.random() < .2:
        heads[0] = rng.choice(SEG_MORE)
    counts = [rng.randint(1, 5 if rng.random() < .9 else 25) for _ in heads]
    lines = [h for h, c in zip(heads, counts) for _ in range(c)]
    number = rng.randint(0, 3)
    for _ in range(rng.randint(0, 5)):
        number += rng.choice([1, 1, 1, 2, 5, -1])
        lines.append(str(max(0, number)))
    lines += [rng.choice(SEG_LINES) for _ in range(rng.randint(0, 4))]
    if rng.random() < .7:
        numbers = sorted((t for t in lines if t.isdigit()), key=int)
        rng.shuffle(lines)
        if rng.random() < .7:
            lines = [numbers.pop(0) if t.isdigit() else t for t in lines]
    p_tag = rng.choice([0, .1, .3])
    tags = []
    for text in lines:
        value = rng.choice(['title', 'author', 'reference', 'appendix', 'section_title', 'page'])
        if text.isdigit() and rng.random() < .3:
            value = 'page'
        main = value if rng.random() < (.4 if text.isdigit() else p_tag) else ''
        pres = 'page' if text.isdigit() and rng.random() < .3 else ''
        tags.append([
            [['b' if k == 0 else 'i', main] if main else NONE, NONE,
             ['b' if k == 0 else 'i', pres] if pres else NONE, NONE]
            for k in range(5)
        ])
    case['lines'], case['tags'] = lines, tags
    case['cfg']['headMax'] = rng.choice([3, 10, 50, 50])
    return case


def lineno_cli_run(case):
    """the same through the command line: which tokens end up marked as line numbers"""
    import os
    from lxml import etree
    from vlib import cli
    cfg = case['cfg']
    entry = dump(build_doc(case['lines'], [[] for _ in case['lines']]))
    container = 'text/front' if case['tool'] == 'header' else 'text'
    items = []
    for k, line in enumerate(case['lines']):
        items += ([{'k': 'lb'}] if k else []) + ([{'k': 't', 'x': line}] if line else [])
    with tei.scratch_dir() as tmp:
        src, xml, out = (os.path.join(tmp, n) for n in ('src', 'xml', 'out'))
        cli.write_file(os.path.join(src, cli.source_name(case['tool'], 'a')),
                       tei.wrap_document(items, container))
        cli.write_file(os.path.join(xml, 'a.xml'), '<article/>')
        args = []
        for name, key, dflt in (('min-line-numbers-per-page', 'min', 10),
                                ('max-line-number-gap', 'gap', 10)):
            if cfg[key] != dflt or case['explicit']:
                args.append('--%s=%d' % (name, cfg[key]))
        if cfg['ratio'] != [1, 10] or case['explicit']:
            args.append('--min-line-number-ratio=%s' % (cfg['ratio'][0] / cfg['ratio'][1]))
        error = cli.run_tool(case['tool'], cli.argv_for(
            case['tool'], src, xml, out, args + ['--use-line-number-annotator']))
        if error:
            raise RuntimeError(error)
        root = etree.parse(os.path.join(out, cli.source_name(case['tool'], 'a'))).getroot()
    marked = tei.tokens_in(tei.find_path(root, container)[0], 'note[@type="line_no"]')
    after = [[dict(tok) for tok in line] for line in entry]
    solid = [tok for line in after for tok in line if not tok['sp']]
    pos = 0
    text = ''.join(tok['x'] for tok in solid)
    assert text == ''.join(c for c, _ in marked), (text, marked)
    for tok in solid:
        if all(m for _, m in marked[pos:pos + len(tok['x'])]):
            tok['t'] = ['', 'line_no']
        pos += len(tok['x'])
    return {'kind': 'lineno', 'cfg': cfg, 'entry': entry, 'after': after}


def lineno_cli_cases(rng, tier):
    cases = []
    for _ in range(300 if tier == 'quick' else 3000):
        case = rand_lineno(rng)
        case.pop('tags')
        case['lines'] = [x.replace('\u00b2', '2') for x in case['lines']] + ['end of it']
        case['cfg'].update(min=rng.choice([1, 2, 3, 5, 10]), gap=rng.choice([0, 1, 3, 10, 10]))
        cases.append(dict(case, tool='header',
                          explicit=rng.random() < .5))
    return cases


def lineno_cases(rng, tier):
    return [rand_lineno(rng) for _ in range(3000 if tier == 'quick' else 30000)]


def segment_cases(rng, tier):
    return [
        rand_paged(rng) if rng.random() < .5 else rand_segment(rng, rng.random() < .05)
        for _ in range(8000 if tier == 'quick' else 60000)
    ]


MC_CFG = '''
CONSTANTS MaxTok = %d MaxLine = %d MaxStep = %d
 Steps = {%s}
 Numbers = {%s}
SPECIFICATION Spec
INVARIANTS TextKept SubsKept Replaced ExpandedPrev ExpandedNext Grouped Removed Numbered Segmented Settled
CHECK_DEADLOCK FALSE
'''


def mc(tok, line, step, steps, numbers=''):
    """sizes: (quick, thorough)"""
    def cfg(tier):
        k = 0 if tier == 'quick' else 1
        return MC_CFG % (tok[k], line[k], step[k], ', '.join('"%s"' % s for s in steps), numbers)
    return ('MCPost', cfg)


TAG_STEPS = ['replace', 'merge', 'submerge', 'prev', 'next', 'remove']
MC_TAGS = mc((3, 4), (2, 2), (2, 2), TAG_STEPS)
MC_LINES = mc((3, 4), (3, 3), (2, 2), ['lineno', 'segment', 'segment-kept', 'next'], '1, 3')

PROPS = [
    Prop('P01', [
        post_source('random-replace-merge', ['replace', 'merge']),
        gen_source('all-small-replace', 'tags', 3, 4, [
            {'kind': 'replace', 'map': [['A', 'B']]}, {'kind': 'replace', 'map': [['A', '']]},
            {'kind': 'replace', 'map': [['A', 'B'], ['B', 'A']]},
        ]),
        gen_source('all-small-merge', 'subs', 3, 4, [
            {'kind': 'merge', 'map': [['A', 'G']], 'level': 0},
            {'kind': 'merge', 'map': [['S', 'G']], 'level': 2},
            {'kind': 'merge', 'map': [['S', 'G'], ['T', 'H']], 'level': 2},
        ]),
    ], models=[MC_TAGS]),
    Prop('P02', [
        post_source('random-expand', ['prev', 'next']),
        gen_source('all-small-expand', 'tags', 3, 4, [
            {'kind': 'prev', 'enabled': ['A']}, {'kind': 'next', 'enabled': ['A']},
            {'kind': 'prev', 'enabled': ['A', 'B']}, {'kind': 'next', 'enabled': ['B']},
        ]),
    ], models=[MC_TAGS]),
    Prop('P03', [
        post_source('random-remove', ['remove']),
        gen_source('all-small-remove', 'tags', 4, 5, [{'kind': 'remove'}]),
    ], models=[MC_TAGS]),
    Prop('L01', [Source(
        'random-line-numbers', 'props.post:post_run', 'TracePost', cases=lineno_cases, chunk=1000,
        rule='random pages with running, repeated, gapped and misplaced numbers, random thresholds'
    ), Source(
        'command-lines', 'props.post:lineno_cli_run', 'TracePost', cases=lineno_cli_cases, chunk=400,
        rule='such pages through the header command line with its options'
    )], models=[MC_LINES]),
    Prop('S01', [Source(
        'random-segmentation', 'props.post:post_run', 'TracePost', cases=segment_cases, chunk=1000,
        rule='random documents of tagged lines, page numbers and repeated headers, random '
             'configuration'
    )], models=[MC_LINES]),
]
