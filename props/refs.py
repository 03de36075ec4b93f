"""Reference post-processing: R01."""
import os

from vlib import core, tei
from vlib.registry import Prop, Source
from props import post

NONE = ['', '']


def dump(doc):
    out = post.dump(doc)
    for line in out:
        for tok in line:
            x = tok['x']
            tok['cs'] = list(x.lower()) if len(x.lower()) == len(x) else list(x)
            tok['cl'] = [
                'a' if c.isascii() and c.isalpha() else 'w' if c.isalnum() or c == '_'
                else 'c' if c == ':' else 's' if not c.strip() else 'p' for c in x
            ]
            tok['wn'] = -1 if tok['w'] == '~' else len(tok['w'])
    return out


REGEXES = {'': r'\b[a-zA-Z]{2,}(\s?:)?$', 'doi': r'(?i)\bDOI(\s?:)?$', 'pii': r'(?i)\bPII(\s?:)?$'}


def default_config(tool):
    """the configuration of the command line"""
    if hasattr(tool, '_get_default_reference_annotator_config'):
        return tool._get_default_reference_annotator_config()
    return tool.AnnotatePipelineFactory(tool.parse_args([
        '--source-base-path=/nowhere', '--output-path=/nowhere', '--xml-path=/nowhere',
        '--xml-filename-regex=/a/b/', '--xml-mapping-path=' + os.path.join(core.REPO, 'config', 'xml-mapping.conf')
    ])).reference_annotator_config


def tidy_run(case):
    from sciencebeam_trainer_grobid_tools.annotation import reference_annotator as m
    from sciencebeam_trainer_grobid_tools import auto_annotate_reference as tool
    cfg = case['cfg']
    if case.get('default'):
        config = default_config(tool)
        if cfg['prefix']:
            config.include_prefix_enabled_sub_tags = tool.IDNO_SUB_TAGS
    else:
        config = m.ReferenceAnnotatorConfig(
            sub_tag_map=dict(cfg['map']), merge_enabled_sub_tags=set(cfg['merge']),
            include_prefix_enabled_sub_tags=set(cfg['prefix']),
            include_suffix_enabled_sub_tags=set(cfg['suffix']),
            prefix_regex_by_sub_tag_map={k: REGEXES[''.join(w)] for k, w in cfg['words']},
            etal_sub_tag=cfg['etal'], etal_merge_enabled_sub_tags=set(cfg['etals'])
        )
    doc = post.build_doc(case['lines'], case['tags'])
    entry = dump(doc)
    result = m.ReferencePostProcessingAnnotator(config).annotate(doc)
    return {'kind': 'tidy', 'cfg': cfg, 'entry': entry, 'after': dump(result)}


IDS = ['issn', 'isbn', 'doi', 'pii', 'pmid', 'pmcid', 'arxiv']
DEFAULT_CFG = {
    'map': [['reference-fpage', 'reference-page'], ['reference-lpage', 'reference-page']],
    'merge': ['reference-author', 'reference-editor', 'reference-issue', 'reference-page'],
    'suffix': ['reference-author', 'reference-editor'],
    'prefix': ['reference-' + k for k in IDS],
    'words': [['reference-' + k, list(k) if k in ('doi', 'pii') else []] for k in IDS],
    'etal': 'reference-etal', 'etals': ['reference-author', 'reference-editor'],
}
SMALL_CFG = {'map': [['Q', 'P']], 'merge': ['A', 'P'], 'suffix': ['A'], 'prefix': ['D', 'N'],
             'words': [['D', list('doi')], ['N', []]], 'etal': 'E', 'etals': ['A']}
PIECES = ['doi', 'DOI', 'Doi', 'doi:', 'doi :', 'PII:', 'ISSN', 'pubMed', 'arXiv:', '.', '. ', ',', ' and ',
          'et al', 'et al.', ' ', '  ', '(', 'x', '12', 'p12', '12ab:', 'a:', '\u00e9ab:', '_ab', ': ',
          'URL http:', 'doi.', 'Smith', 'no.', '.5', '..', 'adoi', 'doi2', 'doi: ,', 'doi:\u2009']


def rand_tidy(rng):
    default = rng.random() < .4
    if default:
        cfg = dict(DEFAULT_CFG)
        if rng.random() < .4:
            cfg['prefix'] = []
        subs = ['reference-' + k for k in ('author', 'editor', 'fpage', 'lpage', 'page', 'issue',
                                           'etal', 'doi', 'pii', 'pmid', 'isbn', 'year')]
    else:
        cfg = dict(SMALL_CFG)
        for key in ('merge', 'suffix', 'prefix', 'etals'):
            if rng.random() < .3:
                cfg[key] = [v for v in ['A', 'B', 'D', 'N', 'P'] if rng.random() < .4]
        cfg['words'] = cfg['words'] + [[v, []] for v in ['A', 'B', 'P']]
        cfg['map'] = rng.choice([cfg['map'], [], [['B', 'A'], ['Q', 'P']], [['A', 'B']]])
        subs = ['A', 'A', 'B', 'D', 'N', 'P', 'Q', 'E']
    subs = rng.sample(subs, rng.randint(1, min(5, len(subs))))
    lines, parts = [''], []
    begin_rate = rng.choice([0, .5, 1])
    main_rate = rng.choice([.05, .3])
    main = rng.choice([NONE, ['b', 'R']])
    for _ in range(rng.choice([1, 3, 6, 10]) if rng.random() < .95 else 30):
        sub = rng.choice(subs) if rng.random() < .5 else ''
        text = ''.join(rng.choice(PIECES) + rng.choice(['', '', ' ']) for _ in range(rng.randint(1, 2)))
        if rng.random() < main_rate:
            main = rng.choice([NONE, ['b', 'R'], ['b', 'R'], ['b', 'X'], ['i', 'R']])
        parts.append((text, sub, main, rng.random() < .15, rng.random() < begin_rate))
        main = ['i', main[1]] if main[1] else NONE
    # labels are per token: find the tokens of every part
    tags, line_tags = [], []
    lines = ['']
    marks = [[]]
    for text, sub, main, brk, begin in parts:
        if brk:
            lines.append('')
            marks.append([])
        start = len(lines[-1])
        lines[-1] += text
        marks[-1].append((start, len(lines[-1]), sub, main, begin))
    for line, ms in zip(lines, marks):
        line_tags = []
        pos = 0
        done = set()
        for x in tokenise(line):
            k = [j for j, m in enumerate(ms) if m[0] <= pos < m[1]][0]
            _, _, sub, main, begin = ms[k]
            first = k not in done
            if x.strip():
                done.add(k)
            line_tags.append([
                main if first or not main[1] else ['i', main[1]],
                ['b' if first and begin else rng.choice(['i', 'i', 'i', '']), sub] if sub else NONE,
                NONE, ['i', rng.choice(subs)] if rng.random() < .05 else NONE
            ])
            pos += len(x)
        tags.append(line_tags)
    if not ''.join(lines).strip():
        lines[0] += 'x'
        tags[0].append([NONE] * 4)
    return {'lines': lines, 'tags': tags, 'cfg': cfg, 'default': default}


def tokenise(text):
    """tokens of a line as in module TeiDoc"""
    out = []
    for c in text:
        k = tei.char_class(c)
        if out and k not in 'sp' and prev not in 'sp' and not (k == 'u' and prev == 'l'):
            out[-1] += c
        else:
            out.append(c)
        prev = k
    return out


def tidy_cases(rng, tier):
    return [rand_tidy(rng) for _ in range(4000 if tier == 'quick' else 50000)]


def gen_cfg(tier):
    return 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxTok = %d\n' % (
        3 if tier == 'quick' else 4)


def from_gen(docs, rng, tier):
    cases = []
    for doc in docs:
        line, tags = '', []
        for k, tok in enumerate(doc):
            x, sub, main = tok['x'], tok['s'], tok['m']
            if k:
                line += ' '
                tags.append([NONE] * 4)
            line += x
            tags.append([main, sub, NONE, NONE])
        cases.append({'lines': [line], 'tags': [tags], 'cfg': SMALL_CFG})
    limit = 6000 if tier == 'quick' else 120000
    return rng.sample(cases, limit) if len(cases) > limit else cases


MODEL = ('MCRef', lambda tier: 'INIT Init\nNEXT Next\nINVARIANTS RefKept Grow Whole Same NoneLost\n'
         'CONSTANTS MaxTok = %d\n' % (3 if tier == 'quick' else 4))
GEN = Source(
    'all-small-references', 'props.refs:tidy_run', 'TraceRef', gen=('GenRef', gen_cfg),
    adapt=from_gen, chunk=1000,
    rule='every document of at most 3 (thorough: 4) tokens of ten kinds, reference boundaries anywhere'
)
RANDOM = Source(
    'random-references', 'props.refs:tidy_run', 'TraceRef', cases=tidy_cases, chunk=500,
    rule='random text (names, dots, identifier words with and without colon, line breaks), labels and '
         'configurations, among them the default configuration of the command line'
)
PROPS = [Prop('R01', [RANDOM, GEN], models=[MODEL])]
