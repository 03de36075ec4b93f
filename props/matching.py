"""Matching of an article's field values with the text of a document: M01-M05."""
from vlib import tei
from vlib.registry import Prop, Source
from props import post

NONE = ['', '']
ALPHABET = 'abcdefghijklmnopqrstuvwxyz' 'αβγδεζηθικλμνξοπρτυφχψω' 'абвгдежзийклмнопрстуфхцчшщъыьэюя'


def word(n, length):
    """the n-th word (1..): words have no characters in common"""
    x = ALPHABET[(n - 1) * length:n * length]
    assert len(x) == length
    return x


def spell(n, length, how, dotted=False):
    """word n; dotted: the words begin with a character that is longer in lower case"""
    x = word(n, length)
    if dotted:
        return '\u0130' + x
    return {'l': x, 'u': x.upper(), 'c': x.capitalize()}[how]


def render(words, length, how='l', dotted=False):
    return ' '.join(spell(n, length, how, dotted) for n in words)


# ---------------------------------------------------------------- driver (runs the real code)

def config_of(cfg):
    from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
        SimpleSimpleMatchingConfig, SimpleTagConfig
    )
    n = cfg['len']
    tag_config_map = {}
    for name, c in cfg['tags']:
        regex = None
        if c['pre']:
            regex = r'(%s)\s*$' % word(c['pre'], n)
        elif c['preSub']:
            regex = r'({%s})\s*$' % c['preSub']
        tag_config_map[name] = SimpleTagConfig(
            match_prefix_regex=regex,
            alternative_spellings={
                render(k, n): [render(v, n) for v in vs] for k, vs in c['alts']
            },
            merge_enabled=c['merge'], extend_to_line_enabled=c['ext'],
            block_name=None if c['block'] == 'default' else c['block']
        )
    return SimpleSimpleMatchingConfig(
        lookahead_sequence_count=cfg['look'], use_begin_prefix=cfg['begin'],
        extend_to_line_enabled=cfg['extend'], use_sub_annotations=cfg['subs'],
        preserve_sub_annotations=cfg['keep'], tag_config_map=tag_config_map
    )


def dump(doc, length):
    ids = {}
    for n in range(1, len(ALPHABET) // length + 1):
        ids[word(n, length)] = n
    out = tei.dump_doc(doc)
    for line in out:
        for tok in line:
            tok['w'] = ids.get(tok['x'].lstrip('\u0130').lower(), 0)
            tok['n'] = -1
            tok['d'] = False
    return out


def match_run(case):
    from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
    from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
        SimpleMatchingAnnotator
    )
    from sciencebeam_trainer_grobid_tools.annotation.sub_tag_annotator import SubTagOnlyAnnotator
    cfg = case['cfg']
    n = cfg['len']
    how = case.get('case', [['l'], ['l']])
    dotted = case.get('dotted', False)
    lines = []
    k = 0
    for line in case['lines']:
        words = []
        for w in line:
            words.append(spell(w, n, how[0][k % len(how[0])], dotted))
            k += 1
        lines.append(' '.join(words))
    doc = post.build_doc(lines, case['tags'])
    entry = dump(doc, n)
    targets = []
    for k, t in enumerate(case['targets']):
        h = how[1][k % len(how[1])]
        values = [render(v, n, h, dotted) for v in t['vals']]
        targets.append(TargetAnnotation(
            values if t['multi'] else values[0], t['name'],
            sub_annotations=[
                TargetAnnotation(render(s['v'], n, h, dotted), s['name']) for s in t['subs']
            ]
        ))
    cls = SubTagOnlyAnnotator if case['kind'] == 'subs' else SimpleMatchingAnnotator
    result = cls(targets, config=config_of(cfg)).annotate(doc)
    rec = {k: v for k, v in case.items() if k not in ('lines', 'tags', 'case', 'dotted')}
    rec.update({'entry': entry, 'after': dump(result, n)})
    return rec


def extend_run(case):
    from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
        get_extended_line_token_tags
    )
    tags = [tei.join_tag(t) for t in case['tags']]
    out = get_extended_line_token_tags(
        tags, extend_to_line_enabled_map=dict(case['ext']), merge_enabled_map=dict(case['merge'])
    )
    return dict(case, out=[tei.split_tag(t) for t in out])


# ---------------------------------------------------------------- cases

TAG_CFG = {'merge': True, 'ext': True, 'block': 'default', 'alts': [], 'pre': 0, 'preSub': ''}


def rand_match(rng, kind, extend=None, sub_rate=.4):
    length = rng.choice([2, 3, 5, 6])
    n_words = rng.choice([4, 6, 8, 13])
    names = ['A', 'B', 'C'][:rng.randint(1, 3)]
    targets = []
    large = rng.random() < .05
    for _ in range(rng.randint(1, 5) if not large else 8):
        multi = rng.random() < .2
        vals = [
            [rng.randint(1, n_words) for _ in range(rng.randint(1, 3))]
            for _ in range(rng.randint(1, 4) if multi else 1)
        ]
        subs = []
        if rng.random() < (sub_rate if kind == 'match' else .9):
            flat = [w for v in vals for w in v]
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(len(flat))
                subs.append({'name': rng.choice(['S', 'T', 'U']),
                             'v': flat[k:k + rng.randint(1, 2)] if rng.random() < .85
                             else [rng.randint(1, n_words)]})
        targets.append({'name': rng.choice(names), 'vals': vals, 'multi': multi, 'subs': subs})
    lines = []
    for _ in range(rng.randint(1, 6) if not large else 14):
        line = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < .5:
                line += rng.choice(rng.choice(targets)['vals'])
            else:
                line += [rng.randint(1, n_words) for _ in range(rng.randint(1, 3))]
        if line and rng.random() < .25:
            k = rng.randint(0, len(line))
            lines.append(line[:k])
            line = line[k:]
        lines.append(line)
    if not any(lines):
        lines.append([1])
    values = names + ['D']
    p, pp = rng.choice([(0, 0), (0, 0), (0, 0), (.2, 0), (.4, .1), (0, .5)])
    tags = []
    for line in lines:
        tags.append([
            [post.rand_tag(rng, values, p), post.rand_tag(rng, ['S', 'T'], p / 2),
             post.rand_tag(rng, values, pp), post.rand_tag(rng, ['S', 'T'], pp / 2)]
            for _ in range(2 * len(line) + 1)
        ] if p or pp else [])
    tag_cfgs = []
    how = [[rng.choice('lllluc') for _ in range(5)], [rng.choice('lluc') for _ in range(4)]]
    for name in names:
        if rng.random() < .6:
            c = dict(TAG_CFG)
            c['merge'] = rng.random() < .6
            c['ext'] = rng.random() < .6
            c['block'] = rng.choice(['default', 'default', 'x', 'y'])
            if rng.random() < .2:
                how[1] = ['l']
                t = rng.choice(targets)
                c['alts'] = [[rng.choice(t['vals']), [
                    [rng.randint(1, n_words) for _ in range(rng.randint(1, 2))]
                    for _ in range(rng.randint(1, 2))
                ]]]
            if rng.random() < .2:
                c['pre'] = rng.randint(1, n_words)
            elif rng.random() < .2:
                c['preSub'] = rng.choice(['S', 'T'])
            tag_cfgs.append([name, c])
    dotted = (
        length >= 5 and rng.random() < .3 and not any(t['multi'] for t in targets)
        and not any(c['alts'] or c['pre'] for _, c in tag_cfgs)
    )
    return {
        'dotted': dotted, 'kind': kind, 'lines': lines, 'tags': tags, 'targets': targets, 'case': how,
        'cfg': {
            'look': rng.choice([0, 1, 2, 3, 200, 200]), 'begin': rng.random() < .85,
            'extend': (rng.random() < .4 if extend is None else extend),
            'subs': rng.random() < .7 or kind == 'subs', 'keep': rng.random() < .4,
            'len': length, 'tags': tag_cfgs
        }
    }


def match_cases(kind, quick, thorough, **kwargs):
    def cases(rng, tier):
        return [rand_match(rng, kind, **kwargs)
                for _ in range(quick if tier == 'quick' else thorough)]
    return cases



def from_gen_docs(scen, rng, tier):
    cases = []
    for g in scen:
        lines, tags = [[]], [[]]
        for tok in g['ts']:
            if tok['g'] == 'l':
                lines.append([])
                tags.append([])
            lines[-1].append(tok['w'])
            if tags[-1]:
                tags[-1].append([NONE] * 4)
            tags[-1].append([{'': NONE, 'A': ['b', 'A'], 'D': ['i', 'D']}[tok['e']]] + [NONE] * 3)
        cases.append({'kind': 'match', 'lines': lines, 'tags': tags, 'targets': g['t'],
                      'cfg': g['c']})
    limit = 5000 if tier == 'quick' else 120000
    return rng.sample(cases, limit) if len(cases) > limit else cases


def from_gen_lines(lines, rng, tier):
    cases = []
    for tags in lines:
        combos = [(m, e) for m in (True, False) for e in (True, False)]
        for m, e in (combos if tier != 'quick' else rng.sample(combos, 2)):
            cases.append({'kind': 'extend', 'tags': tags, 'merge': [['A', m]], 'ext': [['A', e]]})
    return cases


def long_lines(rng, tier):
    cases = []
    for _ in range(3000 if tier == 'quick' else 40000):
        names = ['A', 'B', 'C'][:rng.randint(1, 3)]
        begin = rng.random() < .8
        tags = []
        for _ in range(rng.randint(1, 6)):
            name = rng.choice(names + [''])
            n = rng.choice([1, 1, 2, 3, 5, 8, 13])
            first = rng.choice(['b', 'b', 'i'])
            tags += [[(first if k == 0 else 'i') if begin and name else '', name] for k in range(n)]
        cases.append({
            'kind': 'extend', 'tags': tags,
            'merge': [[x, rng.random() < .7] for x in names if rng.random() < .7],
            'ext': [[x, rng.random() < .7] for x in names if rng.random() < .7]
        })
    return cases


def model_constants(tier, what='docs'):
    quick = tier == 'quick'
    return (
        'CONSTANTS MaxTok = %d NWords = 2 Gaps = {"s", "l"} EntryTags = {"", "D"} '
        'Scenarios = {1,2,3,4,5,6}' % ((4 if what != 'model' else 3) if quick else 5)
    )


def gen_cfg(what):
    return lambda tier: (
        'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n%s What = "%s" MaxTags = %d\n'
        % (model_constants(tier), what, 5 if tier == 'quick' else 6)
    )


def model_cfg(*invariants, prop=None):
    return lambda tier: (
        'INIT Init\nNEXT Next\nINVARIANTS %s\n%s%s\n'
        % (' '.join(invariants), 'PROPERTY %s\n' % prop if prop else '',
           model_constants(tier, 'model'))
    )


# approximate search

def search_run(case):
    from sciencebeam_trainer_grobid_tools.utils import fuzzy
    hay, needle = ''.join(case['hay']), ''.join(case['needle'])
    threshold = case['thr'][0] / case['thr'][1]
    if case['kind'] == 'all':
        return dict(case, ranges=[
            list(r) for r in fuzzy.iter_fuzzy_search_all_index_ranges(
                hay, needle, threshold=threshold)
        ])
    fm = fuzzy.fuzzy_search(hay, needle, threshold=threshold)
    rng = fuzzy.fuzzy_search_index_range(hay, needle, threshold=threshold)
    return dict(
        case, onewindow=len(hay) <= 1000, range=list(rng) if rng else [],
        blocks=[list(b) for b in fm.matching_blocks if b[2]] if fm else []
    )


def search_cases(kind, quick, thorough):
    """a needle of different letters, damaged copies of it, and text without any of its letters"""
    def cases(rng, tier):
        out = []
        for _ in range(quick if tier == 'quick' else thorough):
            letters = list(ALPHABET)
            if rng.random() < .3:
                letters += list('0123456789-')
            rng.shuffle(letters)
            needle = letters[:rng.randint(5, 20)]
            other = letters[20:]
            junk = rng.choice([None, None, 'sparse', 'any'])

            def with_junk(x):
                # at least three others between
                k = rng.randint(3, 5)
                for c in rng.sample(['.', '*', '.,'], rng.randint(0, 3)):
                    if k + 3 > len(x):
                        break
                    x[k:k] = list(c)
                    k += len(c) + rng.randint(3, 5)
                return x
            junk_in_needle = junk and rng.random() < .5
            if junk_in_needle:
                needle = with_junk(needle)

            def filler(n):
                return [rng.choice(other) for _ in range(n)]

            def damaged():
                if junk == 'sparse':    # only in one of the two
                    return ([c for c in needle if c not in '.,*'] if junk_in_needle
                            else with_junk(list(needle)))
                x = list(needle)
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
                    k = rng.randrange(len(x))
                    r = rng.random()
                    if r < .4:
                        x[k] = rng.choice(other)
                    elif r < .7:
                        marks = [c for c in '.,*' if junk and c not in x]
                        x[k:k] = (rng.choice(marks) if marks and rng.random() < .6
                                  else filler(rng.choice([1, 1, 3])))
                    elif len(x) > 1:
                        del x[k]
                return x
            hay = filler(rng.choice([0, 2, 8, 15]))
            copies = rng.choice([0, 1, 1, 1, 2, 3])
            for _ in range(copies):
                hay += damaged() + filler(rng.choice([0, 1, 6, 20]))
            hay += filler(max(0, 5 - len(hay)))
            if kind == 'long':
                # about the limits of the windows searched one after the other
                before = rng.choice([0, 900, 960, 985, 995, 1000, 1900, 2950])
                hay = filler(before) + hay + filler(rng.choice([990, 1500]))
            out.append({'kind': 'all' if kind == 'all' else 'search', 'hay': hay, 'needle': needle,
                        'sparse': junk == 'sparse' and copies < 2,
                        'thr': rng.choice([[8, 10], [8, 10], [6, 10], [9, 10], [1, 1]])})
        return out
    return cases


# long texts

FIELDS = ['A', 'B', 'C']
ALPHABETS = ['nopqrstuvwxyz', 'αβγδεζηθικλμνξοπρτυφχψω', 'абвгдежзийклмнопрстуфхцчшщъыьэюя']
FILLER = 'abcdefghijklm'


def rand_word(rng, letters, low=3, high=9):
    return ''.join(rng.choice(letters) for _ in range(rng.randint(low, high)))


def text_run(case):
    """words: [[text, field or '', damaged, white space or line break after, sub field]]"""
    from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
    from sciencebeam_trainer_grobid_tools.annotation import simple_matching_annotator as m
    lines, flags = [[]], []
    for x, field, damaged, sep, sub in case['words']:
        lines[-1].append(x)
        if sep == '\n':
            lines.append([])
        elif sep:
            lines[-1].append(sep)
        flags.append((field, damaged, x, sub))
    doc = post.build_doc([''.join(x) for x in lines], [[] for _ in lines])
    config = m.SimpleSimpleMatchingConfig(
        extend_to_line_enabled=False, use_sub_annotations=True,
        tag_config_map={
            f: m.SimpleTagConfig(max_chunks=c['parts'], match_prefix_regex=c['prefix'] or None)
            for f, c in case['options']
        }
    )
    m.SimpleMatchingAnnotator(
        [TargetAnnotation(v, name, sub_annotations=[TargetAnnotation(sv, sn) for sn, sv in subs])
         for name, v, subs in case['targets']], config=config
    ).annotate(doc)
    solid = [tok for line in tei.dump_doc(doc) for tok in line if not tok['sp']]
    toks, pos = [], 0
    for field, damaged, x, sub in flags:
        n = 0
        while n < len(x):
            tok = solid[pos]
            pos += 1
            n += len(tok['x'])
            toks.append({'o': field, 'e': damaged, 't': tok['t'][1], 'so': sub, 's': tok['s'][1]})
        assert n == len(x), (n, x)
    assert pos == len(solid)
    return {'kind': 'text', 'toks': toks}


PUNCT = [(',', ','), ('-', '\u2013'), ('-', '\u2014'), ('\u2013', '-'), ('"', "'"), ("'", '"')]


THIN = '\u2009'
LABELS = ['1', '*', '2.', 'a)', '[3]', '+', '1,2', '$', '\u00a7', '(ii)', '**']


def like_other(words, k, m):
    """whether words[k:m] could also be taken for another part of the text"""
    x = ''.join(words[k:m])
    rest = ''.join(words[:k]) + '|' + ''.join(words[m:])
    n = len(x) // 2
    return x[:1] == x[1:2] or any(x[i:i + n] in rest for i in range(len(x) - n + 1))


def rand_text(rng):
    targets, pieces, options, one_line = [], [], [], []
    for name, letters in rng.sample(list(zip(FIELDS, ALPHABETS)), rng.randint(1, 3)):
        n = rng.choice([1, 3, 6, 15, 60])
        words = [rand_word(rng, letters, *((5, 9) if n > 1 else (2, 9))) for _ in range(n)]
        if n == 1 and rng.random() < .4:        # short ones
            x = rng.sample(letters, 3)
            words = rng.choice([[x[0], x[1]], [x[0] + x[1], x[2]], [x[0], x[1] + x[2]]])
            if rng.random() < .3:
                words = rng.sample(letters, rng.randint(5, 8))
            n = len(words)
        in_text, value = [], []
        damage = len(words[0]) > 4 and n >= 6 and rng.random() < .4
        parts = rng.choice([1, 2, 2]) if n >= 15 else 1
        with_subs = not damage and parts == 1 and rng.random() < .5
        upper = rng.random() < .2
        for k, w in enumerate(words):
            v, t, hurt = w, w, False
            if upper:
                t = w.upper()
            elif rng.random() < .1:
                t = w.capitalize()
            elif rng.random() < .1:
                v = w.upper()
            if damage and k % 3 == 1 and rng.random() < .7:
                hurt = True
                j = rng.randrange(1, len(t) - 1)
                t = rng.choice([t[:j] + t[j + 1:], t[:j] + rng.choice(FILLER) + t[j + 1:],
                                t[:j] + rng.choice(FILLER) + t[j:]])
            value.append(v)
            in_text.append([t, name, hurt, ' ', ''])
            if n > 2 and not damage and 0 < k < n - 1 and rng.random() < .1:
                a, b = rng.choice(PUNCT)
                value[-1] += a
                in_text[-1][3] = ''
                in_text.append([a if with_subs else b, name, False, ' ', ''])
        option = {'parts': rng.choice([parts, parts, 3]) if parts > 1 else 1, 'prefix': ''}
        subs = []
        if with_subs:
            at = [0] + [i + 1 for i, w in enumerate(in_text) if w[3] == ' ']   # words begin here
            k = rng.randint(0, 2)
            while k < n and len(subs) < 4:
                m = min(n, k + rng.choice([1, 1, 2, 4]))
                if like_other(words, k, m):
                    k = m
                    continue
                sub = name + rng.choice('pqr')
                subs.append([sub, ' '.join(value[k:m])])
                for w in in_text[at[k]:at[m]]:
                    w[4] = sub
                k = m + rng.choice([0, 0, 1, 3])
            rng.shuffle(subs)
        blank = THIN if rng.random() < .15 and n > 2 and not damage else ' '
        if n > 2 and parts == 1 and rng.random() < .3:
            # something in front that belongs to it
            label = rng.choice(['Abstract', 'SUMMARY', 'label', 'label', 'long'])
            if label == 'label':
                label = rng.choice(LABELS)
                option['prefix'] = r'({%s-l})\s*[\.-]*\s*$' % name
                subs.append([name + '-l', label])
            elif label == 'long':
                label = ' '.join(rand_word(rng, FILLER, 6, 9) for _ in range(rng.choice([6, 15])))
                option['prefix'] = r'({%s-l})\s*$' % name
                subs.append([name + '-l', label])
            else:
                option['prefix'] = r'(abstract|summary)\s*$'
            front = [[x, name, False, ' ', name + '-l' if subs and subs[-1][1] == label else '']
                     for x in label.split(' ')]
            one_line += front[:-1]
            if '{' in option['prefix'] and '[' in option['prefix'] and rng.random() < .3:
                front[-1][3] = ''
                front.append(['.', name, False, rng.choice(['', ' ']), ''])
            in_text = front + in_text
        targets.append([name, blank.join(value), subs])
        cuts = []
        if parts > 1:
            spaces = [i for i, w in enumerate(in_text) if w[3] == ' ']
            for j in range(1, parts):
                # a whole number of words in each part
                k = rng.randint(round(len(spaces) * (j - .1) / parts), round(len(spaces) * (j + .1) / parts))
                cuts.append(spaces[min(k, len(spaces) - 2)] + 1)
        options.append([name, option])
        for j, k in zip([0] + cuts, cuts + [len(in_text)]):
            pieces.append(in_text[j:k])
    words = []

    def filler(n):
        return [[rand_word(rng, FILLER), '', False, ' ', ''] for _ in range(n)]
    words += filler(rng.choice([0, 0, 5, 60, 200]))
    for k, piece in enumerate(pieces):
        words += piece
        words += filler(rng.choice([60, 80] if k + 1 < len(pieces) else [0, 1, 60]))
    for w in words:
        if w[3] == ' ' and rng.random() < .1 and not any(w is x for x in one_line):
            w[3] = '\n'
    return {'kind': 'text', 'words': words, 'targets': rng.sample(targets, len(targets)),
            'options': options}


def text_cases(rng, tier):
    return [rand_text(rng) for _ in range(400 if tier == 'quick' else 6000)]


def match_source(name, kind, quick, thorough, **kwargs):
    return Source(
        name, 'props.matching:match_run', 'TraceMatch', chunk=500,
        cases=match_cases(kind, quick, thorough, **kwargs),
        rule='random documents (words in any case, empty lines, earlier and preserved labels), field '
             'values with alternative spellings, lists, sub values, prefixes, blocks, look-ahead'
    )


GEN_DOCS = Source(
    'all-small-documents', 'props.matching:match_run', 'TraceMatch',
    gen=('GenMatch', gen_cfg('docs')), adapt=from_gen_docs, chunk=1000,
    rule='every document of at most 4 (thorough: 5) words of two, line breaks anywhere, earlier '
         'labels anywhere, in six scenarios of the model (quick: sampled)'
)
GEN_LINES = Source(
    'all-short-lines', 'props.matching:extend_run', 'TraceMatch',
    gen=('GenMatch', gen_cfg('lines')), adapt=from_gen_lines, chunk=3000,
    rule='every line of at most 5 (thorough: 6) labelled or unlabelled tokens x merge/extend options'
)
LONG_LINES = Source(
    'long-lines', 'props.matching:extend_run', 'TraceMatch', cases=long_lines, chunk=1000,
    rule='lines of up to six stretches of up to 13 tokens of three fields, merge/extend options per field'
)
TEXTS = Source(
    'long-texts', 'props.matching:text_run', 'TraceFuzzy', cases=text_cases, chunk=100,
    rule='long texts (several search windows) with field values of 1 to 60 words, in other case, '
         'with other dashes and quotes, across lines, damaged, or in two parts'
)


def search_source(name, kind, quick, thorough):
    return Source(
        name, 'props.matching:search_run', 'TraceFuzzy', cases=search_cases(kind, quick, thorough),
        chunk=250, rule='needles of 5 to 20 letters, damaged copies in other text; thresholds .6 to 1'
    )


PROPS = [
    Prop('M01', [
        match_source('random-documents', 'match', 2500, 40000),
        GEN_DOCS,
    ], models=[('MCMatch', model_cfg('NothingLost', 'Named', 'SubNamed', 'Spelled', 'Begins',
                                     prop='OnlyAdds'))]),
    Prop('M02', [
        TEXTS,
        match_source('random-documents', 'match', 1500, 30000, extend=False),
        GEN_DOCS,
    ], models=[('MCMatch', model_cfg('Found', 'SameAsWhole', 'Spelled'))]),
    Prop('M03', [
        search_source('one-window', 'short', 2000, 30000),
        search_source('several-windows', 'long', 150, 3000),
        search_source('all-occurrences', 'all', 1500, 20000),
    ]),
    Prop('M04', [
        GEN_LINES,
        LONG_LINES,
        match_source('random-documents', 'match', 1500, 20000, extend=True),
    ]),
    Prop('M05', [
        match_source('sub-only', 'subs', 2000, 30000),
        match_source('with-labels', 'match', 1500, 20000, sub_rate=1),
        TEXTS.with_clauses(['parts', 'completes']),
    ]),
]
