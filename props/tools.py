"""The annotation tools as a whole: A01."""
import os

from vlib import cli, tei
from vlib.registry import Prop, Source
from props import matching

# ---------------------------------------------------------------- words

GREEK = 'αβγδεζηθικλμνξοπρτυφχψω' 'абвгдежзийклмнопрстуфхцчшщъыьэюя'
# text with a meaning of its own: [text, number of the "word"]
SPECIAL = {'.': 91, 'doi': 92, ':': 93, 'et': 94, 'al': 95, 'ISSN': 96, ',': 97}


def word(n, length, letters):
    if n > 90:
        return {v: k for k, v in SPECIAL.items()}[n]
    x = letters[(n - 1) * length:n * length]
    assert len(x) == length, (n, length)
    return x


def attrs_of(x, w):
    digits = x.isdecimal()
    return {
        'w': w, 'n': int(x) if digits and len(x) < 9 else -1,
        'd': all(c.isdecimal() or c == '.' for c in x), 'cs': list(x.lower()),
        'cl': ['a' if c.isascii() and c.isalpha() else 'w' if c.isalnum() or c == '_'
               else 'c' if c == ':' else 's' if not c.strip() else 'p' for c in x]
    }


def attr_table(case):
    letters, length = case['letters'], case['len']
    out = {}
    for n in range(1, len(letters) // length + 1):
        x = word(n, length, letters)
        out[x] = attrs_of(x, n)
    for x, n in SPECIAL.items():
        out[x] = attrs_of(x, n)
    for k in case['numbers']:
        out[str(k)] = attrs_of(str(k), 0)
    return out


# ---------------------------------------------------------------- driver (runs the real code)

def mapping_conf(case):
    out = ['[article]']
    for f in case['mapping']:
        out.append('%s = f-%s' % (f['name'], f['name']))
        for s in f['subs']:
            out.append('%s.sub.%s = .//s-%s' % (f['name'], s, s))
        for name, c in case['tags']:
            if name == f['name']:
                # what is overridden by an option is written the other way round
                out.append('%s.merge = %s' % (name, str(c['merge'] != case['override']).lower()))
                out.append('%s.extend-to-line = %s' % (name, str(c['ext'] != case['override']).lower()))
                if c['block'] != 'default':
                    out.append('%s.block = %s' % (name, c['block']))
    return '\n'.join(out) + '\n'


def override_args(case):
    if not case['override'] or not case['tags']:
        return []
    return ['--xml-mapping-overrides=' + '|'.join(
        '%s.%s=%s' % (name, key, str(c[k]).lower())
        for name, c in case['tags'] for key, k in (('merge', 'merge'), ('extend-to-line', 'ext'))
    )]


def article_xml(case):
    letters, length = case['letters'], case['len']

    def text(words):
        return ' '.join(word(w, length, letters) for w in words)
    out = ['<article>']
    for t in case['article']:
        parts = []
        for words, sub in t['parts']:
            x = text(words)
            parts.append('<s-%s>%s</s-%s>' % (sub, x, sub) if sub else x)
        out.append('<f-%s>%s</f-%s>' % (t['name'], ' '.join(parts), t['name']))
    return '\n'.join(out + ['</article>'])


def targets_of(case):
    subs = {f['name']: f['subs'] for f in case['mapping']}
    out = []
    for t in case['article']:
        if t['name'] not in subs:
            continue
        out.append({
            'name': t['name'], 'vals': [[w for words, _ in t['parts'] for w in words]],
            'multi': False,
            'subs': [{'name': s, 'v': words} for s in subs[t['name']]
                     for words, sub in t['parts'] if sub == s]
        })
    return out


def choice_arg(name, choice):
    if choice['how'] == 'default':
        return []
    sign = {'set': '', 'plus': '+', 'minus': '-'}[choice['how']]
    return ['--%s=%s%s' % (name, sign, ','.join(choice['vals']))]


SEGMENT_ARG = {'figure': '--segment-figures', 'table': '--segment-tables',
               'reference': '--segment-references', 'affiliation': '--segment-affiliation'}


def options(case, tmp):
    tool, o = case['tool'], case['opt']
    args = choice_arg('fields', o['fields'])
    if tool in ('fulltext', 'figure', 'table', 'affiliation'):
        args += choice_arg('sub-fields', o['subFields'])
    if o['noKeep']:
        args.append('--no-preserve-tags')
    if o['always']:
        args.append('--always-preserve-fields=' + ','.join(o['always']))
    if o['segment'] and tool in SEGMENT_ARG:
        args.append(SEGMENT_ARG[tool])
    if tool in ('figure', 'table', 'affiliation'):
        if o['keepSub']:
            args.append('--preserve-sub-tags')
        if o['noKeepSub']:
            args.append('--no-preserve-sub-fields=' + ','.join(o['noKeepSub']))
    if o['removeInvalid']:
        args.append({'reference': '--remove-invalid-references',
                     'affiliation': '--remove-invalid-affiliations'}[tool])
    if o['idno']:
        args.append('--include-idno-prefix')
    for key, arg in (('noExtend', '--no-extend-to-line'), ('prev', '--expand-to-previous-untagged-lines'),
                     ('next', '--expand-to-following-untagged-lines'),
                     ('noMergeRef', '--no-merge-references')):
        if o[key]:
            args.append(arg)
    if o['look'] != 500:
        args.append('--matcher-lookahead-lines=%d' % o['look'])
    if o['noKeepFields']:
        args.append('--no-preserve-fields=' + ','.join(o['noKeepFields']))
    if o['lineNumbers']:
        args.append('--use-line-number-annotator')
        if o['ln']['min'] != 10:
            args.append('--min-line-numbers-per-page=%d' % o['ln']['min'])
        if o['ln']['gap'] != 10:
            args.append('--max-line-number-gap=%d' % o['ln']['gap'])
        if o['ln']['ratio'] != [1, 10]:
            args.append('--min-line-number-ratio=%s' % (o['ln']['ratio'][0] / o['ln']['ratio'][1]))
    if tool == 'segmentation':
        path = os.path.join(tmp, 'segmentation.conf')
        by = {}
        for v, s in o['seg']['map']:
            by.setdefault(s, []).append(v)
        cli.write_file(path, '[tags]\n' + ''.join(
            '%s = %s\n' % (s, ', '.join(vs)) for s, vs in by.items()
        ) + '[config]\nfront_max_start_line_index = %d\npage_header_max_first_line_index = %d\n'
            % (o['seg']['frontMax'], o['seg']['headMax']))
        args.append('--segmentation-config=' + path)
    return args


def tool_run(case):
    from lxml import etree
    tool = case['tool']
    container, ns = cli.TOOLS[tool][2], cli.TOOLS[tool][3]
    with tei.scratch_dir() as tmp:
        src, xml, out = (os.path.join(tmp, n) for n in ('src', 'xml', 'out'))
        name = cli.source_name(tool, 'doc1')
        text = tei.wrap_document(case['items'], container, ns=ns, declare=case['declare'])
        given = text
        if tool == 'figure' and case.get('stray') and '<content>' not in text:
            # GROBID is known to write end tags without start tag
            at = [k for k in range(len(text)) if text.startswith('<lb', k)] or [text.rindex('</')]
            given = text[:at[-1]] + '</content>' + text[at[-1]:]
            given = given[:at[0]] + '</content>' * (case['stray'] - 1) + given[at[0]:]
        cli.write_file(os.path.join(src, name), given)
        cli.write_file(os.path.join(xml, 'doc1.xml'), article_xml(case))
        conf = os.path.join(tmp, 'mapping.conf')
        cli.write_file(conf, mapping_conf(case))
        argv = cli.argv_for(tool, src, xml, out, options(case, tmp) + override_args(case) + ['--xml-mapping-path=' + conf])
        error = cli.run_tool(tool, argv)
        path = os.path.join(out, name)
        rec = {
            'tool': tool, 'opt': case['opt'], 'targets': targets_of(case), 'tags': case['tags'],
            'len': case['len'], 'src': tei.expand_items(case['items']), 'attrs': attr_table(case),
            'error': error, 'saved': os.path.exists(path)
        }
        if error or not rec['saved']:
            return rec
        root1 = etree.fromstring(cli.read_file(path))
    root0 = etree.fromstring(text.encode('utf-8'))
    cont1 = tei.find_path(root1, container)[0]
    space = etree.QName(root0).namespace
    rec.update({
        'out': tei.content_events(cont1),
        'srcEv': tei.content_events(tei.find_path(root0, container)[0]),
        'foreign': sorted({el.tag for el in cont1.iter() if isinstance(el.tag, str)
                           and etree.QName(el).namespace != space}),
        'outer0': tei.outer_text(root0, container), 'outer1': tei.outer_text(root1, container)
    })
    return rec


# ---------------------------------------------------------------- cases

# tool -> fields, sub fields of each of them, paths of elements in documents
FIELDS = {
    'header': {'title': [], 'abstract': [], 'author': [], 'author_aff': ['author_aff-label'], 'keywords': []},
    'segmentation': {'title': [], 'abstract': [], 'author': [], 'body_section_title': [],
                     'body_section_paragraph': [], 'appendix': [], 'reference': ['reference-label'],
                     'acknowledgment_section_title': [], 'page_no': [], 'extra': []},
    'fulltext': {'section_title': [], 'section_paragraph': ['section_paragraph-xref-bib',
                                                            'section_paragraph-xref-figure', 'other-sub'],
                 'list_item': ['list_item-xref-bib'], 'figure': ['figure-label'], 'table': [],
                 'boxed_text_paragraph': ['boxed_text_paragraph-xref-table'], 'note_other': [],
                 'keywords': [], 'appendix': [], 'extra': []},
    'figure': {'figure': ['figure-label', 'figure-caption', 'figure-x'], 'table': [], 'extra': []},
    'table': {'table': ['table-label', 'table-caption', 'table-x'], 'figure': ['figure-label'], 'extra': []},
    'reference': {'reference': ['reference-label', 'reference-author', 'reference-editor', 'reference-etal',
                                'reference-year', 'reference-article-title', 'reference-source',
                                'reference-fpage', 'reference-lpage', 'reference-doi', 'reference-issn',
                                'reference-issue', 'ext-link', 'reference-x'], 'extra': []},
    'reference_segmenter': {'reference': ['reference-label', 'reference-author'], 'extra': []},
    'affiliation': {'author_aff': ['author_aff-label', 'author_aff-department', 'author_aff-institution',
                                   'author_aff-address-city', 'author_aff-address-country',
                                   'author_aff-address', 'author_aff-x'], 'extra': []},
}
PATHS = {
    'header': ['docTitle/titlePart', 'div[@type="abstract"]', 'byline/docAuthor', 'byline/affiliation',
               'note[@type="other"]', 'note[@type="line_no"]', 'note[@type="keywords"]', 'byline/affiliation/x',
               'p', 'note'],
    'segmentation': ['front', 'body', 'note[@place="headnote"]', 'page', 'listBibl', 'div[@type="annex"]',
                     'div[@type="acknowledgment"]', 'x', 'front/x'],
    'fulltext': ['other', 'note[@type="other"]', 'head', 'p', 'p/ref[@type="biblio"]', 'figure',
                 'figure[@type="table"]', 'list/item', 'list/item/ref[@type="biblio"]', 'list', 'x',
                 'p[@type="box"]', 'figure/figDesc', 'p/hi'],
    'figure': ['figure', 'figure/head/label', 'figure/figDesc', 'figure/x', 'note[@type="other"]',
               'figure[@type="table"]', 'figure/head', 'p', 'content'],
    'table': ['figure[@type="table"]', 'figure[@type="table"]/head/label', 'figure[@type="table"]/figDesc',
              'figure[@type="table"]/x', 'note[@type="other"]', 'figure', 'p'],
    'reference': ['bibl', 'bibl/label', 'bibl/author', 'bibl/date', 'bibl/idno[@type="DOI"]', 'bibl/x',
                  'note[@type="other"]', 'p'],
    'reference_segmenter': ['listBibl/bibl', 'listBibl/bibl/label', 'listBibl', 'bibl', 'note[@type="other"]', 'x'],
    'affiliation': ['affiliation', 'affiliation/marker', 'affiliation/address/settlement',
                    'affiliation/address/country', 'affiliation/address', 'affiliation/orgName[@type="institution"]',
                    'affiliation/x', 'affiliation/address/x', 'note[@type="other"]', 'p'],
}
TAG_NAMES = {
    'header': ['title', 'abstract', 'author', 'author_aff', 'keywords', 'note[@type="other"]'],
    'segmentation': ['front', 'body', 'headnote', 'page', 'reference', 'annex', 'x'],
    'fulltext': ['note_other', 'section_title', 'section_paragraph', 'figure', 'table', 'list_item', 'list', 'x'],
    'figure': ['figure', 'table', 'p'], 'table': ['table', 'figure', 'p'], 'reference': ['reference', 'extra'],
    'reference_segmenter': ['reference', 'bibl', 'x'], 'affiliation': ['author_aff', 'extra'],
}
SUB_NAMES = {
    'figure': ['figure-label', 'figure-caption', 'figure/x', 'figure/head'],
    'table': ['table-label', 'table-caption', 'figure[@type="table"]/x'],
    'affiliation': ['author_aff-label', 'author_aff-address-city', 'author_aff-address',
                    'author_aff-address-country', 'author_aff-institution'],
}
INNER = ('figure', 'table', 'reference', 'affiliation')
SEG_MAP = [['title', 'front'], ['abstract', 'front'], ['author', 'front'], ['body_section_title', 'body'],
           ['body_section_paragraph', 'body'], ['appendix', 'annex'], ['reference', 'reference'],
           ['acknowledgment_section_title', 'acknowledgment'], ['page_no', 'page'], ['line_no', 'line_no']]


def text_items(rng, seg, state):
    """seg: texts and None (line break)"""
    items, cur = [], ''

    def flush():
        nonlocal cur
        if cur:
            items.append({'k': 't', 'x': cur})
        cur = ''
    for x in seg:
        if x is None:
            if rng.random() < .3:
                cur += ' '
            flush()
            items.append({'k': 'lb'})
            if rng.random() < .6:
                cur = '\n'
            state['sep'] = True
        else:
            if not state['sep']:
                cur += rng.choice([' ', ' ', ' ', '  '])
            cur += x
            state['sep'] = False
    if cur and not state['sep'] and rng.random() < .4:
        cur += ' '
        state['sep'] = True
    flush()
    return items


def wrap(rng, path, seg, state):
    steps = path.split('/')
    n = len(seg)
    a, b = 0, n
    if len(steps) > 1 and rng.random() < .7 and n > 1:
        a = rng.randint(0, n - 1)
        b = rng.randint(a + 1, n)
    inner = []
    before = text_items(rng, seg[:a], state) if a else []
    inner = text_items(rng, seg[a:b], state)
    after = text_items(rng, seg[b:], state) if b < n else []
    for step in reversed(steps[1:]):
        inner = [{'k': 'e', 'n': step, 'ch': inner}]
    return [{'k': 'e', 'n': steps[0], 'ch': before + inner + after}]


def rand_items(rng, tool, flat, mark, spans=None):
    items, state, i = [], {'sep': True}, 0
    while i < len(flat):
        n = rng.randint(1, 6) if spans is None else spans.pop(0)
        seg = flat[i:i + n]
        i += n
        if rng.random() < mark and any(x is not None for x in seg):
            p = PATHS[tool]
            path = p[0] if tool in INNER and rng.random() < .4 else rng.choice(p)
            items += wrap(rng, path, seg, state)
        else:
            items += text_items(rng, seg, state)
    return items


def rand_options(rng, tool, fields):
    def some(vals, p):
        return [v for v in vals if rng.random() < p]
    names = sorted(fields)
    opt = {
        'fields': {'how': 'default', 'vals': []}, 'subFields': {'how': 'default', 'vals': []},
        'noKeep': rng.random() < .2, 'always': [], 'segment': tool in INNER and rng.random() < .5,
        'keepSub': False, 'noKeepSub': [], 'removeInvalid': False, 'idno': False, 'noExtend': False,
        'prev': False, 'next': False, 'noMergeRef': False, 'noKeepFields': [], 'lineNumbers': False,
        'look': rng.choice([500, 500, 500, 0, 1, 2, 3]), 'ln': {'min': 10, 'gap': 10, 'ratio': [1, 10]},
        'seg': {'map': [], 'frontMax': 0, 'headMax': 0}, 'known': names
    }
    r = rng.random()
    if r < .35:
        vals = some(names, .6) or [names[0]]
        opt['fields'] = {'how': 'set', 'vals': vals}
    elif r < .45 and tool != 'header':
        opt['fields'] = {'how': 'plus', 'vals': some(names, .4) or [names[-1]]}
    elif r < .55 and tool in ('fulltext', 'segmentation'):
        default = [n for n in names if n not in ('extra', 'page_no', 'note_other')]
        opt['fields'] = {'how': 'minus', 'vals': some(default, .3) or [default[0]]}
    if rng.random() < .2:
        opt['always'] = some(TAG_NAMES[tool], .4)
    if tool in ('fulltext', 'figure', 'table', 'affiliation') and rng.random() < .4:
        subs = sorted({s for f in fields for s in FIELDS[tool][f]})
        if tool == 'fulltext' and rng.random() < .5:
            how = rng.choice(['plus', 'minus'])
            vals = ['other-sub'] if how == 'plus' else ['section_paragraph-xref-bib']
            opt['subFields'] = {'how': how, 'vals': vals}
        elif subs:
            opt['subFields'] = {'how': 'set', 'vals': some(subs, .5) or [subs[0]]}
    if tool in SUB_NAMES:
        opt['keepSub'] = rng.random() < .6
        opt['noKeepSub'] = some(SUB_NAMES[tool], .3) if rng.random() < .4 else []
    if tool in ('reference', 'affiliation'):
        opt['removeInvalid'] = rng.random() < .25
    if tool == 'reference':
        opt['idno'] = rng.random() < .5
    if tool == 'fulltext':
        for key in ('noExtend', 'prev', 'next'):
            opt[key] = rng.random() < .35
    if tool == 'segmentation':
        opt['noMergeRef'] = rng.random() < .3
        opt['noKeepFields'] = some(TAG_NAMES[tool], .3) if rng.random() < .4 else []
        opt['seg'] = {'map': SEG_MAP, 'frontMax': rng.choice([0, 0, 2, 5]), 'headMax': rng.choice([0, 3, 50, 50])}
    return opt


def rand_parts(rng, words, subs):
    """words of a value with sub elements around some of them: [[words, sub or '']]"""
    parts, i = [], 0
    while i < len(words):
        n = rng.randint(1, 2)
        parts.append([words[i:i + n], rng.choice(subs) if subs and rng.random() < .5 else ''])
        i += n
    return parts


def rand_tags(rng, fields):
    out = []
    for name in sorted(fields):
        if rng.random() < .3:
            c = dict(matching.TAG_CFG)
            c['merge'] = rng.random() < .6
            c['ext'] = rng.random() < .6
            c['block'] = rng.choice(['default', 'default', 'x', 'y'])
            out.append([name, c])
    return out


def shared_words(rng, tool):
    """values share words, the text has parts of them"""
    length = rng.choice([2, 3, 5, 6])
    n_words = rng.choice([4, 6, 8, 13])
    fields = rng.sample(sorted(FIELDS[tool]), min(len(FIELDS[tool]), rng.randint(1, 4)))
    first = sorted(FIELDS[tool])[0] if tool not in INNER + ('reference_segmenter',) else {
        'affiliation': 'author_aff', 'reference_segmenter': 'reference'}.get(tool, tool)
    if first not in fields:
        fields.append(first)
    article, values = [], []
    large = rng.random() < .05
    for _ in range(rng.randint(1, 5) if not large else 9):
        name = rng.choice(fields) if rng.random() < .6 else first
        words = [rng.randint(1, n_words) for _ in range(rng.randint(1, 3))]
        values.append(words)
        article.append({'name': name, 'parts': rand_parts(rng, words, FIELDS[tool][name])})
    flat = []
    for _ in range(rng.randint(1, 6) if not large else 16):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < .55:
                flat += rng.choice(values)
            else:
                flat += [rng.randint(1, n_words) for _ in range(rng.randint(1, 3))]
            if flat and rng.random() < .1:
                flat.insert(rng.randint(0, len(flat)), None)
        flat.append(None)
    if rng.random() < .5:
        flat.pop()
    letters = matching.ALPHABET
    flat = [x if x is None else word(x, length, letters) for x in flat]
    return {'letters': letters, 'len': length, 'numbers': [], 'fields': fields, 'article': article,
            'flat': flat, 'spans': None}


def own_words(rng, tool):
    """every value has words of its own and is in the text as a whole; numbers, repeated lines"""
    length = rng.choice([3, 4, 5])
    pool = list(range(1, len(GREEK) // length + 1))
    rng.shuffle(pool)
    fields = rng.sample(sorted(FIELDS[tool]), min(len(FIELDS[tool]), rng.randint(1, 5)))
    for f in ('reference', 'author_aff', 'figure', 'table'):
        if f in FIELDS[tool] and f not in fields and tool in INNER:
            fields.append(f)
    filler = [pool.pop() for _ in range(3)]
    article, values = [], []
    for _ in range(rng.randint(1, 4)):
        if len(pool) < 4:
            break
        name = rng.choice(fields)
        subs = FIELDS[tool][name]
        parts = []
        for _ in range(rng.randint(1, 3)):
            if not pool:
                break
            sub = rng.choice(subs) if subs and rng.random() < .75 else ''
            words = [pool.pop() for _ in range(min(len(pool), rng.choice([1, 1, 2])))]
            if tool == 'reference' and parts:
                if sub == 'reference-doi' and rng.random() < .7:
                    parts.append([rng.choice([[92], [92, 93]]), ''])
                elif sub == 'reference-issn' and rng.random() < .7:
                    parts.append([rng.choice([[96], [96, 93]]), ''])
                elif rng.random() < .5:
                    parts.append([[rng.choice([91, 91, 97])], ''])
            if sub == 'reference-etal' and not any(94 in ws for ws, _ in parts):
                words = [94, 95]
            parts.append([words, sub])
        if tool == 'reference' and rng.random() < .3:
            parts.append([[91], ''])
        article.append({'name': name, 'parts': parts})
        values.append([w for ws, _ in parts for w in ws])
    chunks = list(values)
    for _ in range(rng.randint(0, 2)):
        if values:
            chunks.append(rng.choice(values))
    for _ in range(rng.randint(0, 4)):
        chunks.append([rng.choice(filler) for _ in range(rng.randint(1, 4))])
    if rng.random() < .3:
        chunks = [c for c in chunks if rng.random() < .8] or chunks
    header = [rng.choice(filler) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.choice([0, 0, 2, 3])):
        chunks.append(header)
    rng.shuffle(chunks)
    if rng.random() < .6:
        order = {tuple(v): k for k, v in enumerate(values)}
        chunks.sort(key=lambda c: (order.get(tuple(c), rng.random() * len(values))))
    numbered = tool in ('header', 'segmentation', 'reference_segmenter') and rng.random() < .5
    page = rng.choice([1, 5, 9])
    line = rng.choice([1, 1, 98])
    flat, spans, numbers = [], [], set()
    for chunk in chunks:
        xs = [word(w, length, GREEK) for w in chunk]
        if numbered and rng.random() < .85:
            flat.append(str(line))
            spans.append(1)
            numbers.add(line)
            line += rng.choice([1, 1, 1, 2, 5])
        elif rng.random() < .3 and len(xs) > 1:
            xs.insert(rng.randint(1, len(xs) - 1), None)
        flat += xs
        spans.append(len(xs))
        if rng.random() < .8 or numbered:
            flat.append(None)
            spans[-1] += 1
        if tool == 'segmentation' and rng.random() < .25 and flat[-1] is None:
            flat += [str(page), None]
            spans.append(2)
            numbers.add(page)
            page += rng.choice([1, 1, 2])
    return {'letters': GREEK, 'len': length, 'numbers': sorted(numbers), 'fields': fields,
            'article': article, 'flat': flat, 'spans': spans if rng.random() < .7 else None,
            'numbered': numbered}


def rand_tool(rng, tool):
    own = tool == 'reference' or rng.random() < .5
    c = (own_words if own else shared_words)(rng, tool)
    fields = sorted(FIELDS[tool])
    if rng.random() < .3:
        fields = sorted(set(rng.sample(fields, rng.randint(1, len(fields)))) | set(c['fields']))
    opt = rand_options(rng, tool, fields)
    if c.get('numbered'):
        opt['lineNumbers'] = rng.random() < .85
        if rng.random() < .9:
            opt['ln'] = {'min': rng.choice([1, 2, 3, 4]), 'gap': rng.choice([0, 1, 10]),
                         'ratio': rng.choice([[1, 10], [1, 2], [9, 10]])}
    if tool == 'reference':
        opt['look'] = rng.choice([500, 0])     # dots of a value on a line of their own
    if any(sum(len(words) for words, _ in t['parts']) > 4 for t in c['article']):
        opt['look'] = rng.choice([500, 0])     # most of a value is enough to be found in a part of the text
        opt['always'] = []
    mark = rng.choice([0, .3, .6, .9])
    items = rand_items(rng, tool, c['flat'], mark, list(c['spans']) if c['spans'] else None)
    if rng.random() < .1:
        for _ in range(rng.randint(1, 2)):
            items.insert(rng.randint(0, len(items)), {'k': 'c', 'x': '<!-- title -->'})
    return {
        'tool': tool, 'opt': opt, 'letters': c['letters'], 'len': c['len'], 'numbers': c['numbers'],
        'mapping': [{'name': f, 'subs': FIELDS[tool][f]} for f in fields],
        'tags': rand_tags(rng, fields), 'article': c['article'],
        'items': items,
        'declare': rng.random() < .3, 'override': rng.random() < .3,
        'stray': rng.choice([0, 0, 0, 0, 1, 2])
    }


def tool_cases(rng, tier):
    n = 250 if tier == 'quick' else 3000
    return [rand_tool(rng, tool) for tool in sorted(FIELDS) for _ in range(n)]


def show(bad, rec):
    print(sorted(bad), rec['tool'], {k: v for k, v in rec['opt'].items() if v and k not in ('seg', 'ln')})
    print('  ', mapping_conf(rec).replace('\n', '; '))
    print('  ', article_xml(rec).replace('\n', ''))
    print('  ', tei.items_to_xml(rec['items']))
    print('  ', rec.get('error'), rec.get('foreign'), rec.get('out'))


def model_cfg(tool, size):
    return ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Tool = "%s" MaxPart = %d\n'
            'INVARIANTS TextKept Inside Known Wrapped Stays\n' % (tool, size))


def gen_cfg(tool):
    return lambda tier: ('INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Tool = "%s" MaxPart = %d\n'
                         % (tool, 2 if tier == 'quick' else 3))


def plain_items(items):
    return [{'k': 't', 'x': ''.join(it['c'])} if it['k'] == 't' else
            {'k': 'lb'} if it['k'] == 'lb' else
            {'k': 'e', 'n': it['n'], 'ch': plain_items(it['ch'])} for it in items]


def from_gen(tool):
    def adapt(out, rng, tier):
        field, sub = out['field'], out['sub']
        cases = [{
            'tool': tool, 'opt': c['opt'], 'letters': ''.join(out['words']), 'len': len(out['words'][0]),
            'numbers': [], 'mapping': [{'name': field, 'subs': [sub]}, {'name': 'extra', 'subs': []}],
            'tags': [], 'article': [{'name': field, 'parts': [[[1], sub], [[2], '']]},
                                    {'name': 'extra', 'parts': [[[3], '']]}],
            'items': plain_items(c['items']), 'declare': False, 'override': False
        } for c in out['cases']]
        limit = 150 if tier == 'quick' else 4000
        return rng.sample(cases, limit) if len(cases) > limit else cases
    return adapt


GEN = [Source(
    'small-runs-' + tool, 'props.tools:tool_run', 'TraceTool', gen=('GenTools', gen_cfg(tool)),
    adapt=from_gen(tool), case_timeout=60,
    rule='runs of the model: documents of at most 2 (thorough: 3) pieces of eight kinds, all combinations '
         'of the main options (quick: a sample of 150, thorough: of 4000)'
) for tool in sorted(FIELDS)]
PROPS = [
    Prop('A01', [Source(
        'tool-runs', 'props.tools:tool_run', 'TraceTool', cases=tool_cases, case_timeout=60,
        rule='all 8 annotation tools on generated articles, mappings, options and training documents '
             'with existing mark-up: the written document is exactly the one the specification '
             'derives from them'
    )] + GEN, models=[
        ('MCTools', lambda tier, tool=tool: model_cfg(tool, 2 if tier == 'quick' else 3))
        for tool in sorted(FIELDS)
    ]),
]


def any_tool(rng):
    return rand_tool(rng, rng.choice(sorted(FIELDS)))
