"""Whole articles with the shipped configuration: A02."""
import os
import re
from xml.sax.saxutils import escape

from vlib import cli, tei
from vlib.registry import Prop, Source

# ---------------------------------------------------------------- articles

LETTERS = 'bcdfghjklmnprstvwzaeiou'


class Words:
    """words and numbers that are not repeated"""
    def __init__(self, rng):
        self.rng, self.used = rng, set()

    def fresh(self, make):
        while True:
            x = make()
            # the aligner moves the beginning of a doubled letter to the word before
            if x.lower() not in self.used and not any(p == q for p, q in zip(x.lower(), x.lower()[1:])):
                self.used.add(x.lower())
                return x

    def word(self, lo=6, hi=10):
        rng = self.rng
        return self.fresh(lambda: ''.join(rng.choice(LETTERS) for _ in range(rng.randint(lo, hi))))

    def words(self, lo, hi):
        return ' '.join(self.word() for _ in range(self.rng.randint(lo, hi)))

    def name(self):
        return self.word().capitalize()

    def number(self, lo, hi):
        return self.fresh(lambda: str(self.rng.randint(lo, hi)))


def part(role, pieces, group=0):
    """pieces: [text, sub role]"""
    return {'role': role, 'pieces': pieces, 'group': group}


def rand_aff(rng, w, k, has):
    pieces = [[str(k + 1), 'label']] if has('label', .6) else []
    if has('department', .7):
        pieces.append([w.words(1, 3), 'department'])
    pieces.append([w.words(1, 3), 'institution'])
    for sub, p in (('text', .2), ('city', .5), ('state', .5), ('text', .2), ('postcode', .5), ('country', .8)):
        if has(sub, p):
            pieces.append([w.number(10000, 99999) if sub == 'postcode' else
                           w.words(1, 3) if sub == 'text' else w.name(), sub])
    return part('author_aff', pieces)


def chooser(rng, chosen):
    """what is in the article: drawn, or given"""
    return lambda name, p: rng.random() < p if chosen is None else name in chosen


def rand_front(rng, w, front=None, affs=None):
    has = chooser(rng, front)
    front = [part('title', [[w.words(4, 9), '']])]
    for _ in range(rng.randint(1, 3)):
        front.append(part('author', [[w.name(), 'given'], [w.name(), 'surname']]))
    for k, chosen in enumerate(affs or [None] * rng.randint(1, 3)):
        front.append(rand_aff(rng, w, k, chooser(rng, chosen)))
    if has('handling_editor', .2):
        front.append(part('handling_editor', [[w.name(), 'given'], [w.name(), 'surname']]))
    if has('author_notes', .5):
        front.append(part('author_notes', [[w.words(4, 8), '']]))
    front.append(part('abstract', [[w.words(10, 40), '']]))
    if has('keywords', .5):
        if has('keywords_title', .6):
            front.append(part('keywords_title', [[w.words(1, 2), '']]))
        front.append(part('keywords', [[w.words(1, 2), 'kwd'] for _ in range(rng.randint(1, 4))]))
    for role in ('journal', 'doi', 'copyright_statement'):
        if has(role, .3):
            text = '10.%s/%s' % (w.number(1000, 9999), w.word()) if role == 'doi' else w.words(3, 6)
            front.append(part(role, [[text, '']]))
    return front


XREFS = {'bibr': 'xref-bib', 'fig': 'xref-figure', 'table': 'xref-table', 'disp-formula': 'xref-formula',
         'sec': 'xref-section', 'boxed-text': 'xref-box'}


def paragraph(rng, w, role):
    pieces = [[w.words(6, 20), '']]
    for _ in range(rng.choice([0, 0, 1, 2])):
        pieces.append([w.words(1, 2), rng.choice(sorted(XREFS.values()))])
        pieces.append([w.words(4, 10), ''])
    return part(role, pieces)


def rand_node(rng, w, prefix, kind):
    if kind == 'paragraph':
        return paragraph(rng, w, prefix + '_section_paragraph')
    if kind == 'figure':
        return part('figure', [['Figure ' + w.number(101, 130), 'label'], [w.words(5, 14), 'caption']])
    if kind == 'table':
        return part('table', [['Table ' + w.number(31, 60), 'label'], [w.words(5, 14), 'caption']])
    if kind in ('list', 'titled-list'):
        items = [paragraph(rng, w, 'list_item') for _ in range(rng.randint(1, 3))]
        if kind == 'titled-list':
            items.insert(0, part('list', [[w.words(3, 6), '']]))
        return {'role': 'list', 'items': items}
    if kind == 'box':
        return {'role': 'box', 'items': [
            part('boxed_text_title', [['Box ' + w.number(61, 90), 'label'], [w.words(3, 8), 'caption']])
        ] + [paragraph(rng, w, 'boxed_text_paragraph') for _ in range(rng.randint(1, 2))]}
    return {'role': 'sec', 'prefix': prefix, 'items': rand_section(rng, w, prefix, None, 1)}


BODY_NODES = ['paragraph'] * 10 + ['figure'] * 3 + ['table'] * 3 + ['list', 'list', 'titled-list', 'box', 'box', 'section']
BACK_NODES = ['paragraph'] * 10 + ['figure', 'table', 'section']


def rand_section(rng, w, prefix, nodes=None, depth=0):
    title = [[w.words(2, 5), 'title']]
    if prefix == 'body' and rng.random() < .3:
        title.insert(0, [w.number(12, 30) + '.', 'sec-label'])
    out = [part(prefix + '_section_title', title)]
    if nodes is None:
        nodes = [rng.choice(BODY_NODES if prefix == 'body' else BACK_NODES) for _ in range(rng.randint(1, 3))]
    for kind in nodes:
        if kind == 'section' and depth:
            kind = 'paragraph'
        n = rand_node(rng, w, prefix, kind)
        # a figure, table or list may be the end of the paragraph before it
        if kind in ('figure', 'table', 'list', 'titled-list') and \
                out[-1]['role'] == prefix + '_section_paragraph' and rng.random() < .4:
            n['inside'] = True
        out.append(n)
    return out


# what is printed before an identifier
PREFIXES = {'doi': 'DOI', 'pii': 'PII', 'pmid': 'PMID', 'pmcid': 'PMCID', 'arxiv': 'arXiv', 'issn': 'ISSN', 'isbn': 'ISBN'}


def rand_reference(rng, w, k, chosen=None):
    has = chooser(rng, chosen)
    pieces = []
    if has('label', .7):
        pieces.append([str(k + 1) + '.', 'label'])
    for _ in range(rng.randint(1, 3) if has('author', 1) else 0):
        pieces.append([w.name() + ' ' + w.word(1, 2).upper(), 'author'])
    if pieces and pieces[-1][1] == 'author' and has('etal', .2):
        pieces.append(['et al.', 'etal'])
    if has('year', 1):
        pieces.append([w.number(1900, 2030), 'year'])
    if has('article-title', 1):
        pieces.append([w.words(4, 9), 'article-title'])
    for sub, p in (('editor', .2), ('source', 1), ('volume', .7), ('issue', .3), ('fpage', .6),
                   ('publisher-name', .2), ('publisher-loc', .2), ('issn', .1), ('isbn', .1), ('pii', .1),
                   ('pmid', .2), ('pmcid', .15), ('arxiv', .1), ('doi', .4), ('ext-link', .2)):
        if sub == 'source' or has(sub, p):
            if sub == 'editor':
                for _ in range(rng.randint(1, 2)):
                    pieces.append([w.name() + ' ' + w.word(1, 2).upper(), sub])
                continue
            x = {'volume': lambda: w.number(100, 399), 'issue': lambda: w.number(400, 599),
                 'fpage': lambda: w.number(3000, 4999), 'pmid': lambda: w.number(10 ** 7, 10 ** 8 - 1),
                 'isbn': lambda: w.number(10 ** 12, 10 ** 13 - 1),
                 'issn': lambda: w.number(1000, 9999) + '-' + w.number(1000, 9999),
                 'pii': lambda: 'S' + w.number(10 ** 9, 10 ** 10 - 1),
                 'pmcid': lambda: 'PMC' + w.number(10 ** 6, 10 ** 7 - 1),
                 'arxiv': lambda: w.number(1000, 2999) + '.' + w.number(10000, 99999),
                 'ext-link': lambda: 'http://%s.org/%s' % (w.word(), w.word()),
                 'doi': lambda: '10.%s/%s' % (w.number(6000, 9999), w.word())}.get(sub, lambda: w.words(2, 4))()
            if sub in PREFIXES and rng.random() < .5:
                pieces.append([PREFIXES[sub] + rng.choice(['', ':']), sub + '-prefix'])
            pieces.append([x, sub])
            if sub == 'fpage':
                pieces.append([w.number(5000, 5999), 'lpage'])
    return part('reference', pieces)


def rand_article(rng, shape=None):
    """shape: affs, front, body, back, refs: what to put in; drawn when missing"""
    shape = shape or {}
    w = Words(rng)
    a = {'front': rand_front(rng, w, shape.get('front'), shape.get('affs')), 'body': [], 'back': []}
    has = chooser(rng, shape.get('back'))
    if rng.random() < .2:
        a['body'] += [paragraph(rng, w, 'body_section_paragraph') for _ in range(rng.randint(1, 2))]
    for nodes in [shape['body']] if 'body' in shape else [None] * rng.randint(1, 3):
        a['body'].append({'role': 'sec', 'prefix': 'body', 'items': rand_section(rng, w, 'body', nodes)})
    if has('ack', .5):
        items = [part('acknowledgment_section_title', [[w.words(1, 2), 'title']]),
                 paragraph(rng, w, 'acknowledgment_section_paragraph')]
        a['back'].append({'role': 'ack', 'items': [{'role': 'sec', 'items': items}] if rng.random() < .3 else items})
    if has('section', .4):
        a['back'].append({'role': 'sec', 'prefix': 'back', 'items': rand_section(
            rng, w, 'back', ['paragraph'] + ([rng.choice(['figure', 'table'])] if rng.random() < .3 else []))})
    if has('refs', .8):
        refs = []
        if rng.random() < .7:
            refs.append(part('reference_list_title', [[w.words(1, 2), '']]))
        for k, chosen in enumerate(shape.get('refs') or [None] * rng.randint(1, 5)):
            refs.append(rand_reference(rng, w, k, chosen))
        a['back'].append({'role': 'refs', 'items': refs})
    if has('notes', .2):
        a['back'].append({'role': 'notes', 'items': [part('note', [[w.words(6, 12), '']])]})
    if has('appendices', .3):
        a['back'].append({'role': 'app-group', 'items': [part('appendix_group_title', [[w.words(2, 4), '']])] + [
            part('appendix', [[w.words(2, 4), 'title'], [w.words(6, 20), 'p']]) for _ in range(rng.randint(1, 2))]})
    return a, [w.words(3, 8) for _ in range(6)]


# ---------------------------------------------------------------- JATS

def el(name, text, **attrs):
    return '<%s%s>%s</%s>' % (name, ''.join(' %s="%s"' % (k.replace('_', '-'), v) for k, v in attrs.items()),
                              text, name)


FORMAT = {'italic': set(), 'breaks': set(), 'caption': 'p'}


def text_xml(x):
    """text with formatting and line breaks"""
    out = []
    for t in x.split(' '):
        y = escape(t)
        if t in FORMAT['italic']:
            y = el('italic', y)
        out.append(y + ('\n   ' if t in FORMAT['breaks'] else ' '))
    return ''.join(out)[:-1] if out[-1].endswith(' ') and not out[-1].endswith('\n   ') else ''.join(out)


def inline(pieces):
    by = {v: k for k, v in XREFS.items()}
    return ' '.join(el('xref', text_xml(x), ref_type=by[sub]) if sub else text_xml(x) for x, sub in pieces)


def aff_xml(pieces):
    out = []
    for x, sub in pieces:
        x = text_xml(x)
        if sub == 'label':
            out.append(el('label', x))
        elif sub in ('institution', 'country'):
            out.append(el(sub, x))
        elif sub == 'text':
            out.append(x)
        else:
            out.append(el('addr-line', el('named-content', x, content_type=sub)))
    return el('aff', ' '.join(out))


def ref_xml(p):
    out, label = [], ''
    for x, sub in p['pieces']:
        x = text_xml(x)
        if sub == 'label':
            label = el('label', x)
        elif sub == 'author':
            surname, given = x.split(' ')
            out.append(el('string-name', el('surname', surname) + ' ' + el('given-names', given)))
        elif sub == 'editor':
            surname, given = x.split(' ')
            out.append(el('person-group', el('string-name', el('surname', surname) + ' ' + el('given-names', given)),
                          person_group_type='editor'))
        elif sub in ('doi', 'pmid', 'pmcid', 'pii', 'arxiv'):
            out.append(el('pub-id', x, pub_id_type='arXiv' if sub == 'arxiv' else sub))
        elif sub.endswith('-prefix'):
            out.append(x)
        else:
            out.append(el(sub, x))
    return el('ref', label + el('mixed-citation', ' '.join(out)))


def captioned(name, p):
    d = dict((sub, x) for x, sub in p['pieces'])
    return el(name, el('label', text_xml(d['label'])) + el('caption', el(FORMAT['caption'], text_xml(d['caption']))))


def nodes_xml(nodes):
    out = []
    for n in nodes:
        x = node_xml(n)
        if n.get('inside'):
            out[-1] = out[-1][:-len('</p>')] + x + '</p>'
        else:
            out.append(x)
    return ''.join(out)


def node_xml(n):
    role = n['role']
    if role in ('sec', 'ack', 'notes'):
        return el(role, nodes_xml(n['items']))
    if role == 'list':
        return el('list', ''.join(
            el('list-item', el('p', inline(c['pieces']))) if c['role'] == 'list_item' else
            el('title', text_xml(c['pieces'][0][0])) for c in n['items']))
    if role == 'box':
        d = dict((sub, x) for x, sub in n['items'][0]['pieces'])
        return el('boxed-text', el('label', text_xml(d['label'])) + el('caption', el('title', text_xml(d['caption'])))
                  + ''.join(el('p', inline(c['pieces'])) for c in n['items'][1:]))
    if role == 'refs':
        return el('ref-list', ''.join(
            ref_xml(c) if c['role'] == 'reference' else el('title', text_xml(c['pieces'][0][0])) for c in n['items']))
    if role == 'app-group':
        return el(role, ''.join(
            el('title', text_xml(c['pieces'][0][0])) if c['role'] == 'appendix_group_title' else
            el('app', el('title', text_xml(c['pieces'][0][0])) + el('p', text_xml(c['pieces'][1][0])))
            for c in n['items']))
    if role.endswith('_section_title'):
        return ''.join(el('label' if sub == 'sec-label' else 'title', text_xml(x)) for x, sub in n['pieces'])
    if role == 'note' or role.endswith('_section_paragraph'):
        return el('p', inline(n['pieces']))
    return captioned({'figure': 'fig', 'table': 'table-wrap'}[role], n)


def person_xml(p):
    return el('name', el('surname', text_xml(p['pieces'][1][0])) + ' ' + el('given-names', text_xml(p['pieces'][0][0])))


def jats(a):
    FORMAT['italic'], FORMAT['breaks'] = set(a['italic']), set(a['breaks'])
    FORMAT['caption'] = a['caption']
    by = {}
    for p in a['front']:
        by.setdefault(p['role'], []).append(p)

    def text(role):
        return text_xml(by[role][0]['pieces'][0][0])
    journal = el('journal-meta', el('journal-title-group', el('journal-title', text('journal')))) \
        if 'journal' in by else ''
    meta = []
    if 'doi' in by:
        meta.append(el('article-id', text('doi'), pub_id_type='doi'))
    meta.append(el('title-group', el('article-title', text('title'))))
    kind = {'contrib_type': 'author'} if a['typed'] else {}
    meta.append(el('contrib-group', ''.join(
        el('contrib', person_xml(p) + (''.join(aff_xml(q['pieces']) for q in by['author_aff'])
                                       if a['affs'] == 'contrib' and p is by['author'][0] else ''), **kind)
        for p in by['author']) + ''.join(aff_xml(p['pieces']) for p in by['author_aff'] if a['affs'] == 'group')))
    if a['affs'] == 'outside':
        meta += [aff_xml(p['pieces']) for p in by['author_aff']]
    if 'handling_editor' in by:
        meta.append(el('contrib-group', el('contrib', person_xml(by['handling_editor'][0]), contrib_type='editor')))
    if 'author_notes' in by:
        meta.append(el('author-notes', el('corresp', text('author_notes'))))
    if 'copyright_statement' in by:
        meta.append(el('permissions', el('copyright-statement', text('copyright_statement'))))
    meta.append(el('abstract', el('p', text('abstract'))))
    if 'keywords' in by:
        meta.append(el('kwd-group', (el('title', text('keywords_title')) if 'keywords_title' in by else '')
                       + ''.join(el('kwd', text_xml(x)) for x, _ in by['keywords'][0]['pieces'])))
    return el('article', el('front', journal + el('article-meta', ''.join(meta)))
              + el('body', nodes_xml(a['body']))
              + el('back', nodes_xml(a['back'])))


# ---------------------------------------------------------------- documents

def leaves(nodes):
    out = []
    for n in nodes:
        out += leaves(n['items']) if 'items' in n else [n]
    return out


def parts_for(tool, a):
    front, body, back = a['front'], leaves(a['body']), leaves(a['back'])
    if tool == 'header':
        return front
    floats, at = [], len(back)
    if a['floats']:
        # figures and tables are printed at the end, or somewhere in the back matter
        at = sum(len(leaves([n])) for n in a['back'][:a['floats'] - 1])
        floats = [p for p in body if p['role'] in ('figure', 'table')]
        body = [p for p in body if p['role'] not in ('figure', 'table')]
    if tool == 'segmentation':
        back = [dict(p, role='back_' + p['role']) if p['role'] in ('figure', 'table') else p for p in back]
        return front + body + back[:at] + floats + back[at:]
    if tool == 'fulltext':
        return [p for p in front if p['role'] == 'keywords'] + body + [
            p for p in back[:at] + floats + back[at:] if p['role'] != 'reference']
    role = {'figure': 'figure', 'table': 'table', 'reference': 'reference', 'reference_segmenter': 'reference',
            'affiliation': 'author_aff'}[tool]
    return [p for p in front + body + back if p['role'] == role]


WRAP = {'figure': 'figure', 'table': 'figure[@type="table"]', 'reference': 'bibl', 'affiliation': 'affiliation'}


def items_of(case):
    """the text of the parts, each on lines of its own"""
    items = []
    for b in case['blocks']:
        text = []
        for k, x in enumerate(b['tokens']):
            if k in b['breaks']:
                text.append({'k': 'lb'})
                text.append({'k': 't', 'x': '\n' + x})
            else:
                text.append({'k': 't', 'x': (' ' if k else '') + x})
        text.append({'k': 'lb'})
        text.append({'k': 't', 'x': '\n'})
        items += [{'k': 'e', 'n': WRAP[case['tool']], 'ch': text}] if b['wrap'] else text
    return items


def article_run(case):
    from lxml import etree
    tool = case['tool']
    container, ns = cli.TOOLS[tool][2], cli.TOOLS[tool][3]
    with tei.scratch_dir() as tmp:
        src, xml, out = (os.path.join(tmp, n) for n in ('src', 'xml', 'out'))
        name = cli.source_name(tool, 'doc1')
        cli.write_file(os.path.join(src, name), tei.wrap_document(items_of(case), container, ns=ns))
        cli.write_file(os.path.join(xml, 'doc1.xml'), jats(case['article']))
        error = cli.run_tool(tool, cli.argv_for(tool, src, xml, out, case['args']))
        path = os.path.join(out, name)
        rec = {'tool': tool, 'segment': case['segment'], 'error': error, 'saved': os.path.exists(path),
               'parts': [{k: b[k] for k in ('role', 'tokens', 'subs', 'kind')} for b in case['blocks']]}
        if error or not rec['saved']:
            return rec
        root = etree.fromstring(cli.read_file(path))
    names, ids, out = [], [], []
    for k, e in enumerate(tei.content_events(tei.find_path(root, container)[0])):
        if e[0] == 'o':
            names.append(e[1])
            ids.append(k)
        elif e[0] == 'c':
            names.pop()
            ids.pop()
        elif e[0] == 't':
            out.append({'x': e[1], 'names': list(names), 'ids': list(ids)})
    rec['texts'] = out
    return rec


# ---------------------------------------------------------------- cases

SEGMENT = {'figure': '--segment-figures', 'table': '--segment-tables',
           'reference': '--segment-references', 'affiliation': '--segment-affiliation'}


def block(rng, p, wrap, with_prefix=False):
    tokens, subs = [], []
    for x, sub in p['pieces']:
        if with_prefix and sub.endswith('-prefix'):
            sub = sub[:-len('-prefix')]
        for t in x.split(' '):
            tokens.append(t)
            subs.append(sub)
    breaks = [k for k in range(1, len(tokens)) if rng.random() < .08 and subs[k] == subs[k - 1]]
    return {'role': p['role'], 'tokens': tokens, 'subs': subs, 'breaks': breaks, 'wrap': wrap, 'kind': 'part'}


def filler_block(rng, text):
    return dict(block(rng, {'role': '', 'pieces': [[text, '']]}, False), kind='filler')


def rand_case(rng, tool, shape=None):
    a, filler = rand_article(rng, shape)
    a['affs'] = rng.choice(['outside', 'group', 'contrib'])
    a['typed'] = rng.random() < .8
    a['caption'] = rng.choice(['p', 'p', 'title'])
    a['floats'] = rng.randint(1, len(a['back']) + 1) if rng.random() < .4 else 0
    words = [t for p in a['front'] + leaves(a['body']) + leaves(a['back'])
             for x, sub in p['pieces'] for t in x.split(' ') if sub in ('', 'title', 'caption', 'article-title')]
    a['italic'] = [t for t in words if rng.random() < .03] if rng.random() < .5 else []
    a['breaks'] = [t for t in words if rng.random() < .03] if rng.random() < .5 else []
    segment = tool in SEGMENT and rng.random() < .5
    wrap = tool in SEGMENT and not segment
    prefix = tool == 'reference' and rng.random() < .3
    blocks = [block(rng, p, wrap, prefix) for p in parts_for(tool, a)]
    for text in filler[:rng.choice([0, 1, 3])]:
        blocks.insert(rng.randint(0, len(blocks)), filler_block(rng, text))
    return {'tool': tool, 'article': a, 'blocks': blocks, 'segment': segment,
            'args': ([SEGMENT[tool]] if segment else []) + (['--include-idno-prefix'] if prefix else [])}


# how often a tool is run
CASES = {'header': 24, 'segmentation': 30, 'fulltext': 20, 'figure': 14, 'table': 14, 'reference': 24,
         'reference_segmenter': 14, 'affiliation': 24}


def article_cases(rng, tier):
    times = 1 if tier == 'quick' else 25
    return [rand_case(rng, tool) for tool, n in sorted(CASES.items()) for _ in range(n * times)]


def constants(tool, tier):
    sizes = {'figure': (3, 4), 'table': (3, 4)}.get(tool, (2, 3))
    return 'CONSTANTS ToolName = "%s" MaxParts = %d MaxSubs = %d\n' % (
        tool, sizes[tier != 'quick'], 2 if tier == 'quick' else 3)


def model_cfg(tool):
    return lambda tier: ('INIT Init\nNEXT Write\nCHECK_DEADLOCK FALSE\nINVARIANTS Depth Units Asked Distinct\n'
                         + constants(tool, tier))


def gen_cfg(tool):
    return lambda tier: 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n' + constants(tool, tier)


def from_gen(tool):
    def adapt(shapes, rng, tier):
        rng.shuffle(shapes)
        if tool in ('reference', 'reference_segmenter', 'affiliation'):
            n = 4 if tool != 'affiliation' else 3
            groups = [[x['subs'] for x in shapes[k:k + n]] for k in range(0, len(shapes), n)]
            shapes = [{'affs': g} if tool == 'affiliation' else {'refs': g, 'back': ['refs']} for g in groups]
        elif tool == 'header':
            shapes = [{'front': x['front']} for x in shapes]
        elif tool in ('figure', 'table'):
            shapes = [{'body': x['body']} for x in shapes]
        else:
            shapes = [{'body': x['body'], 'back': x['back']} for x in shapes]
        limit = 40 if tier == 'quick' else 2000
        return [rand_case(rng, tool, x) for x in shapes[:limit]]
    return adapt


GEN = [Source(
    'shapes-' + tool, 'props.article:article_run', 'TraceArticle', gen=('GenArticle', gen_cfg(tool)),
    adapt=from_gen(tool), case_timeout=60,
    rule='shapes of articles from the model: all combinations of the optional parts of the front matter or '
         'of affiliations, pairs (thorough: triples) of the fields of references, of what sections consist '
         'of with all kinds of back matter (at most 40, thorough 2000, articles per tool)'
) for tool in sorted(cli.TOOLS)]


def any_case(rng):
    return rand_case(rng, rng.choice(sorted(cli.TOOLS)))


def show(bad, rec):
    print(sorted(bad), rec['tool'], rec['args'])
    print('  ', jats(rec['article']))
    print('  ', tei.items_to_xml(items_of(rec)))
    print('  ', rec.get('error'), rec.get('bad'))
    prev = None
    for t in rec.get('texts', []):
        if t['ids'] != prev:
            print('\n   ##', '/'.join(t['names']), end=': ')
        prev = t['ids']
        print(t['x'], end=' ')
    print()
    for b in rec['blocks']:
        print('   ', b['role'], ' '.join(b['tokens'])[:60])


PROPS = [
    Prop('A02', [Source(
        'articles', 'props.article:article_run', 'TraceArticle', cases=article_cases, case_timeout=60,
        rule='random JATS articles (front matter, nested sections, lists, boxes, figures, tables, '
             'acknowledgement, references, appendices) and documents with their text, unmodified '
             'configuration: every word ends up in the element that stands for the part it is from'
    )] + GEN, models=[('MCArticle', model_cfg(tool)) for tool in sorted(cli.TOOLS)]),
]
