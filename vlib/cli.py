"""Generated articles, training documents for every command line tool, and running the tools."""
import gzip
import importlib
import os
import random
import re
import xml.sax.saxutils as su

from vlib import core, tei

PKG = 'sciencebeam_trainer_grobid_tools.'

# tool -> (module, file name suffix, container, namespaced)
TOOLS = {
    'header': ('auto_annotate_header', 'header', 'text/front', False),
    'segmentation': ('auto_annotate_segmentation', 'segmentation', 'text', False),
    'fulltext': ('auto_annotate_fulltext', 'fulltext', 'text', False),
    'figure': ('auto_annotate_figure', 'figure', 'text', False),
    'table': ('auto_annotate_table', 'table', 'text', False),
    'reference': ('auto_annotate_reference', 'references', 'text/back/listBibl', True),
    'reference_segmenter': (
        'auto_annotate_reference_segmenter', 'references.referenceSegmenter', 'text', False
    ),
    'affiliation': (
        'auto_annotate_affiliation_address', 'affiliation',
        'teiHeader/fileDesc/sourceDesc/biblStruct/analytic/author', True
    ),
}

WORDS = (
    'neuron cortex protein kinase membrane signal growth model sample ratio method result tissue '
    'binding domain assay vector plasmid strain colony gradient spectrum photon lattice enzyme '
    'receptor synapse genome variant allele marker pathway network cluster kinetic thermal '
    'Bayesian Markov Gaussian Drosophila Escherichia'
).split()
SURNAMES = 'Smith Jones Nakamura Okafor Lindqvist Garcia M\u00fcller O\u2019Brien Zhang'.split()
GIVEN = 'Anna Bo Carlos D. E.F. Hiro Mary Wei'.split()
PLACES = [('Uppsala', 'Sweden'), ('Lagos', 'Nigeria'), ('Kyoto', 'Japan'), ('Boston', 'USA')]


def sentence(rng, lo=4, hi=10):
    words = [rng.choice(WORDS) for _ in range(rng.randint(lo, hi))]
    if rng.random() < .3:
        words[rng.randrange(len(words))] += rng.choice([',', ' (n=3)', ' 1.5', '-like'])
    return ' '.join(words).capitalize()


def rand_article(rng, size=2):
    def some(f, lo, hi):
        return [f(i) for i in range(1, rng.randint(lo, hi) + 1)]

    def ref(i):
        return {
            'label': str(i), 'authors': [[rng.choice(SURNAMES), rng.choice(GIVEN)]
                                         for _ in range(rng.randint(1, 3))],
            'title': sentence(rng), 'source': 'Journal of ' + rng.choice(WORDS).capitalize(),
            'year': str(rng.randint(1990, 2020)), 'volume': str(rng.randint(1, 90)),
            'fpage': str(100 + i), 'lpage': str(120 + i),
            'doi': '10.12%02d/abc.%d' % (rng.randint(10, 99), rng.randint(100, 999))
        }
    return {
        'title': sentence(rng, 5, 9), 'abstract': sentence(rng, 10, 24) + '.',
        'authors': some(lambda i: [rng.choice(GIVEN), rng.choice(SURNAMES)], 1, size),
        'affs': some(lambda i: [str(i), 'Department of ' + rng.choice(WORDS).capitalize(),
                                'University of ' + rng.choice(WORDS).capitalize()]
                     + list(rng.choice(PLACES)), 1, size),
        'sections': some(lambda i: [sentence(rng, 1, 3), [
            sentence(rng, 8, 20) + '.' for _ in range(rng.randint(1, 2))]], 1, size),
        'figs': some(lambda i: ['Figure %d.' % i, sentence(rng, 4, 12) + '.'], 1, size),
        'tables': some(lambda i: ['Table %d.' % i, sentence(rng, 4, 12) + '.'], 1, size),
        'refs': some(ref, 1, size),
    }


def x(text):
    return su.escape(text)


def jats(a, wrap=False):
    out = ['<article><front><article-meta><title-group><article-title>%s</article-title>'
           '</title-group><contrib-group>' % x(a['title'])]
    for given, surname in a['authors']:
        out.append('<contrib contrib-type="author"><name><surname>%s</surname> <given-names>%s'
                   '</given-names></name></contrib>' % (x(surname), x(given)))
    for label, dep, inst, city, country in a['affs']:
        out.append(
            '<aff><label>%s</label> <addr-line><named-content content-type="department">%s'
            '</named-content></addr-line>, <institution>%s</institution>, <addr-line>'
            '<named-content content-type="city">%s</named-content></addr-line>, <country>%s'
            '</country></aff>' % (x(label), x(dep), x(inst), x(city), x(country))
        )
    out.append('</contrib-group><abstract><p>%s</p></abstract></article-meta></front><body>'
               % x(a['abstract']))
    for k, (title, paras) in enumerate(a['sections']):
        out.append('<sec><title>%s</title>' % x(title))
        for p in paras:
            out.append('<p>%s</p>' % x(p))
        if k == 0:
            for tag, items in (('fig', a['figs']), ('table-wrap', a['tables'])):
                for label, caption in items:
                    out.append('<%s><label>%s</label><caption><p>%s</p></caption></%s>' % (
                        tag, x(label), x(caption), tag))
        out.append('</sec>')
    out.append('</body><back><ref-list>')
    for r in a['refs']:
        out.append('<ref><label>%s</label><mixed-citation>' % x(r['label']))
        for surname, given in r['authors']:
            out.append('<string-name><surname>%s</surname>, <given-names>%s</given-names>'
                       '</string-name>, ' % (x(surname), x(given)))
        out.append(
            '(<year>%(year)s</year>). <article-title>%(title)s</article-title>. '
            '<source>%(source)s</source>, <volume>%(volume)s</volume>, <fpage>%(fpage)s</fpage>-'
            '<lpage>%(lpage)s</lpage>. doi:<pub-id pub-id-type="doi">%(doi)s</pub-id>'
            % {k: x(v) for k, v in r.items() if isinstance(v, str)}
        )
        out.append('</mixed-citation></ref>')
    out.append('</ref-list></back></article>')
    return ''.join(out)


def ref_parts(r):
    """[text, sub element or ''] in reading order"""
    out = [[r['label'], 'label'], [' ', '']]
    for surname, given in r['authors']:
        out += [['%s, %s' % (surname, given), 'author'], [', ', '']]
    out += [['(', ''], [r['year'], 'date'], ['). ', ''], [r['title'], 'title[@level="a"]'],
            ['. ', ''], [r['source'], 'title[@level="j"]'], [', ', ''],
            [r['volume'], 'biblScope[@unit="volume"]'], [', ', ''],
            [r['fpage'] + '-' + r['lpage'], 'biblScope[@unit="page"]'], ['. doi:', ''],
            [r['doi'], 'idno[@type="DOI"]']]
    return out


def blocks_for(tool, a):
    """what the document of this tool contains: [path of the element, parts]"""
    def plain(path, text):
        return [path, [[text, '']]]
    head = [plain('docTitle/titlePart', a['title'])] + [
        plain('byline/docAuthor', ' '.join(n)) for n in a['authors']
    ] + [plain('byline/affiliation', ', '.join(f)) for f in a['affs']] + [
        plain('div[@type="abstract"]', a['abstract'])]
    body = []
    figs = [['figure', [[label, 'head/label'], [' ', ''], [cap, 'figDesc']]]
            for label, cap in a['figs']]
    tables = [['figure[@type="table"]', [[label, 'head/label'], [' ', ''], [cap, 'figDesc']]]
              for label, cap in a['tables']]
    for k, (title, paras) in enumerate(a['sections']):
        body.append(plain('head', title))
        body.extend(plain('p', p) for p in paras)
        if k == 0:
            body.extend(figs + tables)
    refs = [['bibl', ref_parts(r)] for r in a['refs']]
    if tool == 'header':
        return head
    if tool == 'fulltext':
        return body
    if tool == 'figure':
        return figs
    if tool == 'table':
        return tables
    if tool == 'reference':
        return refs
    if tool == 'reference_segmenter':
        return [['listBibl/bibl', parts] for _, parts in refs]
    if tool == 'affiliation':
        return [['affiliation', [
            [label, 'marker'], [' ', ''], [dep, 'orgName[@type="department"]'], [', ', ''],
            [inst, 'orgName[@type="institution"]'], [', ', ''], [city, 'address/settlement'],
            [', ', ''], [country, 'address/country']]] for label, dep, inst, city, country in a['affs']]
    seg = [['front', parts] for _, parts in head] + [['body', parts] for _, parts in body] + [
        ['listBibl', parts] for _, parts in refs]
    return seg


def wrap_path(path, items):
    for step in reversed(path.split('/')):
        items = [{'k': 'e', 'n': step, 'ch': items}]
    return items


def break_lines(rng, text, state):
    """text items with line breaks after some blanks"""
    items, cur = [], ''
    for word in re.split(r'( )', text):
        cur += word
        if word == ' ':
            state[0] += 1
            if state[0] >= state[1]:
                items += [{'k': 't', 'x': cur}, {'k': 'lb'}, {'k': 't', 'x': '\n'}]
                cur = ''
                state[:] = [0, rng.randint(3, 9)]
    if cur:
        items.append({'k': 't', 'x': cur})
    return items


def rand_layout(rng):
    return {
        'seed': rng.randrange(1 << 30), 'mark': rng.choice(['none', 'all', 'all', 'some', 'main']),
        'noise': rng.choice([0, 0, .3]), 'drop': rng.choice([0, 0, .15]), 'gz': False,
        'swap': rng.random() < .2, 'lineno': rng.random() < .15, 'words': rng.choice([4, 8, 12]),
        'declare': rng.random() < .5
    }


def document_items(tool, article, layout):
    rng = random.Random(layout['seed'])
    blocks = blocks_for(tool, article)
    if layout['swap'] and len(blocks) > 1:
        rng.shuffle(blocks)
    items = []
    main_only = tool in ('reference', 'affiliation', 'figure', 'table')
    for path, parts in blocks:
        if rng.random() < layout['noise']:
            items += [{'k': 't', 'x': rng.choice(['12', 'bioRxiv preprint', 'Running head', '* p < 0.05'])},
                      {'k': 'lb'}, {'k': 't', 'x': '\n'}]
        state = [0, layout['words']]
        ch = []
        mark = layout['mark']
        if mark == 'some':
            mark = rng.choice(['none', 'all', 'main'])
        for text, sub in parts:
            if rng.random() < layout['drop'] and ' ' in text.strip():
                text = ' '.join(w for w in text.split(' ') if rng.random() < .8) or text
            sub_items = break_lines(rng, text, state)
            ch += wrap_path(sub, sub_items) if sub and mark == 'all' else sub_items
        ch += [{'k': 'lb'}, {'k': 't', 'x': '\n'}]
        items += wrap_path(path, ch) if mark != 'none' or (main_only and rng.random() < .8) else ch
    if layout['lineno']:
        n = [0]

        def number(its):
            out = []
            for it in its:
                if it['k'] == 'e':
                    it = dict(it, ch=number(it['ch']))
                out.append(it)
                if it['k'] == 'lb':
                    n[0] += 1
                    out.append({'k': 't', 'x': '%d ' % n[0]})
            return out
        items = number(items)
    return items


def document_xml(tool, article, layout, attrs=None):
    _, _, container, ns = TOOLS[tool]
    return tei.wrap_document(
        document_items(tool, article, layout), container, tail='\n', ns=ns, attrs=attrs,
        declare=layout['declare']
    )


def source_name(tool, base, gz=False):
    return '%s.%s.tei.xml%s' % (base, TOOLS[tool][1], '.gz' if gz else '')


def write_file(path, text, gz=False):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = text.encode('utf-8')
    with (gzip.open(path, 'wb') if gz else open(path, 'wb')) as f:
        f.write(data)


def read_file(path):
    with open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz') and data[:2] == b'\x1f\x8b':
        data = gzip.decompress(data)
    return data


def argv_for(tool, src, xml, out, args=(), source_path=None):
    suffix = TOOLS[tool][1].replace('.', r'\.')
    argv = [
        '--source-path=' + source_path if source_path else '--source-base-path=' + src,
        '--output-path=' + out, '--xml-path=' + xml,
        r'--xml-filename-regex=/(.*)\.%s\.tei\.xml(\.gz)?/\1.xml/' % suffix,
        '--xml-mapping-path=' + os.path.join(core.REPO, 'config', 'xml-mapping.conf')
    ]
    if tool == 'segmentation':
        argv.append('--segmentation-config=' + os.path.join(core.REPO, 'config', 'segmentation.conf'))
    return argv + list(args)


def run_tool(tool, argv):
    """runs the command line tool in this process; the error it ends with, or ''"""
    mod = importlib.import_module(PKG + TOOLS[tool][0])
    try:
        mod.main(argv, save_main_session=False)
        return ''
    except Exception as e:  # pylint: disable=broad-except
        return '%s: %s' % (type(e).__name__, e)


TOOL_ARGS = {
    'header': [[], ['--fields=title,abstract'], ['--fields=title,author,author_aff,abstract'],
               ['--fields=abstract', '--no-preserve-tags'], ['--fields=title', '--matcher=complex'],
               ['--use-line-number-annotator', '--fields=title,abstract,author']],
    'segmentation': [[], ['--no-merge-references'], ['--no-preserve-tags'],
                     ['--no-preserve-fields=front,body'], ['--use-line-number-annotator']],
    'fulltext': [[], ['--no-extend-to-line'], ['--expand-to-previous-untagged-lines'],
                 ['--expand-to-following-untagged-lines', '--no-preserve-tags'],
                 ['--fields=section_title,section_paragraph'], ['--fields=figure,table']],
    'figure': [[], ['--segment-figures'], ['--preserve-sub-tags'],
               ['--sub-fields=figure-caption', '--preserve-sub-tags'],
               ['--segment-figures', '--no-preserve-sub-fields=figure-label', '--preserve-sub-tags']],
    'table': [[], ['--segment-tables'], ['--preserve-sub-tags'],
              ['--sub-fields=table-label', '--preserve-sub-tags']],
    'reference': [[], ['--segment-references'], ['--include-idno-prefix'],
                  ['--segment-references', '--include-idno-prefix']],
    'reference_segmenter': [[], ['--no-preserve-tags'], ['--matcher-score-threshold=0.9']],
    'affiliation': [[], ['--segment-affiliation'], ['--preserve-sub-tags'],
                    ['--segment-affiliation', '--preserve-sub-tags'],
                    ['--sub-fields=author_aff-institution']],
}
