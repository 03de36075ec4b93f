"""Fixing the references of articles: J01 (text and frame), J02 (identifiers), J03 (files)."""
import gzip
import os

from vlib.registry import Prop, Source

XLINK = '{http://www.w3.org/1999/xlink}href'
QUOTES = {'LS': '\u2018', 'RS': '\u2019', 'LD': '\u201c', 'RD': '\u201d'}
NAMES = {v: k for k, v in QUOTES.items()}
IDS = ['doi', 'pmid', 'pmcid', 'pii', 'other']
TAGS = {'title': 'article-title', 'link': 'ext-link'}


def chars(text):
    return [NAMES.get(c, c) for c in text or '']


def text_of(xs):
    return ''.join(QUOTES.get(c, c) for c in xs) or None


def make(it):
    from lxml import etree
    k = it['k']
    if k == 'rich':
        el = etree.Element('article-title')
        a, b, tag = it['mark']
        el.text = text_of(it['x'][:a])
        el.append(etree.Element(tag))
        el[0].text = text_of(it['x'][a:b])
        el[0].tail = text_of(it['x'][b:])
        return el
    if k in ('comment', 'source', 'year', 'title', 'link'):
        el = etree.Element(TAGS.get(k, k))
    else:
        el = etree.Element('pub-id', {'pub-id-type': it.get('written') or k})
    el.text = text_of(it['x'])
    if it['href']:
        el.set(XLINK, text_of(it['href']))
    return el


def add_items(parent, items):
    last = None
    for it in items:
        if it['k'] == 'text':
            if last is None:
                parent.text = (parent.text or '') + (text_of(it['x']) or '')
            else:
                last.tail = (last.tail or '') + (text_of(it['x']) or '')
        else:
            last = make(it)
            parent.append(last)


def read_items(parent):
    out = [{'k': 'text', 'x': chars(parent.text), 'href': []}]
    for el in parent:
        if el.tag == 'article-title' and len(el):
            out += [{'k': 'rich', 'x': chars(''.join(el.itertext())), 'href': []},
                    {'k': 'text', 'x': chars(el.tail), 'href': []}]
            continue
        assert len(el) == 0, 'nested element'
        k = el.tag
        if k == 'pub-id':
            k = el.get('pub-id-type')
        k = {v: n for n, v in TAGS.items()}.get(k, k)
        out.append({'k': k, 'x': chars(el.text), 'href': chars(el.get(XLINK))})
        out.append({'k': 'text', 'x': chars(el.tail), 'href': []})
    return out


def article(refs, ns=False):
    from lxml import etree
    root = etree.Element('article')
    front = etree.SubElement(root, 'front')
    front.text = 'A front 10.1234/out, PMID: 5 '
    pub = etree.SubElement(front, 'pub-id', {'pub-id-type': 'DOI'})
    pub.text = 'doi: 10.1234/front.'
    rl = etree.SubElement(etree.SubElement(root, 'back'), 'ref-list')
    etree.SubElement(rl, 'title').text = 'References'
    for ref in refs:
        rl.append(ref)
    return root


def ref_run(case):
    from lxml import etree
    from sciencebeam_trainer_grobid_tools import fix_jats_xml as m
    ref = etree.Element('ref', {'id': 'r1'})
    for cit in case['ref']:
        el = etree.SubElement(ref, 'mixed-citation' if cit['mixed'] else 'element-citation')
        add_items(el, cit['items'])
    root = etree.fromstring(etree.tostring(article([ref]), encoding='unicode'))
    m.fix_jats_xml_node(root)
    after = [
        {'mixed': el.tag == 'mixed-citation', 'items': read_items(el)} for el in root.find('back/ref-list/ref')
    ]
    before = [
        {'mixed': c['mixed'], 'items': [{k: it[k] for k in ('k', 'x', 'href')} for it in c['items']]}
        for c in case['ref']
    ]
    return {'kind': 'ref', 'before': before, 'after': after}


# ---------------------------------------------------------------- any reference
def flat(node):
    """characters with the elements around them that fixing leaves alone"""
    from lxml import etree
    out, others = [], []

    def walk(el, path):
        if isinstance(el.tag, str):
            if el.tag not in ('pub-id', 'ext-link'):
                others.append([el.tag] + sorted('%s=%s' % kv for kv in el.attrib.items()))
            here = path if el.tag in ('pub-id', 'ext-link', 'article-title', 'comment') else path + [el.tag]
            out.extend({'c': c, 'in': here} for c in el.text or '')
            for child in el:
                walk(child, here)
                out.extend({'c': c, 'in': here} for c in child.tail or '')
        else:
            others.append([etree.tostring(el, encoding='unicode', with_tail=False)])
    walk(node, [])
    return out, others


def without_refs(root):
    from lxml import etree
    root = etree.fromstring(etree.tostring(root, encoding='unicode'))
    for ref in root.xpath('.//back/ref-list/ref'):
        for child in list(ref):
            ref.remove(child)
        ref.text = None
    return etree.tostring(root, encoding='unicode')


def tree_run(case):
    from lxml import etree
    from sciencebeam_trainer_grobid_tools import fix_jats_xml as m
    root = etree.fromstring(case['xml'])
    path = 'back/ref-list/ref'
    b = [flat(r) for r in root.findall(path)]
    out1 = without_refs(root)
    m.fix_jats_xml_node(root)
    a = [flat(r) for r in root.findall(path)]
    return {
        'kind': 'tree', 'before': sum((x[0] for x in b), []), 'after': sum((x[0] for x in a), []),
        'others1': [x[1] for x in b], 'others2': [x[1] for x in a], 'outside': without_refs(root) == out1
    }


# ---------------------------------------------------------------- cases
FILL = ['J Foo', 'Smith A, Jones B', 'text', '(2001)', '12(3): 45-67', '2001;12(3):1234-1245', 'Nature, ',
        'In press', 'et al', '. ', ', ', '; ', ' ', '[', ']', 'www', 'DOI']
DOIS = ['10.1234/abc', '10.1016/S0140-6736(05)66783-1', '10.1234.56/a.b;c', '10.12345/x[1]', '10.1000/X-12',
        '10.1234567890123/abc', '10.1234/ab c', '10.1234.5.67/ABC']
DOI_TAILS = ['', '', '', '.', ' .', '. ', ';', ']', '.]', ' [doi]', '[doi]', '. PMID: 12', ' PubMed', ' (Epub 2001)',
             '. Accessed 2 May', ' error', ' errors', ', 12', ' 10.1234/abc', ' doi: 10.1234/abc', ';10.1234/abc',
             ' 10.1234/a bc', ' 10.1234/a-bc', ' 10.1234/ABC', ' 10.1016/S0140-6736 05 66783-1', ' [10.1234/abc]',
             ' 10.1234/ab', ' 10.1234/abcd', ' abc [pii]', ' S0140673605667831 [pii]', ' ab [pii]', ' [pii]', ' 66783-1 [pii]', '\nmore', ' x y']
NOT_DOI = ['10.123/abc', '10.1234', 'a10.1234/x', '10.1234./x', '110.1234/x', '10.12a4/x', 'doi']
PMIDS = ['PMID: 12345', 'PMID:7', 'PMID : 1234567890', 'PMID:12345678901', 'PMID: 12a', 'pmid: 12', 'PMID 12',
         'PMID:\n77.', 'PMID: ,12']
PMCS = ['PMC1234', 'pmc99', 'PMC', 'PMCID: PMC12', 'Pmc12a', 'xPMC5', 'PMC 12']
PIIS = ['S0140-6736(05)66783-1', 'S0140673605667831', 'B012345678901234X', 'S 0140-6736 05 66783-X', 'S0140-67360566783',
        'PII: S0140-6736(05)66783-1', 'aS0140673605667831', 'S0140-6736(05)66783-1, 12', 'S01406736056678312a']
OTHERS = ['abcde12 [pii]', '(abcd-12 [pii]', 'doi:abcde.1[pii]', 'doi:ab [pii]', 'abcd [pii]', 'abc [pii]', '[pii]']
WOS = ['WOS:000123456789012', 'wos : 000123456789012', 'WOS:0001234567890123', 'WOS:00012345678901', 'WOS 12']
URLS = ['http://doi.org/', 'https://dx.doi.org/', 'doi.org/', 'http : // dx . doi . org / ', 'https://doi.org/ ',
        'http://doi.org', 'http://doi.org/x/', 'ftp://doi.org/', 'http://DOI.org/',
        'http://www.doi.org/', 'https://alt.doi.org/', 'http://a.b.doi.org/']
LINKS = ['http://a.b/c', 'http://a.b/chttp://c.d', 'https://a.bhttps://c.dhttp://e', 'see http://a.b', 'a.b/c', 'http://www.a.b/chttp://www.c', 'http://www.a.b/www',
         'https://doi.org/10.1234/x[10.1234/x]', 'https://doi.org/10.1234/x [10.1234/x] [10.1234/y]z',
         'http://a.b/[10.1234/x]', 'https://doi.org/[10.123/x]', 'https://doi.org/a[10.1234/]']
TITLES = ['A title', 'A title,', 'A title , ', 'A title; PMC12', 'A title;PMC12,', 'A, title', 'A',
          'Title: "x" and', ',', 'A title; PMCx', '']


def doi_text(rng):
    if rng.random() < .1:
        return rng.choice(NOT_DOI)
    return rng.choice(DOIS) + rng.choice(DOI_TAILS)


def some_text(rng, ids=.5):
    out = ''
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < ids:
            out += rng.choice([
                lambda: rng.choice(['', 'doi: ', 'doi:', 'DOI ']) + doi_text(rng),
                lambda: rng.choice(PMIDS), lambda: rng.choice(PMCS), lambda: rng.choice(PIIS),
                lambda: rng.choice(OTHERS), lambda: rng.choice(WOS)])()
        else:
            out += rng.choice(FILL)
        out += rng.choice(['', '', ' ', ' ', '. ', ', ', '; ', '\n', '\t', ' \n  ', '.\n'])
    return out


def id_text(rng, k):
    r = rng.random()
    if r < .06:
        return ''
    if r < .16:
        return rng.choice(FILL)
    own = {'doi': lambda: rng.choice(['', '', 'doi: ', 'doi:', 'x']) + doi_text(rng),
           'pmid': lambda: rng.choice(PMIDS + ['12', ' 123 ', '1 2', '12345678901', 'a12 34']),
           'pmcid': lambda: rng.choice(PMCS), 'pii': lambda: rng.choice(PIIS),
           'other': lambda: rng.choice(OTHERS + WOS)}
    return own.get(k, lambda: rng.choice(FILL))()


def title_text(rng):
    t = rng.choice(TITLES)
    r = rng.random()
    if r < .5:
        left, right = rng.choice([('"', '"'), (QUOTES['LS'], QUOTES['RS']), (QUOTES['LD'], QUOTES['RD'])])
        if r < .2:
            t = left + t + right
        elif r < .3:
            t = left + t + right + rng.choice([',', ' , ', '; PMC1', ' x', '.'])
        elif r < .4:
            t = left + t
        else:
            t = left + t + rng.choice([QUOTES['RS'], QUOTES['RD'], '"'])
    return t


def rich_title(rng):
    """a title with markup: A and C around the part B in another font"""
    a, b, c = (rng.choice(v) for v in (['A ', 'A, ', 'On the '], ['b', 'E. coli', 'x, ', '(y)', '"q"'],
                                       [' c', 'c', ' in vitro', ', c d']))
    left, right = rng.choice([('', '')] + [('"', '"'), (QUOTES['LS'], QUOTES['RS']), (QUOTES['LD'], QUOTES['RD'])])
    if rng.random() < .3:
        left = rng.choice(['', left])
        right = '' if left else right
    elif rng.random() < .2:
        b += right
    c += rng.choice(['', '', ',', ', ', ' ,']) + right + rng.choice(['', '', ',', ', ', ' ,', '.'])
    x = [chars(v) for v in (left + a, b, c)]
    it = item('rich', '')
    it['x'] = x[0] + x[1] + x[2]
    it['mark'] = [len(x[0]), len(x[0] + x[1]), rng.choice(['italic', 'sup', 'bold'])]
    return it


def item(k, x, href=''):
    return {'k': k, 'x': chars(x), 'href': chars(href)}


def twice_quoted(x):
    """a title that would be quoted again without its quotes: left open"""
    x = ''.join(x)
    return sum(x.count(q) for q in ('"', 'LS', 'RS', 'LD', 'RD')) > 2


def rand_citation(rng):
    items = []
    for _ in range(rng.choice([1, 2, 3, 5]) if rng.random() < .97 else 10):
        r = rng.random()
        if r < .45:
            items.append(item('text', some_text(rng, rng.choice([.2, .6]))))
        elif r < .7:
            k = rng.choice(IDS + ['doi', 'doi', 'isbn', 'Foo'])
            it = item(k, id_text(rng, k))
            if k != 'Foo' and rng.random() < .2:
                it['written'] = rng.choice([k.upper(), k.capitalize()])
            if k == 'doi' and rng.random() < .3:
                items.append(item('text', rng.choice(['', 'see ', 'at ']) + rng.choice(URLS)))
            items.append(it)
        elif r < .8:
            x = rng.choice(LINKS)
            href = rng.choice([x, x, '', 'http://other', x.replace('http', 'whttp').replace('whttp', 'http', 1)])
            items.append(item('link', x, href))
        elif r < .88:
            items.append(item('comment', some_text(rng) if rng.random() < .9 else ''))
        elif r < .95:
            if rng.random() < .4:
                items.append(rich_title(rng))
                continue
            x = title_text(rng)
            if not twice_quoted(chars(x)):
                items.append(item('title', x))
        else:
            items.append(item(rng.choice(['source', 'year']), rng.choice(FILL + PMCS)))
    return {'mixed': rng.random() < .85, 'items': items}


def rand_ref(rng):
    return {'ref': [rand_citation(rng) for _ in range(rng.choice([1, 1, 1, 2]))]}


def rand_tree(rng):
    from lxml import etree

    def text(n=2):
        return ''.join(some_text(rng) if rng.random() < .6 else rng.choice(URLS + LINKS + TITLES)
                       for _ in range(rng.randint(0, n))) or None

    def child(depth):
        k = rng.choice(['article-title', 'pub-id', 'pub-id', 'pub-id', 'ext-link', 'comment', 'source', 'italic',
                        'person-group', '!'])
        if k == '!':
            el = etree.Comment(' PMID: 12 ')
        else:
            el = etree.Element(k)
            el.text = title_text(rng) if k == 'article-title' else text()
            if k == 'pub-id':
                typ = rng.choice(['doi', 'DOI', 'pmid', 'pmcid', 'pii', 'other', 'isbn', ''])
                if typ:
                    el.set('pub-id-type', typ)
                if rng.random() < .6:
                    el.text = id_text(rng, typ.lower()) or None
            if k == 'ext-link' and rng.random() < .7:
                el.set(XLINK, rng.choice([el.text or '', 'http://x']))
            if depth and rng.random() < .35:
                for _ in range(rng.randint(1, 2)):
                    el.append(child(depth - 1))
        el.tail = rng.choice([None, text(1), text(1), text(1), '"', '\u201d', ', ', '\n', ' '])
        return el
    refs = []
    for n in range(rng.choice([1, 1, 3]) if rng.random() < .98 else 12):
        ref = etree.Element('ref', {'id': 'r%d' % n})
        if rng.random() < .3:
            ref.append(child(1))
        for _ in range(rng.choice([1, 1, 2])):
            cit = etree.SubElement(ref, rng.choice(['mixed-citation'] * 3 + ['element-citation']))
            cit.text = text()
            cit.tail = rng.choice([None, '\n', text(1)])
            for _ in range(rng.choice([0, 1, 2, 4])):
                cit.append(child(2))
        refs.append(ref)
    return {'xml': etree.tostring(article(refs), encoding='unicode')}


# ---------------------------------------------------------------- files
def files_run(case):
    """the command line on a folder of articles; files are compared with the sources"""
    import shutil
    import tempfile
    from lxml import etree
    from sciencebeam_trainer_grobid_tools import fix_jats_xml as m
    work = tempfile.mkdtemp(prefix='jats')
    try:
        src, out = os.path.join(work, 'in'), os.path.join(work, 'out')
        os.makedirs(src)
        data = {}
        for name, xml, enc, mal in case['files']:
            path = os.path.join(src, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            b = ('<?xml version="1.0" encoding="%s"?>\n' % enc + xml).encode(enc, 'xmlcharrefreplace')
            if mal == 'space':
                b = b'\n ' + b
            elif mal == 'dagger':
                b = b.replace(b'A front', b'A&dagger; front')
            elif mal == 'broken':
                b = b[:len(b) // 2]
            data[name] = b
            with (gzip.open if name.endswith('.gz') else open)(path, 'wb') as f:
                f.write(b)
        args = ['--output-path', out, '--num-workers', str(case['workers'])]
        names = [f[0] for f in case['files']]
        if case['how'] == 'base':
            args += ['--source-base-path', src, '--source-filename-pattern', '**.xml*']
        elif case['how'] == 'one':
            args += ['--source-path', os.path.join(src, names[0]), '--source-base-path', src]
            names = names[:1]
        else:
            lst = os.path.join(src, 'files.tsv')
            with open(lst, 'w') as f:
                f.write('other\txml_url\n' + ''.join('x\t%s\n' % os.path.join(src, n) for n in names))
            args += ['--source-file-list', lst]
        if case['limit'] and case['how'] != 'one':
            args += ['--limit', str(case['limit'])]
        if case['processes']:
            args.append('--multi-processing')
        status, why = 0, ''
        try:
            m.main(args)
        except Exception as exc:       # pylint: disable=broad-except
            status, why = 1, str(exc)
        got = sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs)
        bad = [f[0] for f in case['files'] if f[3] == 'broken']
        if case['limit'] and case['how'] != 'one':
            if case['how'] == 'list':
                names = names[:case['limit']]
            else:
                names = got if len(got) == min(case['limit'], len(names)) and set(got) <= set(names) else ['?']
        files = []
        for name in got:
            if name not in data:
                continue
            fixed = data[name].replace(b'&dagger;', b'&#x2020;').lstrip()
            old = etree.fromstring(fixed)
            try:
                with (gzip.open if name.endswith('.gz') else open)(os.path.join(out, name), 'rb') as f:
                    new = etree.fromstring(f.read())
            except (etree.XMLSyntaxError, OSError):
                files.append({'wf': False, 'outside': False, 'text': False, 'listed': '', 'changed': ''})
                continue
            metas = [c for c in new.findall('custom-meta-group/custom-meta')
                     if (c.findtext('meta-name') or '').startswith('fix-jats-')]
            meta = {c.findtext('meta-name'): c.findtext('meta-value') for c in metas}
            for c in metas:
                c.getparent().remove(c)
            for g in new.findall('custom-meta-group'):
                if len(g) == 0:
                    new.remove(g)
                else:
                    g[-1].tail = None
            path = 'back/ref-list/ref'
            pairs = list(zip(old.findall(path), new.findall(path)))
            changed = [a.get('id') or '' for a, b in pairs
                       if etree.tostring(a, method='c14n') != etree.tostring(b, method='c14n')]
            files.append({
                'wf': True, 'outside': without_refs(old) == without_refs(new),
                'text': all(''.join(a.itertext()) == ''.join(b.itertext()) for a, b in pairs),
                'changed': '%d:%s' % (len(changed), ','.join(c for c in changed if c)),
                'listed': '%s:%s' % (
                    meta.get('fix-jats-changed-reference-count'),
                    ','.join(v for v in (meta.get('fix-jats-changed-reference-ids') or '').split(',') if v))
            })
        same = True
        for name in data:
            with (gzip.open if name.endswith('.gz') else open)(os.path.join(src, name), 'rb') as f:
                same = same and f.read() == data[name]
        return {'kind': 'files', 'outputs': got, 'expected': sorted(n for n in names if n not in bad),
                'files': files, 'status': status, 'bad': any(n in bad for n in names), 'sources': same, 'why': why}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def rand_files(rng):
    files = []
    for k in range(rng.choice([1, 2, 3, 6])):
        name = rng.choice(['', 'sub/', 'a/b/']) + 'f%d.xml%s' % (k, rng.choice(['', '', '.gz']))
        xml = rand_tree(rng)['xml']
        group = '<custom-meta-group><custom-meta><meta-name>a</meta-name><meta-value>b</meta-value></custom-meta>' \
            '</custom-meta-group>'
        if rng.random() < .3:
            xml = xml.replace('</front>', group + '</front>')
        if rng.random() < .2:
            xml = xml.replace('<front>', group + '<front>', 1)
        if rng.random() < .2:
            xml = xml.replace('<ref id="r0">', '<ref>')
        files.append([name, xml, rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'us-ascii']),
                      rng.choice(['', '', '', '', 'space', 'dagger', 'broken'])])
    broken = any(f[3] == 'broken' for f in files)
    return {'files': files, 'how': rng.choice(['base', 'one', 'list']), 'workers': rng.choice([1, 1, 3]),
            'limit': 0 if broken else rng.choice([0, 0, 1, 2]), 'processes': rng.random() < .25}


def ref_cases(rng, tier):
    return [rand_ref(rng) for _ in range(5000 if tier == 'quick' else 80000)]


def tree_cases(rng, tier):
    return [rand_tree(rng) for _ in range(3000 if tier == 'quick' else 40000)]


def file_cases(rng, tier):
    return [rand_files(rng) for _ in range(400 if tier == 'quick' else 1500)]


def gen_cfg(tier):
    return 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxItems = %d\n' % (2 if tier == 'quick' else 3)


def from_gen(cits, rng, tier):
    cases = [{'ref': [c]} for c in cits]
    cases += [{'ref': [dict(rng.choice(cits), mixed=rng.random() < .8) for _ in range(2)]}
              for _ in range(len(cases) // 4)]
    return cases


MODEL = ('MCJats', lambda tier: 'INIT Init\nNEXT Next\nINVARIANTS TextKept ExactIds OthersKept OneFix FewAdded\n'
         'CONSTANTS MaxItems = %d\n' % (2 if tier == 'quick' else 3))
GEN = Source('all-small-references', 'props.jats:ref_run', 'TraceJats', gen=('GenJats', gen_cfg), adapt=from_gen,
             chunk=400, rule='every citation of at most 2 (thorough: 3) pieces of a catalogue of texts, titles, '
                             'links, comments and identifiers')
REFS = Source('random-references', 'props.jats:ref_run', 'TraceJats', cases=ref_cases, chunk=400,
              rule='references of text, titles, links, comments and identifiers in all their written forms, '
                   'with and without the elements for them')
TREES = Source('random-trees', 'props.jats:tree_run', 'TraceJats', cases=tree_cases, chunk=400,
               rule='any nesting of such elements, several references and citations, text outside')
FILES = Source('command-line', 'props.jats:files_run', 'TraceJats', cases=file_cases, case_timeout=120,
               rule='folders of articles: single file, file list or pattern, encodings, compressed, malformed or '
                    'broken files, threads and processes, limits')
PROPS = [
    Prop('J01', [TREES, REFS.with_clauses(['text', 'others'])], models=[MODEL]),
    Prop('J02', [REFS, GEN], models=[MODEL]),
    Prop('J03', [FILES]),
]
