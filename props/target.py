"""Target annotations of an article: T01 (extraction), T02 (selection of fields)."""
import json
import os

from vlib.registry import Prop, Source

WILD = [[[{'ax': 'd', 'name': '*', 'pred': ''}]]]
TAGS = ['a', 'b', 'c', 'd']


SYMBOLS = {'\u00e9': 'eacute', '\u03b2': 'beta', '_': 'low'}     # word characters beyond ASCII letters


def plain(xs):
    return ''.join({v: k for k, v in SYMBOLS.items()}.get(c, c) for c in xs)


def symbols(text):
    return [SYMBOLS.get(c, c) for c in text]


def build_tree(nodes):
    from lxml import etree
    els = []
    for nd in nodes:
        if nd['com']:
            el = (etree.Comment if nd['tag'] == '!' else
                  lambda t: etree.ProcessingInstruction('pi', t))(plain(nd['text']))
        else:
            el = etree.Element(nd['tag'])
            el.text = plain(nd['text']) or None
            if nd['typ']:
                el.set('type', nd['typ'])
        els.append(el)
        if nd['par']:
            els[nd['par'] - 1].append(el)
            el.tail = plain(nd['tail']) or None
    return etree.fromstring(etree.tostring(els[0], encoding='unicode'))


PREDS = {'': '', 'none': '[not(@type)]', 'not-x': '[not(@type="x")]'}


def path_text(path, style, root):
    out = ''
    for k, st in enumerate(path):
        if k == 0:
            out += {'c': ['', './'][style % 2], 'd': ['.//', './/', '//'][style % 3 if root and st['name'] != '*' else 0]}[st['ax']]
        else:
            out += {'c': '/', 'd': '//'}[st['ax']]
        out += st['name'] + PREDS.get(st['pred'], '[@type="%s"]' % st['pred'])
    return out


def alt_text(alt, style, root=False):
    return (' | ' if style % 4 else '|').join(path_text(p, style, root) for p in alt)


def sel_text(sel, style, root=False):
    lines = [alt_text(a, style, root) for a in sel]
    return lines[0] if len(lines) == 1 and style % 2 else '\n' + '\n'.join('  ' + x for x in lines)


def source_json(src, style):
    return {'value': ''.join(src['val'])} if src['isV'] else {'xpath': alt_text(src['alt'], style)}


REGEX = r'(\w+)'
EXTRACT = r'\b(\d+)\b'


def flag(options, key, value, style):
    if value:
        options.append((key, 'true'))
    elif style % 3 == 0:
        options.append((key, 'false'))


def field_options(f):
    n, style = f['name'], f['style']
    out = [(n, sel_text(f['sel'], style, True))]
    if f['ignore']:
        out.append((n + '.ignore', sel_text(f['ignore'], style)))
    if f['children']:
        out.append((n + '.children', './/*' if f['children'] == WILD else sel_text(f['children'], style)))
    if f['concat']:
        out.append((n + '.children.concat', json.dumps(
            [[source_json(s, style) for s in srcs] for srcs in f['concat']])))
    if f['range']:
        out.append((n + '.children.range', json.dumps([
            dict([('min', source_json(g['min'], style)), ('max', source_json(g['max'], style))]
                 + ([('standalone', True)] if g['alone'] else [])) for g in f['range']])))
    flag(out, n + '.unmatched-parent-text', f['unmatched'], style)
    flag(out, n + '.match-multiple', f['mm'], style)
    flag(out, n + '.bonding', f['bond'], style)
    flag(out, n + '.require-next', f['next'], style)
    if f['prio'] or style % 5 == 0:
        out.append((n + '.priority', str(f['prio'])))
    if f['raw']:
        out.append((n + '.use-raw-text', f['raw']))
    if f['regex']:
        out.append((n + '.regex', REGEX))
    if f['extract']:
        out.append((n + '.extract-regex', EXTRACT))
    for s in f['subs']:
        out.append((n + '.sub.' + s['name'], alt_text(s['alt'], style)))
        if s['extract']:
            out.append((n + '.sub.' + s['name'] + '.extract-regex', EXTRACT))
    return out


OVER = {'prio': '.priority', 'mm': '.match-multiple', 'bond': '.bonding', 'next': '.require-next',
        'unmatched': '.unmatched-parent-text', 'regex': '.regex', 'sel': ''}


def over_value(o):
    if o['opt'] == 'prio':
        return str(o['int'])
    if o['opt'] == 'regex':
        return REGEX
    if o['opt'] == 'sel':
        return sel_text(o['sel'], 1)
    return 'true' if o['flag'] else 'false'


def chars(value):
    return [symbols(v) for v in (value if isinstance(value, list) else [value])]


def target_run(case):
    from lxml import etree
    from sciencebeam_trainer_grobid_tools import auto_annotate_utils as u
    from sciencebeam_trainer_grobid_tools.annotation import target_annotation as m
    import tempfile
    root = build_tree(case['tree'])
    before = etree.tostring(root)
    options = [o for f in case['mapping'] for o in field_options(f)]
    over = {o['field'] + OVER[o['opt']]: over_value(o) for o in case['over']}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'm.conf')
        with open(path, 'w') as fp:
            fp.write('[other]\nzz = ./zz\n' if case['otherFirst'] else '')
            fp.write('[root]\n' + ''.join('%s = %s\n' % o for o in options))
        fields, subs = case['fields'], case['subs']
        mapping, names = u.get_xml_mapping_and_fields(
            path, set(fields) if fields or case['blank'] else None,
            sub_fields=set(subs) if subs or case['blank'] else None,
            xml_mapping_overrides=over or (None if case['blank'] else {}))
    anns = m.xml_root_to_target_annotations(root, mapping)
    got = [{'name': a.name, 'vals': chars(a.value), 'mm': bool(a.match_multiple), 'bond': bool(a.bonding),
            'next': bool(a.require_next),
            'subs': [{'name': s.name, 'vals': chars(s.value)} for s in a.sub_annotations or []]}
           for a in anns]
    names = set(names) - ({'zz'} if case['otherFirst'] and not fields else set())
    return {'tree': case['tree'], 'mapping': case['mapping'], 'fields': fields, 'subs': subs,
            'over': case['over'], 'got': got, 'names': sorted(names),
            'same': etree.tostring(root) == before}


def show(bad, rec):
    from lxml import etree
    print(sorted(bad), etree.tostring(build_tree(rec['tree'])).decode())
    for f in rec['mapping']:
        print('  ', field_options(f))
    print('  ', {k: rec.get(k) for k in ('fields', 'subs', 'names')}, rec.get('over'))
    for a in rec.get('got', []):
        print('   ->', a['name'], [''.join(v) for v in a['vals']],
              [(s['name'], [''.join(v) for v in s['vals']]) for s in a['subs']])


WORDS = ['ab', 'cd', 'x', 'word', '12', '7', '340', 'e5', 'two words', 'a, b', 'end.', '(in', '12 34', '5 km',
         '\u03b2', 'caf\u00e9', '\u00e9cole', 'n_', '_1', '7\u03b2', '12_']
GAPS = ['', '', ' ', '\n', '\n  ', '\t ', '  ', ', ', '-']


def rand_text(rng, rate=.6):
    if rng.random() > rate:
        return list(rng.choice(['', '', ' ', '\n  ']))
    return symbols(rng.choice(GAPS) + rng.choice(WORDS)
                + ''.join(rng.choice([' ', '\n', ', ', '  ']) + rng.choice(WORDS)
                          for _ in range(rng.choice([0, 0, 1, 2]))) + rng.choice(GAPS))


def rand_tree(rng):
    n = rng.choice([2, 3, 5, 8, 12]) if rng.random() < .96 else 24
    loose = rng.choice([0, .3, .8])      # text between the elements
    par = [0] + [0] * (n - 1)
    kids = {0: []}
    for k in range(1, n):
        p = rng.choice([max(0, k - 1), max(0, k - 1), rng.randrange(k)])
        par[k] = p
        kids.setdefault(p, []).append(k)
    nodes = []

    def put(k, parent):
        me = len(nodes) + 1
        leaf = not kids.get(k)
        nodes.append({
            'tag': 'root' if k == 0 else rng.choice(TAGS), 'par': parent,
            'typ': rng.choice(['', '', 'x', 'y']) if k else '',
            'com': False, 'text': rand_text(rng, .9 if leaf else loose), 'tail': []})
        for c in kids.get(k, []):
            first = len(nodes)
            put(c, me)
            nodes[first]['tail'] = rand_text(rng, loose)
            if rng.random() < .08:
                nodes.append({'tag': rng.choice('!?'), 'par': me, 'typ': '', 'com': True,
                              'text': list(' note '), 'tail': list(' ') + rand_text(rng, loose)})
    put(0, 0)
    return nodes


def rand_step(rng):
    return {'ax': rng.choice('ccd'), 'name': rng.choice(TAGS + ['*']),
            'pred': rng.choice(['', '', '', '', 'none', 'x', 'not-x'])}


def rand_alt(rng, most=2):
    return [[rand_step(rng) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.randint(1, most))]


def rand_source(rng, value=True):
    if value and rng.random() < .3:
        return {'isV': True, 'alt': [], 'val': list(rng.choice([' ', '-', ' no ']))}
    return {'isV': False, 'alt': rand_alt(rng), 'val': []}


def rand_field(rng, name):
    children = rng.choice([[], [], WILD, [rand_alt(rng) for _ in range(rng.randint(1, 2))]])
    rich = bool(children)
    return {
        'name': name, 'style': rng.randrange(60),
        'sel': [rand_alt(rng) for _ in range(rng.choice([1, 1, 2]))],
        'ignore': [rand_alt(rng)] if rng.random() < .4 else [], 'children': children,
        'concat': [[rand_source(rng) for _ in range(rng.randint(1, 3))]
                   for _ in range(rng.choice([0, 0, 1, 2]))] if rich else [],
        'range': [{'min': rand_source(rng, False), 'max': rand_source(rng, False), 'alone': rng.random() < .5}
                  ] if rich and rng.random() < .3 else [],
        'unmatched': rich and rng.random() < .4, 'mm': rng.random() < .3, 'bond': rng.random() < .3,
        'next': rng.random() < .3, 'prio': rng.choice([0, 0, 0, 1, 2, -1]),
        'raw': rng.choice(['', '', '', 'true', 'false']), 'regex': rng.choice(['', '', '', 'word']),
        'extract': rng.choice(['', '', '', 'num']),
        'subs': [{'name': name + '-' + s, 'alt': rand_alt(rng), 'extract': rng.choice(['', '', 'num'])}
                 for s in rng.sample(['p', 'q', 'r'], rng.choice([0, 1, 2]))]
    }


def pages(rng):
    """an article with page numbers, and the field for them"""
    def leaf(tag, text):
        return {'tag': tag, 'par': 2, 'typ': '', 'com': False, 'text': symbols(text), 'tail': rand_text(rng, .1)}
    lo = rng.choice([0, 3, 9, 98, 120])
    kids = [leaf('c', rng.choice([' %d', '%d', '%d\n', 'e%d']) % lo),
            leaf('d', '%d' % (lo + rng.choice([-1, 0, 1, 2, 5])))]
    kids += [leaf(rng.choice(TAGS), rng.choice(WORDS)) for _ in range(rng.choice([0, 1]))]
    rng.shuffle(kids)
    tree = [{'tag': 'root', 'par': 0, 'typ': '', 'com': False, 'text': [], 'tail': []},
            {'tag': 'a', 'par': 1, 'typ': '', 'com': False, 'text': rand_text(rng, .1), 'tail': []}] + kids

    def one(tag):
        return [[{'ax': rng.choice('cd'), 'name': tag, 'pred': ''}]]
    f = rand_field(rng, 'pg')
    f.update(sel=[one('a')], children=[one('c') + one('d')], concat=[], regex='', extract='', range=[
        {'min': {'isV': False, 'alt': one('c'), 'val': []}, 'max': {'isV': False, 'alt': one('d'), 'val': []},
         'alone': rng.random() < .7}])
    return tree, f


def rand_case(rng, narrow=False):
    tree = rand_tree(rng)
    names = ['f', 'g', 'ff'][:rng.randint(1, 3)]
    mapping = [rand_field(rng, n) for n in names]
    if rng.random() < .15:
        tree, f = pages(rng)
        mapping = [f] + mapping[:1]
    names = [f['name'] for f in mapping]
    case = {'tree': tree, 'mapping': mapping, 'fields': [], 'subs': [], 'over': [],
            'blank': rng.random() < .5, 'otherFirst': rng.random() < .3}
    if narrow:
        subs = [s['name'] for f in mapping for s in f['subs']]
        case['fields'] = rng.choice([[], [n for n in names + ['missing'] if rng.random() < .5]])
        case['subs'] = rng.choice([[], [n for n in subs + ['f-z'] if rng.random() < .5]])
        for n in names:
            if rng.random() < .4:
                opt = rng.choice(sorted(OVER))
                case['over'].append({
                    'field': n, 'opt': opt, 'int': rng.choice([-1, 0, 3]), 'flag': rng.random() < .5,
                    'sel': [rand_alt(rng, 1)]})
    return case


def narrow_case(rng):
    return rand_case(rng, True)


def cases(rng, tier):
    return [rand_case(rng) for _ in range(4000 if tier == 'quick' else 60000)]


def narrow_cases(rng, tier):
    return [rand_case(rng, True) for _ in range(3000 if tier == 'quick' else 40000)]


PROPS = [
    Prop('T01', [Source(
        'random-articles', 'props.target:target_run', 'TraceTarget', cases=cases, chunk=400,
        rule='random trees of up to 12 elements (text, comments, attributes) and mappings of up to 3 fields '
             'using every option of the mapping')]),
    Prop('T02', [Source(
        'random-selections', 'props.target:target_run', 'TraceTarget', cases=narrow_cases, chunk=400,
        rule='the same, with selected fields, selected sub fields and overrides of the configuration file')]),
]
