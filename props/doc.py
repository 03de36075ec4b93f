"""Reading, changing and writing training documents: D01-D05."""
import os

from vlib import tei
from vlib.registry import Prop, Source
from props.e2e import CLI

WORDS = [
    'alpha', 'Beta', 'gamma', 'GAMMA', 'McDonald', 'eLife', 'x', 'Y', '12', '3', 'a1B2', 'don',
    'caf\u00e9', '\u00c9cole', 'na\u00efve', '\u4e2d\u6587', '\u03b1\u03b2', 'stra\u00dfe', 'e\u0301a', '_', 'foo_Bar',
    '\u01c5x', 'iPhone', 'pH', '\U0001d4b3y', 'A\u00df', '\u0130i'
]
PUNCT = ['.', ',', '-', '\u2013', '(', ')', '&', '<', '>', '"', "'", '\u2019', ';', '/', '\u200b', '\u00b7', '[1]', '%']
SPACES = [' ', ' ', ' ', '  ', '\n', '\t', ' \n ', '\u00a0', '\u2009', '\u3000']


def rand_text(rng, n=4):
    out = []
    for _ in range(rng.randint(1, n)):
        r = rng.random()
        if r < .5:
            out.append(rng.choice(WORDS))
        elif r < .65:
            out.append(rng.choice(PUNCT))
        else:
            out.append(rng.choice(SPACES))
    return ''.join(out)


MAPPINGS = {
    'default': [['', 'note[@type="other"]'], ['title', 'docTitle/titlePart'],
                ['abstract', 'div[@type="abstract"]']],
    'two': [['', 'note[@type="other"]'], ['A', 'p'], ['B', 'd/q'], ['S', 'p/s'], ['T', 'p/t'],
            ['R', 'd/q/r']],
    'nodefault': [['A', 'p'], ['B', 'd/q'], ['S', 'p/s'], ['T', 'p/t[@type="x"]']],
    'deep': [['', 'o'], ['A', 'p'], ['S', 'p/s'], ['U', 'p/s/u'], ['V', 'p/s/v'], ['B', 'q']],
    'long': [['', 'o'], ['A', 'd/e/f/g'], ['S', 'd/e/f/g/s'], ['B', 'd/e/f/h'], ['C', 'd/e'], ['T', 'd/e/f/g/t/u']],
    'dup': [['', 'o'], ['A', 'p'], ['A2', 'p'], ['B', 'q[@type="b"]'], ['S', 'p/s']],
}


COMMENTS = ['<!-- c -->', '<!-- A b <p> -->', '<?p x="1"?>', '<!---->']


def rand_items(rng, depth, names, n, lb=.25, most=3, comments=0):
    items = []
    prev_text = False
    for _ in range(rng.randint(0 if depth else 1, n)):
        r = rng.random()
        if rng.random() < comments:
            items.append({'k': 'c', 'x': rng.choice(COMMENTS)})
            prev_text = False
        if r < .45 and not prev_text:
            items.append({'k': 't', 'x': rand_text(rng)})
            prev_text = True
        elif r < .45 + lb:
            items.append({'k': 'lb'})
            prev_text = False
        elif depth < most:
            items.append({
                'k': 'e', 'n': rng.choice(names[min(depth, len(names) - 1)]),
                'ch': rand_items(rng, depth + 1, names, max(1, n - 1), lb, most, comments)
            })
            prev_text = False
    return items


ELEMENT_NAMES = {
    'default': [['docTitle', 'div[@type="abstract"]', 'note[@type="other"]', 'byline', 'p'],
                ['titlePart', 'affiliation', 'hi[@rend="i"]'], ['x', 'y']],
    'two': [['p', 'd', 'note[@type="other"]', 'z', 'q'], ['s', 't', 'q', 'z'], ['r', 'y', 's'], ['y']],
    'nodefault': [['p', 'd', 'z', 'note[@type="other"]'], ['s', 't[@type="x"]', 'q', 'z'], ['y'], ['y']],
    'deep': [['p', 'o', 'q', 'z'], ['s', 't'], ['u', 'v', 'y'], ['y']],
    'long': [['d', 'o', 'z'], ['e', 'd'], ['f', 'e'], ['g', 'h', 'f'], ['s', 't', 'y'], ['u', 'y']],
    'dup': [['p', 'o', 'q[@type="b"]', 'q'], ['s', 'z'], ['y'], ['y']],
}

CONTAINERS = ['text/front', 'text', 'text/back/listBibl', 'teiHeader/fileDesc/sourceDesc/author']


def values_of(items, prefix=''):
    out = []
    for it in items:
        if it['k'] == 'e':
            path = (prefix + '/' if prefix else '') + it['n']
            out.append(path)
            out.extend(values_of(it['ch'], path))
    return out


def count_tokens_bound(items):
    return sum(
        1 if it['k'] in ('lb', 'c') else len(it['x']) if it['k'] == 't' else count_tokens_bound(it['ch'])
        for it in items
    )


def rand_case(rng, big=False):
    mname = rng.choice(sorted(MAPPINGS))
    mapping = MAPPINGS[mname]
    items = rand_items(rng, 0, ELEMENT_NAMES[mname], rng.choice([2, 3, 4, 6] if not big else [6, 9]),
                       lb=rng.choice([.1, .25, .4]), most=6 if mname == 'long' else 3 if not big else rng.choice([3, 5]),
                       comments=rng.choice([0, 0, 0, .15]))
    rev = {}
    for k, v in mapping:
        rev[v] = k
    values = sorted({rev.get(v, v) for v in values_of(items)} | {k for k, _ in mapping} - {''})
    values = [v for v in values if v]

    def some(p):
        return sorted(v for v in values if rng.random() < p)
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 4, 8])):
        v = rng.choice([k for k, _ in mapping if k] + ['new'])
        tag = rng.choice([['b', v], ['i', v], ['b', v], ['i', v], ['', v], ['', '']])
        ops.append([rng.choice(
            ['set', 'set', 'setsub', 'only', 'subonly', 'run', 'run'] if tag[1] else ['only', 'subonly']),
                    rng.randint(0, 5), rng.randint(0, 9), tag])
    return {
        'items': items, 'mapping': mapping, 'mname': mname,
        'container': rng.choice(CONTAINERS), 'ns': rng.random() < .35,
        'attrs': rng.choice([{}, {'xml:lang': 'en'}, {'n': '1', 'rend': 'a & b'}]),
        'tail': rng.choice(['', '', '\n', ' ', '\n\t']), 'before': rng.choice(['', '\n ', 'pre ']),
        'after': rng.choice(['', '\n', '<body>Out side</body> x', '<p n="2">z</p>']),
        'declare': rng.random() < .3,
        'opt': {
            'preserve': rng.random() < .75, 'fields': some(.3) if rng.random() < .6 else [],
            'always': some(.3) if rng.random() < .3 else [],
            'preserveSub': rng.random() < .6,
            'noPreserveSub': some(.3) if rng.random() < .4 else []
        },
        'ops': ops
    }


def random_cases(rng, tier):
    n = 2500 if tier == 'quick' else 30000
    return [rand_case(rng, big=rng.random() < .05) for _ in range(n)]


def dense_case(rng):
    """a few tokens and blanks, nearly all of them tagged"""
    case = rand_case(rng)
    mname = rng.choice(['two', 'nodefault', 'dup', 'deep'])
    names = [w for w in 'abcdefg'[:rng.randint(2, 7)]]
    items = []
    for k, w in enumerate(names):
        if k and rng.random() < .35:
            items.append({'k': 'lb'})
            w = rng.choice(['', ' ']) + w
        elif k:
            w = rng.choice([' ', ' ', '  ', ',']) + w
        if items and items[-1]['k'] == 't':
            items[-1]['x'] += w
        else:
            items.append({'k': 't', 'x': w})
    values = rng.choice([['A'], ['A', 'B'], ['A', 'B', 'A'], [k for k, _ in MAPPINGS[mname] if k]])
    subs = rng.choice([[], ['S'], ['S', 'T'], ['S', 'R', 'U']])
    ops = []
    p, b = rng.choice([.6, .8, 1]), rng.choice([.2, .5])
    if rng.random() < .5:     # some of it is there already
        cut = rng.randint(0, len(items))
        items = items[:cut] + [{'k': 'e', 'n': rng.choice(['p', 'q', 'd', 'o']), 'ch': items[cut:]}]
        items = [it for it in items if it['k'] != 'e' or it['ch']]
    for li in range(4):
        for k in range(8):
            if rng.random() < p:
                ops.append([rng.choice(['only', 'only', 'set']), li, k,
                            ['b' if rng.random() < b else 'i', rng.choice(values)]])
            if subs and rng.random() < p / 2:
                ops.append(['subonly', li, k, ['b' if rng.random() < b else 'i', rng.choice(subs)]])
    case.update(items=items, mapping=MAPPINGS[mname], mname=mname, ops=ops)
    case['opt'].update(fields=[], always=[], noPreserveSub=[])
    return case


def dense_cases(rng, tier):
    return [dense_case(rng) for _ in range(2500 if tier == 'quick' else 30000)]


# ---------------------------------------------------------------- driver (runs the real code)

def _container_path(case):
    return '/'.join(('tei:' + p) if case['ns'] else p for p in case['container'].split('/'))


def _ns_path(path, ns):
    return '/'.join('{%s}%s' % (tei.TEI_NS, p) for p in path.split('/')) if ns else path


class ScriptedAnnotator:
    """Stands in for the annotators: applies a script of tag changes through the document API."""
    def __init__(self, ops):
        self.ops = ops
        self.entry = None
        self.after = None
        self.applied = []

    def annotate(self, doc):
        self.entry = tei.dump_doc(doc)
        lines = [
            line for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        ]
        for kind, l, k, tag in self.ops:
            if not lines:
                break
            li = l % len(lines)
            toks = doc.get_all_tokens_of_line(lines[li])
            if not toks:
                continue
            ki = k % len(toks)
            full = tei.join_tag(tag)
            if kind == 'set':
                doc.set_tag(toks[ki], full)
            elif kind == 'setsub':
                doc.set_sub_tag(toks[ki], full)
            elif kind == 'only':
                doc.set_tag_only(toks[ki], full)
            elif kind == 'subonly':
                doc.set_sub_tag_only(toks[ki], full)
            else:   # an annotation over the rest of the line
                for j in range(ki, len(toks)):
                    t = [tag[0] if j == ki else 'i', tag[1]] if tag[1] else tag
                    doc.set_tag(toks[j], tei.join_tag(t))
                    self.applied.append(['set', li + 1, j + 1, t])
                continue
            self.applied.append([kind, li + 1, ki + 1, tag])
        self.after = tei.dump_doc(doc)
        return doc


def annotate_file(source, target, annotator, case, mapping, preserve, fields, always,
                  preserve_sub, no_preserve_sub):
    from sciencebeam_trainer_grobid_tools.annotation.annotator import annotate_structured_document
    annotate_structured_document(
        source, target, annotator=annotator, preserve_tags=preserve, fields=set(fields),
        is_structured_document_passing_checks=lambda *_: True,
        always_preserve_fields=always or None,
        preserve_sub_tags=preserve_sub,
        no_preserve_sub_fields=set(no_preserve_sub) or None,
        container_node_path=_container_path(case),
        tag_to_tei_path_mapping=mapping,
        namespaces={'tei': tei.TEI_NS}
    )


def doc_run(case):
    from lxml import etree
    mapping = {k: _ns_path(v, case['ns']) for k, v in case['mapping']}
    with tei.scratch_dir() as tmp:
        source = os.path.join(tmp, 'a.tei.xml')
        xml = tei.wrap_document(
            case['items'], case['container'], tail=case['tail'], ns=case['ns'],
            attrs=case['attrs'], before=case['before'], after=case['after'],
            declare=case['declare']
        )
        with open(source, 'w', encoding='utf-8') as f:
            f.write(xml)
        out1, out2 = os.path.join(tmp, 'out1.xml'), os.path.join(tmp, 'out2.xml')
        opt = case['opt']
        ns_values = (lambda vs: [_ns_value(v, case) for v in vs])
        ann = ScriptedAnnotator(case['ops'])
        annotate_file(
            source, out1, ann, case, mapping, opt['preserve'], ns_values(opt['fields']),
            ns_values(opt['always']), opt['preserveSub'], ns_values(opt['noPreserveSub'])
        )
        annotate_file(out1, out2, ScriptedAnnotator([]), case, mapping, True, [], [], True, [])
        root0 = etree.fromstring(xml.encode('utf-8'))
        root1 = etree.parse(out1).getroot()
        root2 = etree.parse(out2).getroot()
    cont0 = tei.find_path(root0, case['container'])[0]
    conts1 = tei.find_path(root1, case['container'])
    conts2 = tei.find_path(root2, case['container'])
    src_items = tei.expand_items(tei.element_items(cont0))
    if cont0.tail:
        src_items.append(tei.text_item(cont0.tail))

    def whole(cont):
        ev = tei.content_events(cont)
        tail = []
        tei.text_events(cont.tail, tail)
        for e in tail:
            if ev and ev[-1][0] == e[0]:
                ev[-1] = [e[0], ev[-1][1] + e[1]]
            else:
                ev.append(e)
        return ev
    return {
        'src': src_items,
        'srcText': root0.xpath('string()'), 'outText': root1.xpath('string()'),
        'srcEv': whole(cont0),
        'mapping': [[k, v] for k, v in case['mapping']],
        'flat': case['mname'] != 'deep',
        'opt': opt, 'ops': ann.applied, 'entry': ann.entry, 'after': ann.after,
        'out': whole(conts1[0]), 'out2': whole(conts2[0]),
        'paths': tei.paths_for(case['mapping'], [ann.entry, ann.after]),
        'outer0': tei.outer_text(root0, case['container']),
        'outer1': tei.outer_text(root1, case['container']),
    }


def _ns_value(v, case):
    """a tag value that is itself a path of elements carries their namespaces in the real code"""
    if not case['ns'] or v in {k for k, _ in case['mapping']}:
        return v
    return _ns_path(v, True)


RANDOM = Source(
    'random-documents', 'props.doc:doc_run', 'TraceDoc', cases=random_cases, chunk=320,
    rule='random training documents (nested mark-up, line breaks, Unicode text, namespaces, '
         'options) annotated by a random script of tag changes through the real load/annotate/save'
)

DENSE = Source(
    'dense-tags', 'props.doc:doc_run', 'TraceDoc', cases=dense_cases, chunk=625,
    rule='two to seven tokens on a few lines, nearly every token and blank tagged (begin, inside, '
         'sub tags), over existing mark-up or none'
)

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxTok = %d MaxLine = 2 WithDefault = %s Preserved = %s
INVARIANTS TextConserved LinesConserved ElementsRight BeginsRight ContinuesRight Balanced
INVARIANTS ResaveText ResaveLines Idempotent
CHECK_DEADLOCK FALSE
'''


def mc(default, preserved):
    return ('MCTeiDoc', lambda tier: MC_CFG % (3 if tier == 'quick' else 4, default, preserved))


PROPS = [
    Prop('D01', [RANDOM.with_clauses(['text', 'outer', 'alltext']), DENSE.with_clauses(['text', 'alltext']),
                 CLI.with_clauses(['saved', 'text', 'outer', 'alltext', 'untouched'])], models=[mc('TRUE', 'FALSE')]),
    Prop('D02', [RANDOM.with_clauses(['lines']), DENSE.with_clauses(['lines']), CLI.with_clauses(['saved', 'lines'])], models=[mc('TRUE', 'FALSE')]),
    Prop('D03', [RANDOM.with_clauses(['elements', 'begins', 'continues', 'written', 'ops']),
                 DENSE.with_clauses(['elements', 'begins', 'continues', 'written', 'ops'])],
         models=[mc('TRUE', 'FALSE'), mc('FALSE', 'TRUE')]),
    Prop('D04', [RANDOM.with_clauses(['loaded', 'stable', 'reread']),
                 DENSE.with_clauses(['loaded', 'stable', 'reread'])],
         models=[mc('FALSE', 'FALSE'), mc('TRUE', 'TRUE')]),
    Prop('D05', [RANDOM.with_clauses(['prepared'])], models=[]),
]
