"""Repair of damaged training documents: X01."""
import os
import re
import xml.sax.saxutils as su

from vlib import tei
from vlib.registry import Prop, Source


def render(case):
    """the document text: case tokens are [kind, name or text, attributes/style]"""
    out = [case['head']]
    for tok in case['toks']:
        kind, v = tok[0], tok[1]
        extra = tok[2] if len(tok) > 2 else ''
        if kind == 'o':
            out.append('<%s%s>' % (v, ''.join(' %s=%s' % (k, su.quoteattr(a)) for k, a in extra or [])))
        elif kind == 'e':
            out.append('<%s%s/>' % (v, ''.join(' %s=%s' % (k, su.quoteattr(a)) for k, a in extra or [])))
        elif kind == 'c':
            out.append('</%s>' % v)
        elif extra == 'cdata':
            out.append('<![CDATA[%s]]>' % v)
        elif extra == 'ref':
            out.append(''.join('&#%d;' % ord(c) for c in v))
        elif extra == 'raw':    # damaged text: unescaped ampersand
            out.append(v)
        else:
            out.append(su.escape(v))
    return ''.join(out)


def events(text):
    from lxml import etree
    root = etree.fromstring(text.encode('utf-8'))
    ev, attrs = [], []

    def walk(el):
        name = tei.local(el.tag)
        ev.append(['o', name])
        attrs.append(sorted([tei.local(k), v] for k, v in el.attrib.items()))
        if el.text:
            ev.append(['t', el.text])
        for child in el:
            if isinstance(child.tag, str):
                walk(child)
            if child.tail:
                ev.append(['t', child.tail])
        ev.append(['c', name])
    walk(root)
    return ev, attrs


def repair_run(case):
    import sciencebeam_trainer_grobid_tools.utils.xml as m
    from lxml import etree
    text = render(case)
    with tei.scratch_dir() as tmp:
        path = os.path.join(tmp, 'a.tei.xml')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        with m.get_fixed_source_url(path) as fixed_path:
            with open(fixed_path, encoding='utf-8') as f:
                fixed = f.read()
            with m.get_fixed_source_url(fixed_path) as fixed_path2:
                with open(fixed_path2, encoding='utf-8') as f:
                    again = f.read() == fixed
        left = [n for n in os.listdir(tmp) if n != 'a.tei.xml']
        with open(path, encoding='utf-8') as f:
            untouched = f.read() == text
    assert untouched and not left
    ins, in_attrs = [], []
    for tok in case['toks']:
        if tok[0] in ('o', 'e'):
            ins.append(['o', tok[1]])
            in_attrs.append(sorted([re.sub('^.*:', '', k), v] for k, v in (tok[2] if len(tok) > 2 else [])))
            if tok[0] == 'e':
                ins.append(['c', tok[1]])
        else:
            ins.append([tok[0], tok[1]])
    rec = {'in': ins, 'inAttrs': in_attrs, 'same': fixed == text, 'again': again,
           'odd': any(len(t) > 2 and t[2] == 'raw' for t in case['toks'])}
    try:
        rec['out'], rec['outAttrs'] = events(fixed)
        rec['parsed'] = True
    except etree.XMLSyntaxError as e:
        rec.update(parsed=False, out=[], outAttrs=[], why=str(e))
    return rec


NAMES = ['text', 'p', 'figure', 'figDesc', 'listBibl', 'title', 'style', 'docTitle', 'head', 'ref',
         'note', 'hi', 'biblScope', 'label', 'script', 'formula']
TEXTS = ['abc', 'x < y', 'a & b', '"q"', "it's", 'caf\u00e9', ' ', '\n', 'A\u2013B', 'a > b', '1. Title', ']']
ATTRS = [[], [], [['type', 'a & b']], [['xml:lang', 'en']], [['targetEnd', '"q"'], ['n', '<1>']],
         [['rend', "it's"]], [['n', '']]]


def rand_repair(rng):
    toks = [['o', 'tei', rng.choice(ATTRS)]]
    stack = []
    damage = rng.choice([0, .1, .3, .5])
    for _ in range(rng.choice([3, 8, 15, 30])):
        r = rng.random()
        if r < .3:
            n = rng.choice(NAMES)
            toks.append(['o', n, rng.choice(ATTRS)])
            stack.append(n)
        elif r < .4:
            toks.append(['e', 'lb', []])
        elif r < .65 and stack:
            d = rng.random()
            if d < damage / 3:
                stack.pop()                                     # end tag missing
            elif d < 2 * damage / 3:
                toks.append(['c', rng.choice(NAMES)])           # some other end tag
                stack.pop()
            elif d < damage:
                toks.append(['c', rng.choice(stack)])
            else:
                toks.append(['c', stack.pop()])
        elif r < .65 and rng.random() < damage:
            toks.append(['c', rng.choice(NAMES)])
        else:
            t = rng.choice(TEXTS)
            toks.append(['t', t, rng.choice(
                ['', '', 'ref', 'cdata'] + (['raw'] if t == 'a & b' and damage else []))])
    if rng.random() >= damage:
        while stack:
            toks.append(['c', stack.pop()])
    if rng.random() < .8:
        toks.append(['c', 'tei'])
    return {'toks': toks, 'head': rng.choice(['', '', '<?xml version="1.0" encoding="UTF-8"?>\n',
                                              '<?xml version="1.0"?>'])}


def repair_cases(rng, tier):
    return [rand_repair(rng) for _ in range(2500 if tier == 'quick' else 30000)]


def adapt(docs, rng, tier):
    table = {'p': 'figDesc', 'q': 'title', 'r': 'Note', 'root': 'TEI'}
    cases = [{'head': '', 'toks': [[k, table.get(v, v)] for k, v in d]} for d in docs]
    return cases


def gen_cfg(tier):
    return 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n' % (
        4 if tier == 'quick' else 6)


def mc_cfg(tier):
    return 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n' \
        'INVARIANTS AlwaysWellFormed ContentKept ValidUnchanged Idempotent IsOneRoot\n' % (
            7 if tier == 'quick' else 9)


PROPS = [Prop('X01', [
    Source('all-small-damages', 'props.repair:repair_run', 'TraceRepair', gen=('GenRepair', gen_cfg),
           adapt=adapt, chunk=1500,
           rule='every sequence of start tags, end tags (matching or not) and texts up to a length '
                'inside a root element, enumerated by TLC'),
    Source('random-damages', 'props.repair:repair_run', 'TraceRepair', cases=repair_cases,
           chunk=700, rule='random documents with missing, wrong and additional end tags, '
                           'attributes, references, CDATA, XML declarations'),
], models=[('MCRepair', mc_cfg)])]
