"""Harness side of the TEI abstraction used by the specification (no code under test in here)."""
import os
import tempfile
import xml.sax.saxutils as su

TEI_NS = 'http://www.tei-c.org/ns/1.0'


# ---------------------------------------------------------------- characters

def char_class(c):
    import regex
    if not c.strip():
        return 's'
    if not regex.match(r'\w', c):
        return 'p'
    if c.isupper():
        return 'u'
    if c.islower():
        return 'l'
    return 'w'


def text_item(x):
    return {'k': 't', 'c': list(x), 'cl': [char_class(c) for c in x]}


def expand_items(items):
    """case items ({'k':'t','x':..}) to specification items (characters and their classes)"""
    out = []
    for it in items:
        if it['k'] == 't':
            if it['x']:
                out.append(text_item(it['x']))
        elif it['k'] == 'e':
            out.append({'k': 'e', 'n': it['n'], 'ch': expand_items(it['ch'])})
        elif it['k'] == 'lb':
            out.append({'k': 'lb'})
        # a comment is nothing, but the text around it is read in two pieces
    return out


# ---------------------------------------------------------------- XML text

def parse_expr(expr):
    if '[' not in expr:
        return expr, {}
    name, rest = expr[:-1].split('[', 1)
    key, value = rest.lstrip('@').split('=', 1)
    return name, {key: value[1:-1]}


def start_tag(name, attrs, close=False):
    return '<%s%s%s>' % (
        name, ''.join(' %s=%s' % (k, su.quoteattr(v)) for k, v in attrs.items()),
        '/' if close else ''
    )


def items_to_xml(items):
    out = []
    for it in items:
        if it['k'] == 't':
            out.append(su.escape(it['x']))
        elif it['k'] == 'lb':
            out.append('<lb/>')
        elif it['k'] == 'c':
            out.append(it['x'])
        else:
            name, attrs = parse_expr(it['n'])
            out.append(start_tag(name, attrs) + items_to_xml(it['ch']) + '</%s>' % name)
    return ''.join(out)


def wrap_document(items, container, tail='', ns=False, attrs=None, before='', after='', declare=False):
    """A whole TEI document around the annotated part (container: path of local names)."""
    steps = container.split('/')
    root_attrs = {'xmlns': TEI_NS} if ns else {}
    out = start_tag('tei', root_attrs)
    if steps[0] != 'teiHeader':
        out += '<teiHeader><fileDesc xml:id="_h1">head <b n="1">er</b></fileDesc></teiHeader>'
    for step in steps[:-1]:
        out += start_tag(step, {}) + before
    out += start_tag(steps[-1], attrs or {}) + items_to_xml(items) + '</%s>' % steps[-1]
    out += su.escape(tail)
    for step in reversed(steps[:-1]):
        out += after + '</%s>' % step
    if len(steps) == 1:
        out += after
    out += '</tei>'
    if declare:
        out = '<?xml version="1.0" encoding="UTF-8"?>\n' + out
    return out


# ---------------------------------------------------------------- reading output back

def local(tag):
    return tag.split('}', 1)[1] if tag.startswith('{') else tag


def expr_of(el):
    expr = local(el.tag)
    if el.attrib:
        expr += ''.join('[@%s="%s"]' % (local(k), v) for k, v in el.attrib.items())
    return expr


def text_events(x, out):
    run, kind = '', None
    for c in x or '':
        k = 't' if c.strip() else 's'
        if k != kind and run:
            out.append([kind, run])
            run = ''
        kind = k
        run += c
    if run:
        out.append([kind, run])


def content_events(el):
    """events of the content of an element"""
    out = []
    text_events(el.text, out)
    for child in el:
        if not isinstance(child.tag, str):
            pass     # comments are not content
        elif local(child.tag) == 'lb':
            out.append(['lb'])
            out.extend(content_events(child))
        else:
            out.append(['o', expr_of(child)])
            out.extend(content_events(child))
            out.append(['c'])
        text_events(child.tail, out)
    # adjacent texts of one kind are one text
    merged = []
    for e in out:
        if merged and e[0] in ('t', 's') and merged[-1][0] == e[0]:
            merged[-1] = [e[0], merged[-1][1] + e[1]]
        else:
            merged.append(e)
    return merged


def element_items(el):
    """content of an element as case items"""
    out = []

    def add(x):
        if x:
            if out and out[-1]['k'] == 't':
                out[-1]['x'] += x
            else:
                out.append({'k': 't', 'x': x})
    add(el.text)
    for child in el:
        if not isinstance(child.tag, str):
            out.append({'k': 'c', 'x': ''})
        elif local(child.tag) == 'lb':
            out.append({'k': 'lb'})
        else:
            out.append({'k': 'e', 'n': expr_of(child), 'ch': element_items(child)})
        add(child.tail)
    return out


def find_path(root, container):
    """first element at a path of local names below the root"""
    els = [root]
    for step in container.split('/'):
        els = [c for e in els for c in e if isinstance(c.tag, str) and local(c.tag) == step]
    return els


def outer_text(root, container):
    """the document with the annotated part (and the text after it) taken out"""
    from lxml import etree
    import copy
    root = copy.deepcopy(root)
    el = find_path(root, container)[0]
    for child in list(el):
        el.remove(child)
    el.text = None
    el.tail = None
    return etree.tostring(root, method='c14n').decode()


# ---------------------------------------------------------------- documents of the code under test

def split_tag(tag):
    if not tag:
        return ['', '']
    if tag.startswith('b-') or tag.startswith('i-'):
        return [tag[0], tag[2:]]
    return ['', tag]


def join_tag(tag):
    if not tag[1]:
        return None
    return ('%s-' % tag[0] if tag[0] else '') + tag[1]


def strip_ns(v):
    import re
    return re.sub(r'\{[^}]*\}', '', v)


def dump_doc(doc):
    out = []
    for page in doc.get_pages():
        for line in doc.get_lines_of_page(page):
            toks = []
            for t in doc.get_all_tokens_of_line(line):
                w = doc.get_whitespace(t)
                toks.append({
                    'x': t.text, 'sp': not t.text.strip(), 'w': '~' if w is None else w,
                    't': split_tag(strip_ns(doc.get_tag(t) or '')),
                    's': split_tag(strip_ns(doc.get_tag(t, level=2) or '')),
                    'pt': split_tag(strip_ns(doc.get_preserved_tag(t) or '')),
                    'ps': split_tag(strip_ns(doc.get_preserved_tag(t, level=2) or ''))
                })
            out.append(toks)
    return out


def dump_tags(doc):
    """just the tags of the non-blank tokens, line by line"""
    return [
        [split_tag(strip_ns(doc.get_tag(t) or '')) for t in doc.get_tokens_of_line(line)]
        for page in doc.get_pages() for line in doc.get_lines_of_page(page)
    ]


def paths_for(mapping, docs):
    """tag value -> sequence of element expressions, for every tag value in use"""
    table = {k: strip_ns(v) for k, v in mapping}
    out = {'': table.get('', '').split('/') if table.get('') else []}
    values = set(table)
    for doc in docs:
        for line in doc:
            for t in line:
                for f in ('t', 's', 'pt', 'ps'):
                    values.add(t[f][1])
    for v in values:
        if v:
            out[v] = table.get(v, v).split('/')
    return out


def scratch_dir():
    return tempfile.TemporaryDirectory(prefix='case-', dir=os.environ.get('TMPDIR'))


def tokens_in(el, expr):
    """[character, is it inside an element of that kind] of all non-blank characters"""
    out = []

    def walk(node, inside):
        inside = inside or expr_of(node) == expr
        out.extend((c, inside) for c in node.text or '' if c.strip())
        for child in node:
            walk(child, inside)
            out.extend((c, inside) for c in child.tail or '' if c.strip())
    walk(el, False)
    return out
