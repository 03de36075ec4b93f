"""The command line tools on whole files (sources used by D01, D02)."""
import os

from vlib import cli, tei
from vlib.registry import Source


def whole(cont):
    ev = tei.content_events(cont)
    tail = []
    tei.text_events(cont.tail, tail)
    for e in tail:
        if ev and ev[-1][0] == e[0]:
            ev[-1] = [e[0], ev[-1][1] + e[1]]
        else:
            ev.append(e)
    return ev


def cli_run(case):
    from lxml import etree
    tool = case['tool']
    container = cli.TOOLS[tool][2]
    gz = case['layout']['gz']
    with tei.scratch_dir() as tmp:
        src, xml, out = (os.path.join(tmp, n) for n in ('src', 'xml', 'out'))
        name = cli.source_name(tool, 'doc1', gz)
        text = cli.document_xml(tool, case['article'], case['layout'], attrs=case['attrs'])
        cli.write_file(os.path.join(src, name), text, gz)
        cli.write_file(os.path.join(xml, 'doc1.xml'), cli.jats(case['article']))
        before = cli.read_file(os.path.join(src, name))
        error = cli.run_tool(tool, cli.argv_for(tool, src, xml, out, case['args']))
        path = os.path.join(out, name)
        rec = {
            'error': error, 'saved': os.path.exists(path),
            'sourceUntouched': cli.read_file(os.path.join(src, name)) == before
        }
        if error or not rec['saved']:
            return rec
        data = cli.read_file(path)
        out2 = os.path.join(tmp, 'out2')
        cli.run_tool(tool, cli.argv_for(tool, src, xml, out2, case['args']))
        rec['again'] = cli.read_file(os.path.join(out2, name)) == data
        root0 = etree.fromstring(text.encode('utf-8'))
        root1 = etree.fromstring(data)
    cont0 = tei.find_path(root0, container)[0]
    cont1 = tei.find_path(root1, container)[0]
    rec.update({
        'src': whole(cont0), 'out': whole(cont1), 'srcText': ''.join(root0.itertext()),
        'outText': ''.join(root1.itertext()), 'outer0': tei.outer_text(root0, container),
        'outer1': tei.outer_text(root1, container), 'stable': False, 'out2': []
    })
    return rec


def rand_cli_case(rng, tool):
    layout = cli.rand_layout(rng)
    layout['gz'] = rng.random() < .1
    return {
        'tool': tool, 'article': cli.rand_article(rng), 'layout': layout,
        'args': rng.choice(cli.TOOL_ARGS[tool]),
        'attrs': rng.choice([{}, {'xml:lang': 'en'}])
    }


def cli_cases(rng, tier):
    n = 20 if tier == 'quick' else 250
    return [rand_cli_case(rng, tool) for tool in sorted(cli.TOOLS) for _ in range(n)]


CLI = Source(
    'command-lines', 'props.e2e:cli_run', 'TraceCli', cases=cli_cases, case_timeout=60,
    rule='all 8 auto-annotation command line tools on generated articles and training documents '
         '(existing mark-up, line breaks, noise, missing words, shuffled order, gzip), random '
         'options'
)
