import json, sys
for p in sys.argv[1:]:
    r = json.load(open(p))
    print(r['source'], r['clauses'], r['exc'])
    print('CASE', json.dumps(r['case'])[:3000])
    print('REC', json.dumps({k: v for k, v in r['record'].items() if k not in ('case',)})[:4000])
