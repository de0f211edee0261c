"""prints the distinct failures of the last run of a check, and its margins"""
import collections, glob, json, sys
c = collections.OrderedDict()
for f in sorted(glob.glob('out/%s/*.json' % sys.argv[1])):
    d = json.load(open(f))
    c.setdefault((d['function'], d['failure']['msg'], d['failure']['info'].get('op')), []).append(d)
for k, v in c.items():
    print(len(v), k, json.dumps(v[0]['kwargs'])[:200], json.dumps(v[0]['failure']['info'])[:500])
e = json.load(open('evidence/%s.json' % sys.argv[1]))['coverage']
print(list(e['largest_error_over_tolerance'].items())[:8], e['failing_executions'], e['outcomes'])
