"""Regenerate the "fixed" list of known_findings.json from tools/fixed.txt
(lines: <property> <commit>...), with the message of each commit in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(V + '/known_findings.json'))
out, seen = [], set()
for line in open(V + '/tools/fixed.txt'):
    p, *hs = line.split()
    for h in hs:
        s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', h], text=True).strip()
        h, s = s.split(' ', 1)
        assert s.startswith('fix: ') and h not in seen, s
        seen.add(h)
        out.append('fixed: property=%s %s (before: not so) %s' % (p, h, s[5:]))
allh = set(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '76b1045..HEAD'], text=True).split())
print('not listed:', allh - seen)
kf['fixed'] = out
json.dump(kf, open(V + '/known_findings.json', 'w'), indent=1, ensure_ascii=False)
