"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
S = set('''bounds-with-bias-of-one peak-of-previous-mode sensitivity-in-score-angle ties-not-merged-if-culled
probe-radius-of-first-mirror quantised-with-largest-gain dead-of-first-mirror estimate-mutated-ni grid-best-by-rounding
dark-current-of-first-band overhang-by-rows centering-any-case apod-unconjugated state-by-nanometre stored-amplitude-map-as-is
gain-without-bias square-unless-empty star-weight-in-offaxis'''.split())
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
d = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]
    d.setdefault(json.load(open(f))['property'], []).append(('*%s*' if i in S else '%s') % i)
t = open('DESIGN.md').read()
m = '<!-- bugtable -->\n'
t = t[:t.index(m)] if m in t else t.rstrip() + '\n\n'
t += m + '\n| property | planted bugs (in italics: missed at first, the check was strengthened) |\n|---|---|\n'
t += ''.join('| %s | %s |\n' % (k, ', '.join(d[k])) for k in sorted(d))
open('DESIGN.md', 'w').write(t)
