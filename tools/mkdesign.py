"""assembles DESIGN.md from tools/design.md and tools/sections/*.md"""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
t = open(H + '/design.md').read()
titles = dict((p['id'], p['title']) for p in map(json.loads, open(R + '/properties.jsonl')))
sec = ''
for f in sorted(glob.glob(H + '/sections/C*.md')):
    i = os.path.basename(f)[:-3]
    sec += '### %s %s\n%s\n\n' % (i, titles[i], open(f).read().strip())
kf = json.load(open(R + '/known_findings.json'))
kn = '\n'.join('* %s `%s`: %s' % (k['property'], k['key'], k['text']) for k in kf['known'])
ct = open(H + '/sections/catch.md').read() if os.path.exists(H + '/sections/catch.md') else ''
open(R + '/DESIGN.md', 'w').write(t.replace('@@SECTIONS@@', sec.strip()).replace('@@KNOWN@@', kn).replace('@@CATCH@@', ct.strip())
                                  .replace('55+', str(len(kf['fixed']))))
