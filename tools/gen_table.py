"""Rewrites the table of planted bugs in DESIGN.md."""
import json,os,glob,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
rows=sorted((json.load(open(d+'/meta.json'))['property'],os.path.basename(d),json.load(open(d+'/meta.json'))['needs']) for d in glob.glob('seeded/*'))
t='| property | change | needs |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%(p,i,n.replace('|','\\|').replace('\n',' ')) for p,i,n in rows)
s=open('DESIGN.md').read()
i=s.index('| property | change | needs |'); j=s.index('\nWhat they made me')
open('DESIGN.md','w').write(s[:i]+t+s[j:])
