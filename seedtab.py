"""regenerates the table of planted bugs at the end of DESIGN.md (development only; no check uses it)"""
import json,os,glob
H=os.path.dirname(os.path.abspath(__file__)); D=open(H+'/DESIGN.md').read(); B='<!-- seeds -->\n'; E='<!-- /seeds -->\n'
rows=''.join('| %s | %s | %s | %s |\n'%(os.path.basename(os.path.dirname(f)),m['property'],m['what_it_breaks'],m['needs']) for f in sorted(glob.glob(H+'/seeded/*/meta.json')) for m in [json.load(open(f))])
a,r=D.split(B); b,c=r.split(E); open(H+'/DESIGN.md','w').write(a+B+'| seed | caught by | what it breaks | needs |\n|---|---|---|---|\n'+rows+E+c)
