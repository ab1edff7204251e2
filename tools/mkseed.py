#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG DIR < json {file, old, new, [count], needs, breaks, demo}: writes /verif/seeded/ID (patch against /repo's HEAD)"""
import sys, json, os, subprocess, stat
sid, prop, pkg, d = sys.argv[1:5]
spec = json.load(sys.stdin)
out = f'/verif/seeded/{sid}'
os.makedirs(out, exist_ok=True)
import tempfile, shutil
tmp = tempfile.mkdtemp(prefix='mkseed', dir='/tmp')
try:
    subprocess.run(['git','clone','-q','/repo',tmp+'/r'],check=True)
    for e in spec['edits']:
        p = tmp + '/r/' + e['file']; s = open(p).read()
        assert s.count(e['old']) == 1, (e['file'], s.count(e['old']), e['old'])
        open(p,'w').write(s.replace(e['old'], e['new']))
    diff = subprocess.run(['git','-C',tmp+'/r','diff'],capture_output=True,text=True).stdout
finally:
    shutil.rmtree(tmp)
open(out+'/patch.diff','w').write(diff)
open(out+'/meta.json','w').write(json.dumps({'property':prop,'needs':spec['needs'],'what_it_breaks':spec['breaks']},indent=1)+'\n')
if 'demo_sh' in spec: sh = spec['demo_sh']
else: sh = open('/verif/tools/demo_template.sh').read().replace('@PKG@',pkg).replace('@DIR@',d)
open(out+'/demo.sh','w').write(sh); os.chmod(out+'/demo.sh',0o755)
open(out+'/demo.rs','w').write(spec['demo'])
