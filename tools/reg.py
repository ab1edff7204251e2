"""register a check: reg.py ID crate technique level bounds design-text-file"""
import sys
ID, crate, tech, level, bounds, text = sys.argv[1:]
p='/verif/bin/crates.txt'; s=open(p).read()
if f"{ID} " not in s: open(p,'a').write(f"{ID} {crate}\n")
p='/verif/tools/claims.py'; s=open(p).read().rstrip(); assert s.endswith('}')
open(p,'w').write(s[:-1]+f' "{ID}": ({tech!r}, {level!r}, {bounds!r}),\n}}\n')
p='/verif/tools/design_props.py'; s=open(p).read().rstrip(); assert s.endswith('}')
open(p,'w').write(s[:-1]+f'"{ID}": """{text}""",\n}}\n')
