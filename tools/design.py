"""Assembles DESIGN.md from tools/design/*.md, the oracles (tools/design/oracle.py) and the properties (tools/props.py)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); sys.path.insert(0, H + '/design')
import props, oracle
def rd(n):
    p = H + '/design/' + n
    return open(p).read().rstrip() + '\n' if os.path.exists(p) else ''
o = [rd('head.md')]
for p in props.PROPS:
    o.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* **Decided by:** {p['technique']}. {oracle.O[p['id']]}\n* **Bounds:** {p['forall']}\n* **Why the tests cannot:** {p['tests']}\n* **Anchors:** " + '; '.join(f"{m} (`{f.split('/')[-1]}`)" for m, f in p['mech']) + '\n')
o += [rd('tail.md'), rd('seeds.md')]
open(H + '/../DESIGN.md', 'w').write('\n'.join(o).rstrip() + '\n')
