import json, sys
P = '/verif/tools/prop_list.py'
def claim(pid, tech, statement=None, note="BASE_NOTE", title=None):
    s = open(P).read()
    i = s.index(f'prop("{pid}"'); j = s.find('\nprop(', i); j = len(s) if j < 0 else j
    b = s[i:j].replace("claimed=False, reason=TODO)", f'{note}, technique="{tech}")')
    lines = b.split("\n")
    if statement: lines[1] = '     ' + json.dumps(statement) + ','
    if title: lines[0] = f'prop("{pid}", {json.dumps(title)},'
    open(P, 'w').write(s[:i] + "\n".join(lines) + s[j:])
