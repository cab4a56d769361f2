"""known-findings.txt: genuine defects of the repository that are recorded instead of repaired.
   known: property=ID rule=<obligation text> at=<file substring> <what fails>
   fixed: property=ID COMMIT <what failed>        (suppresses nothing)"""
import os, re
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')
def load(pid):
    out = []
    if not os.path.exists(F): return out
    for l in open(F):
        m = re.match(r'known: property=(\S+) driver=(\S+) rule="([^"]*)" (?:inputs="([^"]*)" )?(.*)$', l.strip())
        if m and m.group(1) == pid: out.append({'driver': m.group(2), 'rule': m.group(3), 'inputs': m.group(4), 'what': m.group(5)})
    return out
def match(kn, v):
    ins = ','.join('%s=%s' % tuple(x) for x in v.get('inputs', []))
    for k in kn:
        if k['driver'] == v.get('driver') and k['rule'] == v.get('msg') and (not k['inputs'] or k['inputs'] == ins): return k
    return None
