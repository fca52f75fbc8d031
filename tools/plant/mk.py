import os
PRE = open(os.path.join('/verif/tools/plant', 'pre.py')).read() + "\n"


def P(ID, PROP, EDITS, NEEDS, BREAKS, DEMO, ALSO=()):
    os.makedirs('/tmp/plants', exist_ok=True)
    with open('/tmp/plants/%s.py' % ID, 'w') as f:
        f.write('ID=%r\nPROP=%r\nEDITS=%r\nNEEDS=%r\nBREAKS=%r\nALSO=%r\nDEMO=%r\n' % (
            ID, PROP, EDITS, NEEDS, BREAKS, list(ALSO), PRE + DEMO))
