from collections import defaultdict
from edpyt.lookup import binrep
from edpyt.shared import unsigned_one as uone

def pdisplay(espace, ax=None):
    from matplotlib import pyplot as plt
    ax = ax or plt
    pspace = defaultdict(list)
    for key, sct in espace.items():
        pspace[sum(key)].extend(sct.eigvals.tolist())
    xavg = sum(map(lambda x: [x[0]] * len(x[1]), pspace.items()), [])
    y = sum(pspace.values(), [])
    ax.hlines(y, [x - 0.2 for x in xavg], [x + 0.2 for x in xavg])

def eprint(espace, n):

    def fockstates(sct):
        states = []
        if hasattr(sct.states, 'up'):
            for sdw in sct.states.dw:
                for sup in sct.states.up:
                    states.append(fock(sup, sdw, n))
        else:
            mask_up = (uone << n) - uone
            mask_dw = mask_up << n
            for s in sct.states:
                sup = s & mask_up
                sdw = (s & mask_dw) >> n
                states.append(fock(sup, sdw, n))
        return states
    estates = []
    for ns, sct in espace.items():
        sates = fockstates(sct)
        evecs = [' + '.join([v + s for v, s in zip(evec.round(3).astype(str), sates)]) for evec in sct.eigvecs.T]
        estates.extend([(ns, e, v) for e, v in zip(sct.eigvals, evecs)])
    estates = sorted(estates, key=lambda estate: estate[1])
    for ns, e, v in estates:
        print(f'{ns}: {e:.3E}', v, sep='\n', end='\n\n')

def fock(sup, sdw, n):
    uparrow = u'↑'
    downarrow = u'↓'
    nup = binrep(sup, n)
    ndw = binrep(sdw, n)
    state = '|'
    for i in range(n):
        a, b = (nup[i], ndw[i])
        if not (a or b):
            state += 'o'
        if a:
            state += uparrow
        if b:
            state += downarrow
        state += ','
    return state[:-1] + '>'
