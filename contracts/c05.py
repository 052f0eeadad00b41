"""C05  Faraday depth grid of the 1D and 3D pipelines.

pre : at least two positive frequencies, two of them (adjacent in the list) different; requested maximum, spacing or samples positive
post: the depth array handed to synthesis and RMSF has an odd number P of elements, element j is (j - (P-1)/2) * step,
      |(P-1)/2 * step - maximum| <= step/2; step = requested, or RMSF width / samples (10 by default);
      maximum = requested, or max(sqrt(3) / largest |lambda2 difference of adjacent channels|, 10 widths);
      width = 3.8/(max l2 - min l2), or 2/(max l2 + min l2) in super-resolution mode; the returned axis is that array
"""
from pyvc.spec import *
from contracts.pipe import *


def one(mode, superres):
    def run(E):
        S, i, calls, md, ad = run1d(E, mode, superres, flags=False)
        c = calls['synth'][0]
        grid_spec(S, *i['tgt'], c['phi'])
        for what, p in (('RMSF', calls['rmsf'][0]['phi']), ('returned', ad['phiArr_radm2']), ('measurement', calls['measure'][0]['phi'])):
            S.shape(what + ' depth axis', p, c['phi'].dims)
            with S.forall(c['phi'].dims[0]) as (j,):
                S.same(what + ' depth axis', S.at(p, j), S.at(c['phi'], j))
    return run


def three(mode, superres):
    def run(E):
        S, i, calls, r = run3d(E, mode, superres, flags=False)
        c = calls['synth'][0]
        grid_spec(S, *i['tgt'], c['phi'])
        for what, p in (('RMSF', calls['rmsf'][0]['phi']), ('returned', r[1])):
            S.shape(what + ' depth axis', p, c['phi'].dims)
            with S.forall(c['phi'].dims[0]) as (j,):
                S.same(what + ' depth axis', S.at(p, j), S.at(c['phi'], j))
    return run


UNITS = []
for nm, f in (('1D', one), ('3D', three)):
    for mode in ('max,step', 'max', 'max,samples', 'step', 'samples', ''):
        for sr in ((False, True) if 'step' not in mode or mode == 'step' else (False,)):
            UNITS.append(('%s, given: %s%s' % (nm, mode or 'nothing', sr * ', super-resolution'), f(mode, sr), {'thorough': sr and mode in ('step', 'samples')}))
