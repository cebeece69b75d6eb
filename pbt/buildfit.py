"""2D fit objects from generated configurations (shared by the fit checks)."""
from .core import *
from . import ref
from .build2d import *
from .c08 import data, put, dat, BASE
from misfit.fit import FitEmissionLines2D, MCMC2DOptions, MCMCResults
from misfit.fit import fit_core

cfg_small = cfg2d(maxY=5, maxW=12, maxsub=2, vel=False, posshift=False, zero_sig=False, gen=False, lines=True, maxvox=8000)


def weights(c, sh):
    r = rng(c['seed']+77)
    if c.get('wone'):
        return np.ones(sh)
    w = r.exponential(1., sh[0])*(r.uniform(size=sh[0]) > .2)
    return np.tile(w[:, None], (1, sh[1]))


def fitgalaxy(cc, c, full=None):
    sh = (cc['nY'], cc['nW'])
    d = data(c, sh)
    g = put(galaxy(cc), d)
    g.spec2D.fitting_weight_matrix = weights(c, sh)
    return g, d


def kmopts(cc):
    o = options(cc)
    return KinModel2DOptions(**{k: o[k] for k in ('nSubpixels', 'pad_factor', 'do_position_wave_shift', 'absvalsigma',
                                                  'adaptive_upsample_wave', 'adaptive_upsample_factor', 'sigma_floor')})


def box(cc, c):
    """bounds of the five parameters around the configured values, each with its own asymmetric extent."""
    th = theta(cc)
    r = rng(c['seed']+5)
    lo = r.uniform(.05, .6, 5)*np.array([abs(th[0])+20., .5*th[1], .5*abs(th[2]), .8, 2e-4])
    hi = r.uniform(.05, .6, 5)*np.array([abs(th[0])+20., .5*th[1], .5*abs(th[2]), .8, 2e-4])
    return np.stack([th-lo, th+hi], axis=1)


def settings2d(cc, vary, bounds, linked=None):
    return kc.Theta2DSettingsFiducial(theta=theta(cc), theta_vary=np.array(vary, dtype=bool), theta_bounds=np.array(bounds, dtype=float),
                                      theta_linked_posteriors=linked)


def fitobj(cc, g, sets, **kw):
    return FitEmissionLines2D(galaxy=g, instrument=instrument(cc), kinProfile=kinprof(cc), intensityProfile=intprof(cc, g),
                              kinModelOptions=kmopts(cc), thetaSettings=sets, skip_fit_prep_calcs=True,
                              linenames_arr=g.spec2D.linenames_arr, restwave_arr=g.spec2D.restwave_arr,
                              flux_ratio_arr=g.spec2D.flux_ratio_arr, **kw)


def freshmodel(cc, c, full):
    """scaled model of a fully specified parameter vector, from new objects."""
    g, d = fitgalaxy(cc, c)
    s = kc.Theta2DSettingsFiducial(theta=np.array(full, dtype=float), theta_vary=np.zeros(5, dtype=bool), theta_bounds=np.zeros((5, 2)))
    km = KinModel2D(g, thetaSettings=s, kinProfile=kinprof(cc), intensityProfile=intprof(cc, g), kinModelOptions=kmopts(cc))
    km.make_model(galaxy=g, instrument=instrument(cc), theta_fitting=np.array([]))
    return km.model


vary5 = st.lists(st.booleans(), min_size=5, max_size=5).filter(lambda v: any(v))


def full_theta(cc, vary, free):
    t = theta(cc)
    t[np.where(vary)[0]] = free
    return t
