"""Builds code-under-test objects from a JSON-able 2D configuration, and the generator of configurations."""
from .core import *
from . import ref
from misfit.galaxy import Galaxy, ObsSpectrum2D
from misfit.instrument import Spectrograph
from misfit.model import AperModel2D, KinModel2D, KinModel2DOptions
from misfit.model import kin_classes as kc


class VCustom(kc.VelProfile):
    def __init__(self, **kw):
        kc.VelProfile.__init__(self, **kw)
        self.theta = np.zeros(2)

    def vel(self, r, z):
        return ref.custom_v(r, z, self.theta[0], self.theta[1])


class DCustom(kc.DispProfile):
    def __init__(self, **kw):
        kc.DispProfile.__init__(self, **kw)
        self.theta = np.zeros(1)

    def sigma(self, r, z):
        return ref.custom_s(r, z, self.theta[0])


def instrument(c):
    return Spectrograph(PSF_type=c['ptype'], PSF_FWHM=c['fwhm'], PSF_beta=c['beta'],
                        yspace_dither_arc=c.get('dith'), pixscale=c['pix'], slit_width=c['slit'],
                        slit_length=c['nY']*c['pix'], instrument_resolution=c['res'],
                        instrument_name='TEST', band='K')


def galaxy(c):
    g = Galaxy(z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['pa'], ID=1,
               generate_model=c['gen'])
    w = ref.wave2d(c)
    kw = dict(wave=w, spec_type='velocity' if c['vel'] else 'wave')
    if not c['gen']:
        kw.update(flux=np.ones((c['nY'], c['nW'])), flux_err=np.ones((c['nY'], c['nW'])))
    s = ObsSpectrum2D(**kw)
    if c['gen']:
        s.shape = [c['nY'], c['nW']]
    s.m0 = c['m0']
    s.ypos = c['m0']
    if not c['vel']:
        s.restwave_arr = np.array(c['rest'])
        s.flux_ratio_arr = np.array(c['ratio'])
        s.linenames_arr = ['L%d' % k for k in range(len(c['rest']))]
    g.set_spectrum_2D(s)
    return g


def kinprof(c):
    if c.get('kprof', 0) == 0:
        return kc.KinProfileFiducial()
    return kc.KinProfile(velProfile=VCustom(), dispProfile=DCustom())


def intprof(c, g):
    return kc.IntensityProfileFiducial(g) if c.get('iprof', 0) == 0 else kc.IntensityProfileSersicExpScale(g)


def theta(c):
    return np.array([c['va'], c['rt'], c['sig'], c['m0s'], c['z']])


def options(c):
    return dict(nSubpixels=c['nsub'], pad_factor=c['pad'], do_position_wave_shift=bool(c.get('posshift')),
                rebin_output=c['rebin'], xc=c.get('xc', 0.), spec_type='velocity' if c['vel'] else 'wave',
                absvalsigma=c['absval'], adaptive_upsample_wave=c['adaptive'],
                adaptive_upsample_factor=c['factor'], sigma_floor=c['floor'])


def aper2d(c, g=None, ins=None):
    g = g or galaxy(c)
    ins = ins or instrument(c)
    return AperModel2D(galaxy=g, instrument=ins, theta=theta(c), kinProfile=kinprof(c),
                       intensityProfile=intprof(c, g), **options(c))


# ------------------------------------------------------------------ generator
@st.composite
def cfg2d(draw, maxY=7, maxW=24, maxsub=3, vel=None, posshift=None, kprof=True, lines=True, zero_sig=True,
          dith=True, square=True, m0s=True, gen=None, maxvox=90000):
    c = {}
    c['vel'] = draw(st.integers(0, 3)) == 3 if vel is None else vel
    c['posshift'] = (draw(st.integers(0, 5)) == 5 if posshift is None else posshift) and not c['vel']
    c['nY'] = draw(st.integers(3, maxY))
    c['nsub'] = draw(st.integers(1, maxsub))
    c['pix'] = draw(st.sampled_from([.1, .18, .25, .5, .0736]))
    dy = c['pix']/c['nsub']
    c['slit'] = draw(st.integers(2 if not c['posshift'] else 6, 12))*dy - draw(num(.05, .95, 2))*dy
    if square and draw(st.integers(0, 9)) == 9:
        c['slit'] = c['nY']*c['pix']
    c['ptype'] = draw(st.sampled_from(['Gaussian', 'Gaussian', 'Moffat']))
    c['beta'] = draw(num(1.5, 5, 1))
    c['fwhm'] = draw(st.one_of(st.just(0.), num(.5, 6, 2).map(lambda k: round(k*c['pix'], 6)), num(.05, .9, 3)))
    c['pad'] = draw(st.sampled_from([.5, 0., 1., .31, 1.5]))
    c['fwhm'] = min(c['fwhm'], 5*c['pix']/max(c['pad'], .5))
    c['dith'] = None
    if dith and c['fwhm'] > 0 and draw(st.integers(0, 4)) == 4:
        c['dith'] = round(c['fwhm']*draw(num(.7, 3, 2)), 6)
    c['res'] = draw(st.one_of(st.just(0.), num(5, 150, 1)))
    if c['posshift']:
        c['res'] = draw(num(5, 150, 1))
    c['q0'] = draw(st.sampled_from([.19, .1, .3, .25]))
    c['q'] = draw(st.one_of(num(.05, 1., 2), num(.3, .95, 2)))
    c['pa'] = draw(st.one_of(num(-90, 90, 1), st.sampled_from([0., 30., -45., 90., -60.])))
    c['re'] = draw(num(.5, 8, 2))*c['pix']
    c['n'] = draw(st.one_of(num(.4, 4.5, 1), st.just(1.)))
    c['z'] = draw(num(0, 3, 3))
    c['zw'] = c['z'] if draw(st.integers(0, 2)) else round(c['z']+draw(num(-.0005, .0005, 5)), 6)
    c['m0'] = draw(st.one_of(st.just((c['nY']-1)/2.), num(0, c['nY']-1, 2)))
    c['m0s'] = draw(num(-1.5, 1.5, 2)) if m0s else 0.
    rest0 = draw(num(3700, 6700, 1))
    c['rest'] = [rest0]
    c['ratio'] = [1.]
    c['nW'] = draw(st.integers(6, maxW))
    c['woff'] = draw(num(-.47, .47, 3))
    if c['vel']:
        c['dw'] = draw(num(10, 120, 1))
        pixv = c['dw']
    else:
        c['dw'] = draw(num(.5, 6, 2))
        pixv = c['dw']/(rest0*(1+c['z']))*ref.C_KMS
    if lines and not c['vel']:
        for k in range(draw(st.integers(0, 2))):
            c['rest'].append(round(rest0+draw(num(-40, 40, 1)), 3))
            c['ratio'].append(draw(num(.05, 3, 2)))
    c['rt'] = draw(num(.05, 6, 2))*c['pix']
    c['va'] = draw(num(-6, 6, 2))*pixv
    cls = draw(st.sampled_from(['wide', 'wide', 'mid', 'narrow', 'tiny'] + (['zero'] if zero_sig else [])))
    c['sclass'] = cls
    c['sig'] = {'wide': draw(num(.6, 5, 2)), 'mid': draw(num(.43, .6, 3)), 'narrow': draw(num(.15, .42, 3)),
                'tiny': draw(num(.01, .15, 3)), 'zero': 0.}[cls]*pixv
    c['absval'] = draw(st.integers(0, 3)) == 0
    if c['absval'] and draw(st.booleans()):
        c['sig'] = -c['sig']
    c['adaptive'] = draw(st.booleans())
    c['floor'] = draw(st.booleans())
    c['factor'] = draw(st.sampled_from([3, 3, 2, 4, 5]))
    if cls == 'tiny' and not c['floor']:
        c['floor'] = True
    c['rebin'] = draw(st.integers(0, 5)) > 0
    c['xc'] = 0. if (c['posshift'] or draw(st.integers(0, 2))) else round(draw(num(-.8, .8, 2))*c['slit'], 5)
    c['iprof'] = draw(st.integers(0, 1))
    c['kprof'] = draw(st.integers(0, 3)) // 3 if kprof else 0
    c['gen'] = draw(st.booleans()) if gen is None else gen
    # keep it small: voxels
    while True:
        nx = c['slit']/c['pix']*c['nsub']+2*c['fwhm']*c['pad']/c['pix']*c['nsub']
        ny = c['nY']*c['nsub']+2*c['fwhm']*c['pad']/c['pix']*c['nsub']
        vox = nx*ny*c['nY']*c['nsub']*c['nW']*(c['factor'] if c['adaptive'] else 1)*len(c['rest'])
        if vox < maxvox*8 or c['nsub'] == 1:
            break
        c['nsub'] -= 1
    return c


def labels2d(c):
    L = ['vel' if c['vel'] else 'wave', 'sig-'+c['sclass'], 'nsub%d' % c['nsub'], c['ptype'] if c['fwhm'] else 'noPSF',
         'lines%d' % len(c['rest'])]
    if c.get('posshift'):
        L.append('posshift')
    if c['dith']:
        L.append('dither')
    if c['xc']:
        L.append('xc')
    if c['adaptive'] and abs(c['sig']) < .42*(c['dw'] if c['vel'] else c['dw']/(c['rest'][0]*(1+c['z']))*ref.C_KMS):
        L.append('upsampled')
    if not c['rebin']:
        L.append('subpixel-output')
    if c['kprof']:
        L.append('custom-kin')
    if c['gen']:
        L.append('generate')
    if c['q'] <= c['q0']:
        L.append('edge-on')
    if c['res'] == 0:
        L.append('nores')
    return L


def cusp_tol(c):
    """Extra relative tolerance when a grid point falls on the centre: there the Sersic law turns
    rounding of the radius (~1e-16) into a relative intensity error of order (1e-16)**(1/n)."""
    g = ref.grid2d(c)
    I, V, r, zi = ref.field2d(c, g)
    if r.min() < 1e-9*c['re']:
        return 3.*(2*c['n']-.324)*(1e-15)**(1./c['n'])
    return 0.
