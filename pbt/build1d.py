"""Builds the 1D aperture models from a JSON-able configuration, and the generators."""
from .core import *
from . import ref
from .build2d import VCustom, DCustom, kc
from misfit.galaxy import Galaxy, ObsSpectrum2D
from misfit.instrument import Spectrograph
from misfit.model import AperModel1DRot, AperModel1DDisp, AperModel1DDispMisalign


def instrument(c):
    return Spectrograph(PSF_type=c['ptype'], PSF_FWHM=c['fwhm'], PSF_beta=c['beta'],
                        yspace_dither_arc=c.get('dith'), pixscale=.18, slit_width=c['slit'], slit_length=5.,
                        instrument_resolution=c.get('res', 40.), instrument_name='TEST', band='K')


def galaxy(c):
    g = Galaxy(z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['pa'], ID=1,
               re_mass_arcsec=c.get('rem', c['re']), q_mass=c.get('qm', c['q']), generate_model=True)
    s = ObsSpectrum2D(spec_type='wave')
    s.restwave_arr = np.array([c['rest']])
    s.flux_ratio_arr = np.array([1.])
    g.set_spectrum_2D(s)
    return g


def opts(c):
    o = dict(nPixels=c['nPix'], extraction_method=c['ext'], xc=c['xc'], yc=c['yc'])
    if c['width'] is not None:
        o['extraction_width'] = c['width']
    if c['rad'] is not None:
        o['disp_aper_radius_arcsec'] = c['rad']
    return o


def kprof(c):
    return kc.KinProfileFiducial() if c['kprof'] == 0 else kc.KinProfile(velProfile=VCustom(), dispProfile=DCustom())


def iprof(c, g):
    return kc.IntensityProfileFiducial(g) if c['iprof'] == 0 else kc.IntensityProfileSersicExpScale(g)


def theta(c):
    return [c['vs'], c['va'], c['rt']]


def rot(c, g=None, ins=None, **kw):
    g = g or galaxy(c)
    o = dict(opts(c), theta=theta(c), kinProfile=kprof(c), intensityProfile=iprof(c, g), pad_factor=c['pad'],
             do_position_wave_shift=bool(c.get('posshift')))
    o.update(kw)
    return AperModel1DRot(galaxy=g, instrument=ins or instrument(c), **o)


def disp(c, misalign, g=None, ins=None, **kw):
    cls = AperModel1DDispMisalign if misalign else AperModel1DDisp
    o = dict(opts(c), d=c['slope'], r_core=c['rcore'])
    o.update(kw)
    return cls(galaxy=g or galaxy(c), instrument=ins or instrument(c), **o)


@st.composite
def cfg1d(draw, rotm=True, off=True, posshift=False, kprofs=True, maxpix=13):
    c = {}
    c['re'] = draw(st.one_of(num(.12, 1.5, 3), num(.02, .12, 3)))
    c['q'] = draw(st.one_of(num(.05, 1., 2), num(.3, .95, 2)))
    c['q0'] = draw(st.sampled_from([.19, .1, .3, .25]))
    c['n'] = draw(st.one_of(num(.5, 4.5, 1), st.just(1.)))
    c['pa'] = draw(st.one_of(num(-90, 90, 1), st.sampled_from([0., 30., -45., 90., -60.])))
    c['fwhm'] = draw(st.one_of(num(.1, 1.2, 2), st.just(0.)))
    c['ptype'] = draw(st.sampled_from(['Gaussian', 'Gaussian', 'Moffat']))
    c['beta'] = draw(num(1.5, 5, 1))
    c['dith'] = None
    c['slit'] = draw(num(.3, 1.5, 3))
    c['ext'] = draw(st.sampled_from(['optimal', 'boxcar']))
    c['width'] = draw(st.one_of(st.none(), num(.3, 3, 2)))
    c['rad'] = draw(st.one_of(st.none(), num(.05, 2, 2)))
    c['xc'] = c['yc'] = 0.
    if off:
        o = draw(st.integers(0, 3))
        if o == 2:
            c['xc'] = round(draw(num(-.4, .4, 2))*c['slit'], 4)
        elif o == 3:
            c['yc'] = draw(num(-.5, .5, 2))
    c['z'] = draw(num(.1, 3, 2))
    c['rest'] = draw(num(3700, 6700, 0))
    c['posshift'] = posshift
    if rotm:
        c['nPix'] = draw(st.integers(3, maxpix))
        c['pad'] = draw(st.sampled_from([.5, .5, 0., 1., .31]))
        w = c['width'] if c['width'] is not None else ref.ext_width(c)
        # keep the grid small
        while c['slit']/(w/c['nPix']) > 12 and c['nPix'] > 3:
            c['nPix'] -= 1
        if c['fwhm'] > 4*w:
            c['fwhm'] = 0.
        c['va'] = draw(num(-400, 400, 1).filter(lambda v: v != 0))
        c['vs'] = draw(st.one_of(num(.1, 8, 2), num(-5, -.1, 2), st.none(), st.just(0.)))
        c['rt'] = draw(num(.01, 1.2, 3))
        c['iprof'] = draw(st.integers(0, 1))
        c['kprof'] = draw(st.integers(0, 3))//3 if kprofs else 0
        c['res'] = draw(num(10, 120, 1))
        if posshift:
            c['xc'] = 0.
            c['slit'] = round(c['slit']+5.3*w/c['nPix'], 4)
    else:
        c['nPix'] = draw(st.integers(2, 6))
        c['rem'] = round(c['re']*draw(num(.4, 2, 2)), 4)
        c['qm'] = draw(num(.1, 1, 2))
        c['slope'] = draw(st.one_of(st.just(-.089), num(-.4, .2, 3)))
        c['rcore'] = draw(st.one_of(st.just(1/300.), num(.001, .1, 3)))
    return c


def labels1d(c):
    L = [c['ext'], c['ptype'] if c['fwhm'] else 'noPSF', 'width' if c['width'] else 'auto-width',
         'rad' if c['rad'] else 'auto-rad']
    if c['xc']:
        L.append('xc')
    if c['yc']:
        L.append('yc')
    if 'vs' in c:
        L.append({True: 'no-dispersion', False: 'vs'}[c['vs'] is None] if c['vs'] != 0 else 'no-rotation')
        if c['q'] <= c['q0']:
            L.append('edge-on')
        if c['kprof']:
            L.append('custom-kin')
        L.append('even' if c['nPix'] % 2 == 0 else 'odd')
    else:
        L.append('small' if c['re'] <= .1 else 'large')
    if c.get('posshift'):
        L.append('posshift')
    return L
