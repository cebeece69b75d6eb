"""C13: trimming and line tables."""
import os
import tempfile
from .core import *
from . import ref
from misfit.galaxy import Galaxy, ObsSpectrum1D, ObsSpectrum2D
from misfit.instrument import Spectrograph
from misfit.general import galaxy_utils as gu, io as mio

PROPERTY = 'C13'
RULE = ('Random irregular wavelength grids, ranges (inside, overlapping, outside, on exact samples), redshifts, data; oracle: element-wise selection by '
        'direct comparison of each sample. Spatial trims of dithered and undithered spectra are compared with the recorded row range. Line tables are compared '
        'with a written-out copy of the documented tables and with random tables written to a scratch file. Non-trivial: the range keeps some but not all '
        'samples (trims), all table look-ups.')
ASSUMPTIONS = ['spectra have finite wavelengths', 'a range bound converted with the redshift may fall within rounding (1e-12 relative) of a sample only when it is '
               'given in the observed frame; such rest-frame ties are not generated']

LINES = {'Halpha': ['HA6565'], 'Hbeta': ['HB4863'], 'OIII': ['OIII5008', 'OIII4960'], 'NII': ['NII6550', 'NII6585'], 'SII': ['SII6733', 'SII6718'],
         'OII': ['OII3727', 'OII3730']}
WAVE = {'HA6565': 6564.60, 'HB4863': 4862.71, 'OIII5008': 5008.24, 'OIII4960': 4960.295, 'NII6550': 6549.86, 'NII6585': 6585.27, 'SII6718': 6718.294,
        'SII6733': 6732.673, 'OII3727': 3727.10, 'OII3730': 3729.86}
RATIO = {'HA6565': 1., 'HB4863': 1., 'OIII5008': 1., 'OIII4960': .333333, 'NII6550': .333333, 'NII6585': 1., 'SII6718': .261111, 'SII6733': 1., 'OII3727': 1.,
         'OII3730': .233333}
TRIM1 = {'HA6565': (6480, 6650), 'Halpha': (6480, 6650), 'HB4863': (4800, 4920), 'Hbeta': (4800, 4920), 'OIII5008': (4950, 5060), 'OIII': (4930, 5060)}
LINE2 = {'HA6565': (6555.60, 6573.60), 'HB4863': (4856.71, 4868.71), 'OIII5008': (5002.29, 5015.24)}
FULL2 = {'HA6565': (6454.60, 6674.60), 'HB4863': (4787.71, 4932.71), 'OIII5008': (4880.24, 5118.24)}
MASK2 = {'HA6565': (6533.60, 6599.60), 'HB4863': (4852.71, 4872.71), 'OIII5008': (4928.24, 5038.24)}
BAND = {'K': 2., 'H': 3., 'J': 3., 'Y': 3.}

A2 = ('flux', 'flux_err', 'spec_mask', 'spec_weight')
C2 = ('flux_incl_cont', 'cont_model')
A1 = ('flux', 'flux_err', 'spec_mask')


def grid(c):
    r = rng(c['seed'])
    d = np.round(r.uniform(.5, 3, size=c['n']), 2)
    return c['w0']+np.cumsum(d)


def ranges(c, w):
    """a range in the observed frame, from a description."""
    n = len(w)
    k, l = sorted((c['i'] % n, c['j'] % n))
    kind = c['kind']
    if kind == 0:
        return [float(w[k]), float(w[l])]
    if kind == 1:
        return [w[k]-.21, w[l]+.21]
    if kind == 2:
        return [w[0]-50., w[-1]+50.]
    if kind == 3:
        return [w[-1]+5., w[-1]+50.]
    if kind == 4:
        return [w[0]-50., w[0]-5.]
    if kind == 5:
        return [w[k]+.1, w[k]+.11]
    return [w[k]-.13, float(w[-1])+7.]


def spec(c, two):
    w = grid(c)
    r = rng(c['seed']+1)
    sh = (c['ny'], len(w)) if two else (len(w),)
    cls = ObsSpectrum2D if two else ObsSpectrum1D
    s = cls(wave=w.copy(), flux=r.normal(size=sh), flux_err=r.uniform(.1, 1, size=sh), spec_mask=(r.uniform(size=sh) > .2).astype(float))
    if two:
        s.spec_weight = r.uniform(size=sh)
        if c['cont']:
            s.flux_incl_cont = r.normal(size=sh)
            s.cont_model = r.normal(size=sh)
    g = Galaxy(z=c['z'], ID=1)
    if two:
        g.set_spectrum_2D(s)
    else:
        g.set_spectrum_1D(s)
    return g, s, w


def sel(w, rg):
    return [k for k in range(len(w)) if rg[0] <= w[k] <= rg[1]]


def t_trim(c):
    two = c['two']
    g, s, w = spec(c, two)
    rg = ranges(c, w)
    arrs = A2+(C2 if c['cont'] else ()) if two else A1
    orig = {a: getattr(s, a).copy() for a in arrs}
    kw = {}
    frame = c['frame']
    if frame == 'rest':
        rest = [x/(1.+c['z']) for x in rg]
        if any(np.min(np.abs(w-x)/x) < 1e-11 for x in rg):
            rest = [rest[0]*(1-1e-9), rest[1]*(1+1e-9)]
        rg = [x*(1.+c['z']) for x in rest]
        kw['trim_restwave_range'] = rest if c['aslist'] else np.array(rest)
    elif frame == 'obs':
        kw['trim_obswave_range'] = rg if c['aslist'] else np.array(rg)
    else:
        tab = LINE2 if two else TRIM1
        name = sorted(tab)[c['i'] % len(tab)]
        lo, hi = [x*(1.+c['z']) for x in tab[name]]
        kw['linename'] = name
        # place the grid around the window
        w = w-w[c['j'] % len(w)]+(lo, hi, .5*(lo+hi))[c['kind'] % 3]+.0037
        s.wave = w.copy()
        s.calculate_restwave(g)
        rg = [lo, hi]
        if frame == 'file':
            f = os.path.join(os.environ.get('PBT_SCRATCH', tempfile.gettempdir()), 'range-%d.param' % os.getpid())
            rest = [(.3*lo+.7*hi)/(1+c['z']), hi/(1+c['z'])+3.]
            with open(f, 'w') as o:
                o.write('# linename  wave_l   wave_u\nother  1.0  2.0\n%s %.17g %.17g\nlast 5. 6.\n' % (name, rest[0], rest[1]))
            kw['param_restwave_filename'] = f
            rg = [x*(1+c['z']) for x in rest]
    keep = sel(w, rg)
    sb = {a: orig[a] for a in arrs}
    if two:
        res = s.trim_spectrum_wavelength(g, inplace=c['inplace'], **kw)
        if c['inplace']:
            check(res is s, 'an in-place trim returned another object')
    else:
        res = s.trim_spectrum_wavelength(g, **kw)
    if not keep:
        for a in ('wave',)+(A2 if two else A1):
            v = getattr(res, a)
            check(v is None or np.size(v) == 0, 'trimming outside the data left %s' % a)
    else:
        same(res.wave, w[keep], 'kept wavelengths')
        same(res.obswave, w[keep], 'observed wavelengths')
        close(res.restwave, w[keep]/(1.+c['z']), rtol=1e-13, what='rest wavelengths')
        for a in arrs:
            same(getattr(res, a), sb[a][..., keep], a)
    if not (two and c['inplace']):
        same(s.wave, w, 'wavelengths of the original')
        for a in arrs:
            same(getattr(s, a), sb[a], a+' of the original')
        if keep:
            # the copy is independent
            res.flux[...] = 77.
            same(s.flux, sb['flux'], 'flux of the original after changing the trimmed copy')
    return 0 < len(keep) < len(w), ['2D' if two else '1D', frame, 'empty' if not keep else 'kept', 'inplace' if two and c['inplace'] else 'copy']


s_trim = st.fixed_dictionaries(dict(seed=seeds(), n=st.integers(2, 30), ny=st.integers(1, 4), w0=num(3500, 24000, 2), z=st.one_of(st.just(0.), num(.1, 3.5, 4), st.just(2)),
                                    i=st.integers(0, 40), j=st.integers(0, 40), kind=st.integers(0, 6), two=st.booleans(), inplace=st.booleans(),
                                    cont=st.booleans(), frame=st.sampled_from(['rest', 'rest', 'obs', 'obs', 'line', 'file']), aslist=st.booleans()))


def t_refuse(c):
    g, s, w = spec(c, True)
    orig = s.flux.copy()
    f = lambda **kw: (lambda: s.trim_spectrum_wavelength(g, inplace=c['inplace'], **kw))
    raises(ValueError, f(), 'no range')
    rg = ranges(c, w)
    raises(ValueError, f(trim_restwave_range=[x/(1+c['z']) for x in rg], trim_obswave_range=rg), 'two ranges')
    raises(ValueError, f(linename='no such line'), 'unknown line')
    same(s.flux, orig, 'flux after refused trims')
    same(s.wave, w, 'wavelengths after refused trims')
    return True, ['refusal']


def t_spatial(c):
    ny, nw = c['ny'], c['nw']
    r = rng(c['seed'])
    y = np.arange(ny)
    m = c['m']*(ny-1)
    prof = np.exp(-.5*((y-m)/c['sig'])**2)
    if c['dither']:
        prof = prof-.5*np.exp(-.5*((y-m-c['off'])/c['sig'])**2)-.5*np.exp(-.5*((y-m+c['off'])/c['sig'])**2)
    w = 22000.+2.*np.arange(nw)
    line = np.exp(-.5*((np.arange(nw)-nw/2.)/2.)**2)
    flux = 100.*prof[:, None]*line[None]+r.normal(size=(ny, nw))*c['noise']
    err = np.full((ny, nw), max(c['noise'], .5))*r.uniform(.9, 1.1, size=(ny, nw))
    s = ObsSpectrum2D(wave=w, flux=flux.copy(), flux_err=err.copy(), band='K')
    g = Galaxy(z=(w[nw//2])/6564.6-1, ID=1, dither=c['dither'])
    ins = Spectrograph(PSF_type='Gaussian', PSF_FWHM=.6, pixscale=.18, slit_width=.7, instrument_resolution=40.)
    g.set_spectrum_2D(s)
    if c['one']:
        s1 = ObsSpectrum1D(wave=w.copy(), flux=flux.sum(axis=0), flux_err=np.ones(nw))
        s1.extraction_spatial_profile = r.uniform(size=ny)
        g.set_spectrum_1D(s1)
        p0 = s1.extraction_spatial_profile.copy()
    s.restwave_arr = np.array([6564.6])
    s.linenames_arr = ['HA6565']
    s.flux_ratio_arr = np.array([1.])
    s.ypos = float(np.round(m)+c['dy'])
    y0 = s.ypos
    names = ('flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_weight', 'spec_mask', 'mask_qual', 'mask_sky', 'mask_low_snr')
    bits = (r.uniform(size=(ny, nw)) > .02).astype(float)
    s.flux_incl_cont = flux+3.
    s.cont_model = 3.+r.normal(size=(ny, nw))
    s.spec_weight = r.uniform(size=(ny, nw))
    s.mask_sky = np.tile((r.uniform(size=nw) > .1).astype(float), (ny, 1))
    s.mask_low_snr = np.tile((r.uniform(size=ny) > .3).astype(float)[:, None], (1, nw))
    s.spec_mask = bits*s.mask_low_snr
    s.mask_qual = bits.copy()
    s.wh_sky = np.where(s.mask_sky[0] == 0)[0]
    s.wh_nosky = np.where(s.mask_sky[0] == 1)[0]
    orig = {a: getattr(s, a).copy() for a in names}
    s.trim_spectrum_spatial(g, ins)
    n = s.flux.shape[0]
    check(n > 0, 'no rows left')
    l = [k for k in range(ny) if np.array_equal(orig['flux'][k], s.flux[0])][0]
    for a in names:
        same(getattr(s, a), orig[a][l:l+n], a+' trimmed to rows %d..%d' % (l, l+n-1))
    close(s.ypos, y0-l, rtol=1e-12, what='object position after removing %d rows' % l)
    close(s.m0, s.full_m0-l, rtol=1e-12, what='line position after removing %d rows' % l)
    check(s.full_l_ind == l and s.full_r_ind-s.full_l_ind == n, 'recorded bounds %s..%s of rows %d..%d' % (s.full_l_ind, s.full_r_ind, l, l+n))
    check(s.n_spatial == n, 'recorded number of rows')
    check(l <= s.full_m0 < l+n, 'the object at row %s is outside the kept rows %d..%d' % (s.full_m0, l, l+n-1))
    same(s.wave, w, 'wavelengths')
    if c['one']:
        same(g.spec1D.extraction_spatial_profile, p0[l:l+n], 'extraction profile')
    return n < ny-1 or not c['dither'], ['dither' if c['dither'] else 'nodither', 'cut' if l else 'uncut']


s_spatial = st.fixed_dictionaries(dict(ny=st.integers(24, 48), nw=st.integers(5, 14), seed=seeds(), m=num(.35, .65, 3), sig=num(1.2, 2.8, 2), off=num(12, 18, 1),
                                       dither=st.booleans(), noise=st.sampled_from([.01, .5, 2.]), one=st.booleans(), dy=st.integers(-1, 1)))


def lib(f):
    return mio.get_param_filename(f)


def t_tables(c):
    g = c['group']
    if g in LINES:
        names = LINES[g]
        check(list(mio.read_line_names(lib('line_names_cat.dat'), name=g)) == names, 'components of %s' % g)
        for n in names:
            close(mio.read_restwave(lib('line_wavelengths_ratios.dat'), linename=n), WAVE[n], rtol=1e-9, what='wavelength of '+n)
            close(mio.read_line_ratio(lib('line_wavelengths_ratios.dat'), linename=n), RATIO[n], rtol=1e-6, what='ratio of '+n)
        s = ObsSpectrum2D(linegroup_name=g)
        if c['explicit']:
            s = ObsSpectrum2D(linenames_arr=names[::-1])
            names = names[::-1]
        s.initialize_lineset()
        check(list(s.linenames_arr) == names, 'line set of %s' % g)
        close(s.restwave_arr, [WAVE[n] for n in names], rtol=1e-9, what='wavelengths of the line set')
        close(s.flux_ratio_arr, [RATIO[n] for n in names], rtol=1e-6, what='ratios of the line set')
        b = c['band']
        s.band = b
        s.initialize_skylevels()
        check(float(s.band_cutoff) == BAND[b] and s.band_cutoff_units == 'timesMedianErr', 'sky cutoff of band %s' % b)
        for n in list(TRIM1):
            close(mio.read_wave_range(lib('trim_wavelengths_1D.param'), linename=n), TRIM1[n], rtol=1e-9, what='1D window of '+n)
        for n in LINE2:
            for f, tab in (('line_range_restwave_2D.param', LINE2), ('full_range_restwave_2D.param', FULL2), ('mask_lines_range_restwave_2D.param', MASK2)):
                close(mio.read_wave_range(lib(f), linename=n), tab[n], rtol=1e-9, what='%s of %s' % (f, n))
    else:
        bad = c['bad']
        for what, fn in (('line group', lambda: mio.read_line_names(lib('line_names_cat.dat'), name=bad)),
                         ('line', lambda: mio.read_restwave(lib('line_wavelengths_ratios.dat'), linename=bad)),
                         ('ratio', lambda: mio.read_line_ratio(lib('line_wavelengths_ratios.dat'), linename=bad)),
                         ('range', lambda: mio.read_wave_range(lib('line_range_restwave_2D.param'), linename=bad)),
                         ('band', lambda: mio.read_skyline_band_cutoff(lib('band_sky_cutoff_mosfire.dat'), band=bad)),
                         ('group of a spectrum', lambda: ObsSpectrum2D(linegroup_name=bad).initialize_lineset()),
                         ('band of a spectrum', lambda: ObsSpectrum2D(band=bad).initialize_skylevels())):
            raises(ValueError, fn, 'unknown %s %r' % (what, bad))
    # random tables
    r = rng(c['seed'])
    n = 1+c['seed'] % 6
    names = ['%s%d' % (chr(65+k), r.randint(1000, 9999)) for k in range(n)]
    wv, ra, up = np.round(r.uniform(1000, 9000, n), 3), np.round(r.uniform(.01, 2, n), 4), np.round(r.uniform(9001, 9900, n), 2)
    d = os.environ.get('PBT_SCRATCH', tempfile.gettempdir())
    f1, f2, f3, f4 = [os.path.join(d, 'tab%d-%d.dat' % (k, os.getpid())) for k in range(4)]
    with open(f1, 'w') as o:
        o.write('# linename restwave strength\n'+''.join('%s %.3f %.4f\n' % x for x in zip(names, wv, ra)))
    with open(f2, 'w') as o:
        o.write('# linename wave_l wave_u\n'+''.join('%s %.3f %.2f\n' % x for x in zip(names, wv, up)))
    with open(f3, 'w') as o:
        o.write('# name lineset\n'+''.join('G%d %s\n' % (k, ','.join(names[:k+1])) for k in range(n)))
    with open(f4, 'w') as o:
        o.write('# band sn_cutoff units\n'+''.join('%s %.4f u%d\n' % (names[k], ra[k], k) for k in range(n)))
    for k in range(n):
        check(float(mio.read_restwave(f1, linename=names[k])) == wv[k], 'wavelength from a table')
        check(float(mio.read_line_ratio(f1, linename=names[k])) == ra[k], 'ratio from a table')
        same(mio.read_wave_range(f2, linename=names[k]), [wv[k], up[k]], 'range from a table')
        check(list(mio.read_line_names(f3, name='G%d' % k)) == names[:k+1], 'group from a table')
        cut, u = mio.read_skyline_band_cutoff(f4, band=names[k])
        check(float(cut) == ra[k] and str(u) == 'u%d' % k, 'cutoff from a table')
    raises(ValueError, lambda: mio.read_restwave(f1, linename='G0'), 'missing line')
    raises(ValueError, lambda: mio.read_line_ratio(f1, linename='G0'), 'missing line')
    raises(ValueError, lambda: mio.read_wave_range(f2, linename='G0'), 'missing line')
    raises(ValueError, lambda: mio.read_line_names(f3, name=names[0]), 'missing group')
    return True, ['group' if g in LINES else 'unknown']


s_tables = st.fixed_dictionaries(dict(group=st.sampled_from(sorted(LINES)+['?', '?']), explicit=st.booleans(), band=st.sampled_from('KHJY'), seed=seeds(),
                                      bad=st.one_of(st.sampled_from(['halpha', 'HA6564', '', 'Halpha ', 'L', 'OIII5007']),
                                                    st.text('ABCHaOI0123456789', min_size=1, max_size=6).map(lambda x: x+'?'))))

SUBS = [Sub('wavelength', s_trim, t_trim, 4000, 60000), Sub('refusals', s_trim, t_refuse, 200, 6000), Sub('spatial', s_spatial, t_spatial, 800, 8000),
        Sub('tables', s_tables, t_tables, 150, 3000)]
