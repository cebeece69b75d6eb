"""C14: masks."""
from .buildprep import *
from misfit.general import galaxy_utils as gu

PROPERTY = 'C14'
RULE = ('Random 1D and 2D spectra with non-finite values, zero errors, zero weights, sky columns, faint rows and missing ends; oracle: element-wise definitions of '
        'each mask written as explicit loops, applied to the stand-alone mask functions and to the whole preparation of a spectrum. Non-trivial: the mask excludes '
        'some but not all pixels.')
ASSUMPTIONS = ['threshold ties within 1e-9 are not judged', 'in the preparation step zero 2D errors only occur at masked pixels']


def arr(c, two):
    r = rng(c['seed'])
    sh = (c['ny'], c['n']) if two else (c['n'],)
    f = r.normal(size=sh)
    e = r.uniform(.1, 2, size=sh)
    w = r.uniform(.1, 2, size=sh)
    m = (r.uniform(size=sh) > c['pm']).astype(float)
    k = r.uniform(size=sh)
    p = c['p']
    f[k < p] = [np.nan, np.inf, -np.inf, np.nan][c['bad']]
    e[(k > .2) & (k < .2+p)] = [np.nan, np.inf, 0., 0.][c['bad']]
    e[(k > .4) & (k < .4+p)] = 0.
    w[(k > .6) & (k < .6+p)] = 0.
    f[(k > .8) & (k < .8+p)] = 0.
    if c['allzero']:
        e[...] = 0.
        if c['bad'] == 1 and e.size:
            e.ravel()[0] = np.nan
    return f, e, w, m, r


def t_missing(c):
    f, e, w, m, r = arr(c, c['two'])
    kw = dict(spec=f, spec_err=e)
    if c['usew']:
        kw['spec_weight'] = w
    if c['usem']:
        kw['spec_mask'] = m
    if c['nfo'] is not None:
        kw['nonfinite_only'] = c['nfo']
    before = {k: np.copy(v) for k, v in kw.items()}
    got = gu.spec_mask_missing(**kw)
    zero = not c['nfo'] and any(not (v == 0) for v in e.ravel())
    want = np.ones(f.shape)
    for i in np.ndindex(f.shape):
        if (c['usem'] and m[i] == 0) or not math.isfinite(f[i]) or not math.isfinite(e[i]) or (c['usew'] and w[i] == 0) or (zero and e[i] == 0):
            want[i] = 0.
    same(got, want, 'missing-data mask')
    for k in before:
        same(kw[k], before[k], 'input '+k)
    return bool(0 < want.sum() < want.size), ['2D' if c['two'] else '1D', 'all-zero-errors' if c['allzero'] else 'errors', 'nfo' if c['nfo'] else 'all']


s_arr = st.fixed_dictionaries(dict(seed=seeds(), ny=st.integers(1, 5), n=st.integers(1, 30), pm=st.sampled_from([0., .1, .5]), p=st.sampled_from([0., .03, .15]),
                                   bad=st.integers(0, 3), allzero=st.sampled_from([False]*5+[True]), two=st.booleans(), usew=st.booleans(), usem=st.booleans(),
                                   nfo=st.sampled_from([None, True, False]), num=st.one_of(st.integers(0, 5), st.integers(0, 40)), fill=st.sampled_from([None, -99., 7., 0.]),
                                   mz=st.booleans(), ma=st.booleans(), lead=st.integers(0, 6), trail=st.integers(0, 6)))


def t_fill(c):
    f, e, w, m, r = arr(c, c['two'])
    m0, f0 = m.copy(), f.copy()
    kw = {} if c['fill'] is None else dict(fill_value=c['fill'])
    fill = -99. if c['fill'] is None else c['fill']
    got = gu.spec_nan_masking(flux=f, spec_mask=m, mask_zero=c['mz'], mask_all_masked=c['ma'], **kw)
    want = f0.copy()
    n = 0
    for i in np.ndindex(f.shape):
        if m[i] == 0 and (c['ma'] or not math.isfinite(f0[i]) or (c['mz'] and f0[i] == 0)):
            want[i] = fill
            n += 1
    same(got, want, 'filled values')
    same(f, f0, 'input values')
    same(m, m0, 'input mask')
    return n > 0, ['all-masked' if c['ma'] else 'nonfinite']


def t_edges(c):
    f, e, w, m, r = arr(c, False)
    m[:min(c['lead'], len(m))] = 0.
    if c['trail']:
        m[-c['trail']:] = 0.
    m0 = m.copy()
    want = edges(m, c['num'])
    same(gu.mask_edges_1D(spec=f, spec_err=e, spec_mask=m, num_edge=c['num']), want, 'mask with %d edge pixels excluded from %s' % (c['num'], m0))
    same(m, m0, 'input mask')
    s = ObsSpectrum1D(wave=np.arange(len(f))+5000., flux=f, flux_err=e, spec_mask=m, num_mask_edge=c['num'])
    s.mask_edges()
    same(s.spec_mask, want, 'spectrum with edges excluded')
    same(m, m0, 'input mask')
    return bool(0 < want.sum() < m0.sum()), ['edges']


def t_sky(c):
    r = rng(c['seed'])
    ny, n = c['ny'], c['n']
    f = r.normal(size=(ny, n))
    e = r.uniform(.5, 1.5, size=(ny, n))*np.where(r.uniform(size=n) < .3, c['x'], 1.)
    m = (r.uniform(size=(ny, n)) > c['pm']).astype(float)
    med = c['med']*math.sqrt(ny)
    m0, e0 = m.copy(), e.copy()
    cut = c['cut']
    lev = [math.sqrt(math.fsum(e[i, k]**2 for i in range(ny) if m[i, k] == 1)) for k in range(n)]
    if any(abs(x-cut*med) < 1e-9*med for x in lev):
        raise ref.Skip('tie')
    sky = [k for k in range(n) if lev[k] >= cut*med]
    want = m.copy()
    want[:, sky] = 0.
    got, ws, wn = gu.mask_skylines_2D(flux=f, err=e, weight=np.ones(f.shape), mask=m, band_cutoff=cut, median_err=med)

    def judge(got, ws, wn, what):
        same(got, want, what+'sky mask')
        same(np.sort(np.asarray(ws, dtype=int)), np.array(sky, dtype=int), what+'sky columns')
        same(np.sort(np.asarray(wn, dtype=int)), np.setdiff1d(np.arange(n), sky), what+'sky-free columns')
        same(m, m0, what+'input mask')
        same(e, e0, what+'input errors')
    judge(got, ws, wn, '')
    s = ObsSpectrum2D(wave=np.arange(n)+5000., flux=f, flux_err=e, spec_mask=m, spec_weight=np.ones(f.shape))
    s.band_cutoff, s.median_flux_error = cut, med
    s.get_skyline_mask()
    judge(s.mask_sky, s.wh_sky, s.wh_nosky, 'spectrum: ')
    same(s.mask_qual, m0, 'quality mask')
    raises(ValueError, lambda: gu.mask_skylines_2D(flux=f, err=e, mask=m, band_cutoff=cut, median_err=med, band_cutoff_units=c['units']), 'unknown cutoff units')
    k, q = gu.wh_skylines_1D(e[0], cutoff=cut, median_err=c['med'], full=True)
    w = [j for j in range(n) if e[0, j] >= cut*c['med']]
    if not any(abs(x-cut*c['med']) < 1e-9 for x in e[0]):
        same(np.asarray(q, dtype=int), np.array(w, dtype=int), '1D sky samples')
        same(np.asarray(k, dtype=int), np.setdiff1d(np.arange(n), w), '1D sky-free samples')
    return 0 < len(sky) < n, ['sky']


s_sky = st.fixed_dictionaries(dict(seed=seeds(), ny=st.integers(1, 6), n=st.integers(1, 30), x=num(1.2, 12, 1), pm=st.sampled_from([0., .1, .4]), med=num(.6, 1.4, 2),
                                   cut=num(1, 5, 1), units=st.sampled_from(['sigma', 'TimesMedianErr', ''])))


def t_low(c):
    r = rng(c['seed'])
    ny, nw = c['ny'], c['nw']
    # S/N of each row from a string of segments
    lev, k = [], 0
    for seg, hi in c['segs']:
        lev += [(c['cut']*r.uniform(1.5, 9) if hi else c['cut']*r.uniform(0, .8)) for _ in range(seg)]
    lev = np.array((lev*ny)[:ny])
    e = r.uniform(.5, 1.5, size=(ny, nw))
    m = (r.uniform(size=(ny, nw)) > c['pm']).astype(float)
    calc = m.copy()
    calc[:, r.uniform(size=nw) < .15] = 0.
    if c['dead']:
        calc[r.randint(ny)] = 0.
    f = r.normal(size=(ny, nw))
    for i in range(ny):
        q = calc[i] == 1
        if q.any():
            f[i, q] += (lev[i]*math.sqrt((e[i, q]**2).sum())*r.choice([-1, 1]) - f[i, q].sum())/q.sum()
    f[calc == 0] = r.normal(size=(calc == 0).sum())*1e4        # excluded pixels are irrelevant
    f0, m0 = f.copy(), m.copy()
    low, snr, tie = reflow(f, e, calc, c['cut'])
    if tie:
        raise ref.Skip('tie')
    want = m.copy()
    want[low] = 0.
    got, inds = gu.mask_low_snr_rows_2D(flux=f, err=e, mask=m, mask_calc=calc, snr_cut=c['cut'])
    same(np.sort(np.asarray(inds, dtype=int)), low, 'excluded rows for S/N %s' % np.round(snr, 3))
    same(got, want, 'low S/N mask')
    same(f, f0, 'input flux')
    same(m, m0, 'input mask')
    s = ObsSpectrum2D(wave=np.arange(nw)+5000., flux=f, flux_err=e, spec_mask=m)
    s.mask_qual, s.mask_sky, s.row_snr_cut = m, calc, c['cut']
    s.get_low_snr_mask()
    same(s.mask_low_snr, want, 'low S/N mask of the spectrum')
    same(np.sort(np.asarray(s.low_snr_row_inds, dtype=int)), low, 'excluded rows of the spectrum')
    same(m, m0, 'input mask')
    return 0 < len(low) < ny, ['runs%d' % min(len(c['segs']), 6)]


s_low = st.fixed_dictionaries(dict(seed=seeds(), ny=st.integers(1, 24), nw=st.integers(1, 8), segs=st.lists(st.tuples(st.integers(1, 6), st.booleans()), min_size=1, max_size=7),
                                   pm=st.sampled_from([0., .1]), dead=st.sampled_from([False, False, True]), cut=num(.5, 5, 1)))


def t_prep(c):
    d = raw(c)
    m, m1 = refmask(c, d)
    cols, sky, tie, med = refsky(c, d, m)
    if tie or len(cols) < 3:
        raise ref.Skip('tie')
    if m1 is not None and not (m1 == 1).any():
        raise ref.Skip('no good 1D data')
    before = {k: np.copy(v) for k, v in d.__dict__.items() if isinstance(v, np.ndarray)}
    g, s, ins = objects(c, d)
    s.fit_prep_calcs(g, ins)
    for k in before:
        same(getattr(d, k), before[k], 'caller\'s array '+k)
    close(s.median_flux_error, med, rtol=1e-9, what='median error level')
    a, b = s.full_l_ind, s.full_r_ind
    n = s.flux.shape[0]
    q = m[:, cols]
    close(s.wave, d.wave[cols], rtol=1e-13, what='wavelengths kept')
    same(s.mask_qual, q[a:b], 'quality mask')
    sk = q.copy()
    sk[:, sky] = 0.
    same(s.mask_sky, sk[a:b], 'sky mask')
    same(np.sort(np.asarray(s.wh_sky, dtype=int)), np.where(sky)[0], 'sky columns')
    same(np.sort(np.asarray(s.wh_nosky, dtype=int)), np.where(~sky)[0], 'sky-free columns')
    # finite everywhere, and unchanged where good
    check(np.all(np.isfinite(s.flux)) and np.all(np.isfinite(s.flux_err)), 'prepared spectrum is not finite')
    check(np.all(s.flux_err != 0), 'prepared errors contain zero')
    good = q[a:b] == 1
    same(s.flux_err[good], d.err[:, cols][a:b][good], 'errors of good pixels')
    same(s.flux_incl_cont[good], d.flux[:, cols][a:b][good], 'flux of good pixels')
    # low S/N rows: in terms of the continuum-subtracted flux
    full = d.flux[:, cols].copy()
    full[a:b] = s.flux
    known = a == 0 and b == c['ny']
    mm = s.spec_mask
    rows = [i for i in range(n) if good[i].any()]
    for i in rows:
        check(np.array_equal(mm[i], q[a:b][i]) or not mm[i].any(), lambda: 'row %d is only partly excluded' % i)
    rcut = c.get('rcut') or 2.
    low, snr, tie = reflow(s.flux, s.flux_err, s.mask_sky, rcut)
    if not tie:
        same(np.sort(np.asarray(s.low_snr_row_inds, dtype=int)), low, 'low S/N rows after trimming')
        k = 0
        # rows below the threshold on their own are excluded whatever the surroundings
        for i in rows:
            if not (snr[i] >= rcut):
                check(not mm[i].any(), 'row %d of S/N %.3g is not excluded' % (i, snr[i]))
                k += 1
    return bool((q == 0).any() and (q == 1).any()), ['dither' if c['dither'] else 'nodither', 'nocont' if c['nocont'] else 'cont', 'sky' if sky.any() else 'nosky']


@st.composite
def s_prep(draw):
    c = draw(prep_cfg())
    c['bcut'] = draw(st.sampled_from([None, None, 1.5, 5., 10., 1e4]))       # the user's own thresholds
    c['rcut'] = draw(st.sampled_from([None, None, .7, 3.5, 8.]))
    return c


SUBS = [Sub('missing', s_arr, t_missing, 1000, 40000), Sub('fill', s_arr, t_fill, 500, 20000), Sub('edges', s_arr, t_edges, 600, 20000),
        Sub('sky', s_sky, t_sky, 600, 20000), Sub('low-snr', s_low, t_low, 900, 40000), Sub('preparation', s_prep(), t_prep, 400, 8000)]
