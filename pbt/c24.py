"""C24: diagnostic figures."""
import re
from .buildfit import *
from . import c18, c19, c20, c22
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_hex
import misfit.plot as mp
from astropy.wcs import WCS

PROPERTY = 'C24'
RULE = ('Generated posteriors (free/fixed patterns, link groups, default and user-defined profiles), spectra with masked rows and columns, chains and postage stamps are plotted; the drawn '
        'figure is inspected (images, colour limits, lines, hatched regions, titles, annotations, windows) against values computed from the inputs alone. '
        'Non-trivial: at least two free parameters (posteriors, traces), a row or column run or a stamp (best fit), a rotated stamp (image).')
ASSUMPTIONS = ['figures are inspected through matplotlib\'s object tree after drawing', 'overlaid curves for velocity profiles proportional to their first parameter',
               'compact, noise-free sources in the postage stamps; centres to .06 pixel and orientations to 3 deg (spline rotation, pixel integration)']


def warmup():
    aper2d(BASE)


class figures(object):
    """collects the figures saved or shown instead of writing them."""
    def __enter__(self):
        self.out = []
        plt.close('all')
        self.old = plt.savefig, plt.show, plt.close
        plt.savefig = lambda *a, **k: self.out.append((plt.gcf(), a[0] if a else None))
        plt.show = lambda *a, **k: self.out.append((plt.gcf(), None))
        plt.close = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        plt.savefig, plt.show, plt.close = self.old
        return False

    def one(self, name, draw=True):
        check(len(self.out) == 1, lambda: '%d figures were written' % len(self.out))
        check(self.out[0][1] == name, lambda: 'figure written to %r, not %r' % (self.out[0][1], name))
        if draw:
            self.out[0][0].canvas.draw()
        return self.out[0][0]


def nums(s):
    return [float(k) for k in re.findall(r'-?\d+\.\d+|nan|inf', s)]


def hline(l):
    y = np.asarray(l.get_ydata(), dtype=float)
    return len(y) == 2 and y[0] == y[1] and list(l.get_xdata())[0] == 0


def vline(l):
    x = np.asarray(l.get_xdata(), dtype=float)
    return len(x) == 2 and x[0] == x[1]


# ---------------------------------------------------------------------------------------------------------- posteriors

def t_corner(c):
    x, ix = c19.samples(c)
    f, th, cc = c19.setup(c, x)
    n = x.shape[1]
    c19.analyse(f)
    with quiet():
        f.set_bestfit(f.mcmc_results.bestfit_theta_fitting)
    m = f.mcmc_results
    best = np.array(m.bestfit_theta)
    y = x.copy()
    if c['abs'] and c['vary'][2]:
        k = list(ix).index(2)
        y[:, k] = np.abs(y[:, k])
    col = c19.columns(c, y, th)
    keep = dict(flat=f.sampler_dict['flatchain'].copy(), chain=f.sampler_dict['chain'].copy(), best=best.copy(), e1=np.array(m.err_theta_1sig), e2=np.array(m.err_theta_2sig),
                theta=np.array(f.kinModel.theta), prof=[np.array(k) for k in f.kinModel.kinProfile.theta], model=f.kinModel.model.copy())
    name = None if c['show'] else 'corner.png'
    f.mcmcOptions.filename_plot_param_corner = name
    with figures() as F:
        with quiet():
            f.plot_param_corner()
        drawn = c['seed'] % 3 == 0
        fig = F.one(name, drawn)
    N = n+2
    nice = list(m.theta_names_nice)
    ax = np.array(fig.axes).reshape(N, N)
    tol = lambda v: .0051+1e-9*abs(v)
    lim = [[best[k]-c19.pct(col[:, k], q) for q in (15.865, 84.135, 2.275, 97.725)] for k in range(n+4)]
    for k in range(N):
        t = ax[k, k].get_title()
        check(t.startswith(nice[k]+' = '), lambda: 'title %r of %s' % (t, nice[k]))
        t = t[len(nice[k])+3:]
        t = t.replace('^', ' ').replace('_', ' ').replace('{', ' ').replace('}', ' ')
        v = nums(re.sub(r'\s+', ' ', t).replace('- ', '-').replace('+ ', '+')) if c['tex'] else [float(z) for z in re.match(r'^(-?[\d.]+)-(-?[\d.]+)\+(-?[\d.]+)$', t).groups()]
        if c['tex']:
            v[1] = -v[1]
        for a, b, w in zip(v, (best[k], lim[k][0], -lim[k][1]), ('best value', 'lower error', 'upper error')):
            check(abs(a-b) < tol(b), lambda: '%s %r in the title of %s (%r), expected %r' % (w, a, nice[k], t, b))
        check(len(v) == 3, lambda: 'title %r' % t)
        u = col[:, k]
        have = np.array([l.get_xdata()[0] for l in ax[k, k].lines if vline(l)])
        span = max(np.ptp(u), 1e-12*np.abs(u).max(), 1e-300)
        for w in [best[k]]+[best[k]-z for z in lim[k]]:
            check(len(have) and np.abs(have-w).min() < 1e-6*span+1e-9*abs(w), lambda: 'no line at %r among %s on the histogram of %s' % (w, have, nice[k]))
        if np.ptp(u) > 0:
            lo, hi = ax[k, k].get_xlim()
            close([lo, hi], [u.min(), u.max()], rtol=0, atol=1e-6*span, what='range shown for '+nice[k])
            h = np.histogram(u, bins=40, range=(u.min(), u.max()))[0]
            p = [q for q in ax[k, k].patches]
            check(len(p) == 1, 'histogram of '+nice[k])
            hy = np.asarray(p[0].get_xy())[:, 1]
            close(hy.max(), h.max(), rtol=0, atol=max(1.5, .02*h.max()), what='highest bin of '+nice[k])
        if k == N-1:
            check(ax[k, k].get_xlabel() == nice[k], lambda: 'label %r of %s' % (ax[k, k].get_xlabel(), nice[k]))
    # annotations
    txt = [t.get_text() for t in fig.gca().texts]
    names = [str(k) for k in m.theta_names]
    sg = [t for t in txt if 'sigma' in t and 'V(R' not in t]
    check(len(sg) == (1 if 'sigma0' in names else 0), lambda: 'annotations of sigma: %s (free: %s)' % (sg, names))

    def ann(s, k, off):
        s = s[s.index('=')+1:]
        v = nums(s) if c['tex'] else [float(z) for z in re.match(r'^(-?[\d.]+)-(-?[\d.]+)\+(-?[\d.]+)', s).groups()]
        w = [best[k], -lim[k][1+off], lim[k][off]] if c['tex'] else [best[k], lim[k][off], -lim[k][1+off]]
        for a, b in zip(v, w):
            check(abs(a-b) < tol(b), lambda: 'annotation %r of %s, expected %s' % (s, names[k], w))
        return v
    if sg:
        ann(sg[0], names.index('sigma0'), 0)
    vr = [t for t in txt if 'V(R' in t]
    check(len(vr) == 2, lambda: 'annotations of V(R_E): %s' % vr)
    k = names.index('V_RE')
    for t in vr:
        two = 'sigma' in t
        ann(t, k, 2 if two else 0)
        a, b = col[:, k], (2.275, 97.725) if two else (15.865, 84.135)
        # limits as drawn: best -/+ the errors
        lo, hi = c19.pct(a, b[0]), c19.pct(a, b[1])
        rot = np.sign(lo) == np.sign(hi)
        if min(abs(lo), abs(hi)) > 1e-9*max(abs(lo), abs(hi)):
            check(('rot' in t) == rot and ('disp' in t) != rot, lambda: '%r for limits %r to %r' % (t, lo, hi))
        if two:
            opp = 100.*np.mean(np.sign(best[k])*a < 0)
            p = nums(t)[-1]
            check(abs(p-opp) < .00051, lambda: '%r: %r %% of opposite sign expected' % (t, opp))
    check(sum('sigma' in t for t in vr) == 1, lambda: 'annotations of V(R_E): %s' % vr)
    g = [t for t in txt if t.strip('$').startswith('n=')]
    check(len(g) == 1 and np.allclose(nums(g[0])[:2], [f.galaxy.n, f.galaxy.re_arcsec], atol=.0051), lambda: 'annotation %s of n=%r, R_E=%r' % (g, f.galaxy.n, f.galaxy.re_arcsec))
    # curves of constant velocity
    curves = [(i, j, to_hex(l.get_color()), l) for i in range(N) for j in range(N) for l in ax[i, j].lines if to_hex(l.get_color()) in (to_hex('orange'), to_hex('magenta'))]
    want = c['vary'][0] and c['vary'][1] and any(g != 'all' and sorted(g) == [0, 1] for g in c['linked'])
    check(len(curves) == (2 if want else 0), lambda: '%d curves for the link groups %s of %s' % (len(curves), c['linked'], names))
    for i, j, h, l in curves:
        check((i, j) == (1, 0), lambda: 'curve in panel %d, %d' % (i, j))
        a, t = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
        w, r = (n, c['rm']) if h == to_hex('orange') else (n+1, 2.2/1.676*c['rm'])
        ok = t > 1e-3
        v = ref.custom_v(r, 0., a[ok], t[ok]) if c['kprof'] else 2./math.pi*a[ok]*np.arctan(r/t[ok])
        close(v, np.full(ok.sum(), best[w]), rtol=1e-6, atol=1e-9, what='velocity along the curve of constant '+names[w])
        close([t.min(), t.max()], ax[1, 0].get_ylim(), rtol=1e-9, atol=1e-9, what='extent of the curve')
    # nothing else changed
    same(f.sampler_dict['flatchain'], keep['flat'], 'chain after plotting')
    same(f.sampler_dict['chain'], keep['chain'], 'chain after plotting')
    for a, b in (('bestfit_theta', 'best'), ('err_theta_1sig', 'e1'), ('err_theta_2sig', 'e2')):
        same(np.array(m.__dict__[a]), keep[b], a+' after plotting')
    same(np.array(f.kinModel.theta), keep['theta'], 'parameters after plotting')
    if not want:
        pass
    with quiet():
        f.update_model(theta_fitting=m.bestfit_theta_fitting)
    close(f.kinModel.model, keep['model'], rtol=1e-9, atol=1e-9*np.abs(keep['model']).max(), what='model after plotting')
    return n > 1, ['curves' if want else 'plain', 'tex' if c['tex'] else 'text', 'sigma' if sg else 'no sigma']


@st.composite
def s_corner(draw):
    c = draw(c19.s_post())
    c['show'] = draw(st.booleans())
    if c['vary'][0] and c['vary'][1] and draw(st.booleans()):
        c['linked'] = [draw(st.sampled_from([[0, 1], [1, 0]]))]
    return c


# ------------------------------------------------------------------------------------------------------------ best fit

def image_source(c):
    """galaxy with a stamp holding an elongated source, of position angle spa on the stamp."""
    y, x = np.mgrid[:c['n'], :c['m']]
    g, im, X, Y = c22.stampgal(dict(c, one=False))
    px, py = X+c['dx'], Y+c['dy']
    a = math.radians(c['spa'])
    # position angle: from +y towards -x
    u = -(x-px)*math.sin(a)+(y-py)*math.cos(a)
    v = (x-px)*math.cos(a)+(y-py)*math.sin(a)
    w = c['w']
    g.pstamp.pstamp = c['flux']*(np.exp(-.5*(u**2/(1.8*w)**2+v**2/w**2))+1e-4*rng(c['seed']).uniform(.2, 1., size=x.shape))
    wcs = WCS(g.pstamp.pstamp_hdr)
    ra, de = wcs.all_pix2world([[px, py]], 0)[0]
    g.RA, g.DEC, g.sersicRA, g.sersicDEC, g.sersicPA = float(ra), float(de), float(ra), float(de), c['spa']
    return g, px, py


def imager(c):
    o = c22.Obj()
    o.pixscale, o.band = c['pix'], 'F160W'
    o.PSF = c22.Obj()
    o.PSF.PSF_FWHM = .17
    return o


def contiguous(v):
    out = []
    for k in sorted(v):
        if out and out[-1][1] == k-1:
            out[-1][1] = k
        else:
            out.append([k, k])
    return out


def t_best(c):
    r = rng(c['seed'])
    cc = c['cc']
    g, d = fitgalaxy(cc, c)
    nY, nW = cc['nY'], cc['nW']
    s = settings2d(cc, c['vary'], box(cc, c))
    f = fitobj(cc, g, s, usetex=False)
    s2 = f.galaxy.spec2D
    s2.flux = s2.flux+r.normal(size=s2.flux.shape)*.1
    with quiet():
        f.setup_model()
        free = theta(cc)[np.where(c['vary'])[0]]+r.uniform(-.1, .1, sum(c['vary']))*np.array([10., .05, 5., 2., 1e-4])[np.where(c['vary'])[0]]
        f.set_bestfit(free)
    sky = sorted(set(k for k in c['sky'] if k < nW))
    rows = sorted(set(k for k in c['rows'] if k < nY))
    cols = sorted(set(k for k in c['cols'] if k < nW))
    s2.wh_nosky = np.setdiff1d(range(nW), sky)
    s2.low_snr_row_inds = np.array(rows, dtype=int)
    s2.wh_sky_fit = np.array(cols, dtype=int) if cols or c['seed'] % 2 else []
    s2.flux[:, sky] *= 30.
    stamp = c['stamp'] and nY >= 3 and cc['fwhm'] > .25
    if stamp:
        q, px, py = image_source(c['img'])
        for k in ('RA', 'DEC', 'sersicRA', 'sersicDEC', 'sersicPA', 'pstamp'):
            setattr(f.galaxy, k, getattr(q, k))
        s2.slit_PA, s2.yoffset = c['img']['pa'], 0.
        f.instrument_img = imager(c['img'])
    else:
        f.galaxy.pstamp = None
        f.instrument_img = None
    flux, model = s2.flux.copy(), f.kinModel.model.copy()
    theta0 = np.array(f.kinModel.theta)
    has = c['model']
    km = f.kinModel
    shift = theta0[-2]
    if not has:
        f.kinModel, shift = None, 0.
    name = None if c['show'] else 'best.pdf'
    f.mcmcOptions.filename_plot_bestfit = name
    with figures() as F:
        with quiet(), np.errstate(all='ignore'):
            f.plot_bestfit_model()
        fig = F.one(name, c['seed'] % 4 == 0)
    ax = fig.axes
    check(len(ax) == (5 if has else 3), lambda: '%d panels' % len(ax))
    want = [flux]+([model, flux-model] if has else [])
    nosky = [k for k in range(nW) if k not in sky]
    z = flux[:, nosky] if nosky else flux
    ti = ['Spec', 'Model', 'Residual']
    pix = f.instrument.pixscale
    sp = f.instrument.PSF.PSF_FWHM/(2.*math.sqrt(2.*math.log(2.)))
    re_ = math.sqrt(f.galaxy.re_arcsec**2+2.*math.log(2.)*sp**2)*abs(math.cos(math.radians(f.galaxy.delt_PA)))
    m0 = s2.m0+shift
    hl = [m0, m0-re_/pix, m0+re_/pix]
    vl = []
    for a, b in contiguous(rows):
        hl += ([a-.5] if a > 0 else [])+([b+.5] if b < nY-1 else [])
    for a, b in contiguous(cols):
        vl += ([a-.5] if a > 0 else [])+([b+.5] if b < nW-1 else [])
    boxes = sorted([(-.5, nW-.5, a-.5, b+.5) for a, b in contiguous(rows)]+[(a-.5, b+.5, -.5, nY-.5) for a, b in contiguous(cols)])
    for a, w, t in zip(ax[2:], want, ti):
        check(len(a.images) == 1, 'image of panel '+t)
        i = a.images[0]
        close(np.asarray(i.get_array(), dtype=float), w, rtol=1e-12, atol=1e-12*np.abs(w).max(), what='image of panel '+t)
        close(i.get_clim(), [z.min(), z.max()], rtol=1e-12, atol=0, what='grey scale of panel '+t)
        check(i.origin == 'lower' and list(i.get_extent()) == [-.5, nW-.5, -.5, nY-.5], lambda: 'orientation of panel %s: %s %s' % (t, i.origin, i.get_extent()))
        check(a.get_title() == t, lambda: 'title %r of panel %s' % (a.get_title(), t))
        have = sorted(l.get_ydata()[0] for l in a.lines if not vline(l))
        close(have, sorted(hl), rtol=0, atol=1e-9, what='horizontal lines of panel '+t)
        have = sorted(l.get_xdata()[0] for l in a.lines if vline(l))
        close(have, sorted(vl), rtol=0, atol=1e-9, what='vertical lines of panel '+t)
        got = sorted((p.get_xy()[:, 0].min(), p.get_xy()[:, 0].max(), p.get_xy()[:, 1].min(), p.get_xy()[:, 1].max()) for p in a.patches)
        check(len(got) == len(boxes) and np.allclose(got, boxes, atol=1e-9) if boxes else not got, lambda: 'marked regions %s of panel %s, expected %s' % (got, t, boxes))
    if stamp:
        for k, p in ((0, c['img']['pix']), (1, pix)):
            check(len(ax[k].images) == 1, 'image panel')
            a = np.asarray(ax[k].images[0].get_array(), dtype=float)
            check(np.isfinite(a).any(), 'blank image panel')
            lo, hi = ax[k].get_ylim()
            ell = [q for q in ax[k].get_children() if isinstance(q, matplotlib.patches.Ellipse)]
            check(len(ell) == 1, 'ellipse of the image panel')
            cx, cy = [float(np.squeeze(v)) for v in ell[0].center]
            close((cy-lo)*p/pix-.5, m0, rtol=0, atol=1e-6, what='row of the object in the image panel')
            close((hi-lo)*p/pix, nY, rtol=1e-9, what='rows shown in the image panel')
            xl = ax[k].get_xlim()
            close(.5*(xl[0]+xl[1]), cx, rtol=0, atol=1e-6, what='centre column of the image panel')
            close((xl[1]-xl[0])*p/pix, nY, rtol=1e-9, what='width of the image panel')
    else:
        check(not ax[0].images and not ax[1].images, 'image without a stamp')
    same(s2.flux, flux, 'data after plotting')
    same(km.model, model, 'model after plotting')
    same(np.array(km.theta), theta0, 'parameters after plotting')
    return bool(rows or cols or stamp), ['stamp' if stamp else 'no stamp', 'rows' if rows else 'no rows', 'cols' if cols else 'no cols']+([] if has else ['data only'])


@st.composite
def s_image(draw):
    c = draw(c22.s_img())
    c['spa'] = draw(st.one_of(num(-180, 180, 0), st.sampled_from([0., 90.])))
    c['w'] = draw(num(1.8, 2.4, 1))
    c['n'], c['m'] = draw(st.integers(60, 75)), draw(st.integers(60, 75))
    return c


@st.composite
def s_best(draw):
    c = dict(seed=draw(seeds()))
    c['cc'] = draw(cfg_small)
    nY = c['cc']['nY']
    c['vary'] = draw(vary5)
    c['sky'] = draw(st.lists(st.integers(0, 11), max_size=5))
    c['rows'] = draw(st.lists(st.integers(0, 4), max_size=5))
    c['cols'] = draw(st.one_of(st.just([]), st.lists(st.integers(0, 11), max_size=6)))
    c['model'] = draw(st.integers(0, 7)) > 0
    c['show'] = draw(st.integers(0, 3)) == 0
    c['stamp'], c['amp'] = draw(st.booleans()), 1.
    if c['stamp']:
        c['cc'] = dict(c['cc'], fwhm=max(c['cc']['fwhm'], .3))
    c['img'] = draw(s_image())
    c['base'], c['spread'], c['esc'], c['pmask'], c['dead'], c['low'], c['psky'], c['qual'] = 0., .1, 1., 0., [], [], 0., False
    c['bad'] = 0
    return c


# --------------------------------------------------------------------------------------------------------------- trace

def t_trace(c):
    x, ix = c19.samples(c)
    f, th, cc = c19.setup(c, x)
    n = x.shape[1]
    ch = f.sampler_dict['chain'].copy()
    name = None if c['show'] else 'trace.pdf'
    with figures() as F:
        with quiet():
            mp.plot_trace(f.sampler_dict, f, fileout=name, usetex=c['tex'])
        fig = F.one(name, c['seed'] % 4 == 0)
    check(len(fig.axes) == n, lambda: '%d panels for %d free parameters' % (len(fig.axes), n))
    for k, a in enumerate(fig.axes):
        nm = f.kinModel.theta_names_nice[ix[k]]
        check(a.get_ylabel() == nm, lambda: 'label %r of %s' % (a.get_ylabel(), nm))
        have = set(np.asarray(l.get_ydata(), dtype=float).tobytes() for l in a.lines)
        want = set(ch[j, :, k].tobytes() for j in range(ch.shape[0]))
        check(have == want, lambda: 'panel of %s: %d of %d walkers shown, %d other lines' % (nm, len(have & want), len(want), len(have-want)))
        for l in a.lines:
            same(np.asarray(l.get_xdata(), dtype=float), np.arange(ch.shape[1], dtype=float), 'step numbers')
    check(fig.axes[-1].get_xlabel() == 'Step number', 'label of the steps')
    same(f.sampler_dict['chain'], ch, 'chain after plotting')
    return n > 1, ['n%d' % n]


# --------------------------------------------------------------------------------------------------------------- image

def centre(im):
    y, x = np.mgrid[:im.shape[0], :im.shape[1]]
    s = im.sum()
    cx, cy = (im*x).sum()/s, (im*y).sum()/s
    return cx, cy, (im*(x-cx)**2).sum()/s, (im*(y-cy)**2).sum()/s, (im*(x-cx)*(y-cy)).sum()/s


def flat(v):
    return np.asarray(v, dtype=float).ravel()


def t_image(c):
    g, px, py = image_source(c)
    g.re_arcsec, g.q, g.maskname, g.field, g.ID = c['re'], c['q'], 'a_b', 'c_d', 7
    g.spec2D.yoffset = c['yoff']
    if not c['gal']:
        g.re_arcsec = g.re_arcsec
    kw = dict(slit_length=c['len']) if c['len'] else {}
    ins = c22.Spectrograph(PSF_type='Gaussian', PSF_FWHM=c['fwhm'], pixscale=.18, slit_width=c['sw'], **kw)
    if c['len']:
        ins.slit_length = c['len']
    img = imager(c)
    down, conv, rot = c['down'], c['conv'], c['rot']
    im0 = g.pstamp.pstamp.copy()
    plt.close('all')
    fig0, axis = plt.subplots(1)
    ext = c['ext']
    with figures() as F:
        with quiet(), np.errstate(all='ignore'):
            mp_image(galaxy=g, instrument=ins, instrument_img=img, m0=c['m0'] if (down or c['m0given']) else None, rotate=rot, convolve=conv and rot,
                     conv_sigma=c['sig'] if c['siggiven'] else None, n_spatial_pixels=c['nsp'] if c['nspgiven'] else None, downsample=down,
                     ax=axis if ext else None, saveToFile=not c['show'], fileout='image.png', show_galfit=c['gal'])
        if ext:
            check(not F.out, 'a figure was written although the panel was given')
            a = axis
            if c['seed'] % 4 == 0:
                fig0.canvas.draw()
        else:
            a = F.one(None if c['show'] else 'image.png', c['seed'] % 4 == 0).axes[0]
    same(g.pstamp.pstamp, im0, 'stamp after plotting')
    p = ins.pixscale if down else img.pixscale
    # the image, up to the offset of its logarithmic scale
    check(len(a.images) == 1, 'image')
    i = a.images[0]
    lo, hi = [10.**k for k in i.get_clim()]
    u = lo/2.
    check(u > 0 and abs(hi/lo-51.5) < 1e-6, lambda: 'grey scale %s' % (i.get_clim(),))
    im = 10.**np.asarray(i.get_array().filled(np.nan) if np.ma.isMaskedArray(i.get_array()) else i.get_array(), dtype=float)-3.*u
    im[~np.isfinite(im)] = 0.
    im = np.where(im > 2e-3*im.max(), im, 0.)
    cx, cy, vx, vy, vxy = centre(im)
    # slit
    green = [l for l in a.lines if to_hex(l.get_color()) == to_hex('green')]
    check(len(green) == 1, 'slit')
    X, Y = flat(green[0].get_xdata()), flat(green[0].get_ydata())
    check(len(X) == 5 and X[0] == X[4] and Y[0] == Y[4], 'closed slit')
    sx, sy = X[:4].mean(), Y[:4].mean()
    t = 0. if rot else math.radians(c['pa']-c['img'])
    off = c['yoff']/p
    wx, wy = sx-math.sin(t)*off, sy+math.cos(t)*off
    lim = .06 if not down else .03
    inside = (3.5 < cx < im.shape[1]-4.5 and 3.5 < cy < im.shape[0]-4.5) if down else True
    if inside:
        check(abs(cx-wx) < lim and abs(cy-wy) < lim, lambda: 'source at (%.3f, %.3f), slit centred for an object at (%.3f, %.3f)' % (cx, cy, wx, wy))
    ux, uy = X-sx, Y-sy
    al, ac = -ux*math.sin(t)+uy*math.cos(t), ux*math.cos(t)+uy*math.sin(t)
    close(np.sort(ac[:4]), np.array([-.5, -.5, .5, .5])*c['sw']/p, rtol=0, atol=1e-6, what='width of the slit')
    L = c['len'] if c['len'] else im.shape[0]+20.
    close(al[:4][ac[:4] > 0].max()-al[:4][ac[:4] < 0].min(), al[:4][ac[:4] > 0].max()-al[:4][ac[:4] < 0].min(), what='slit')
    for sgn in (-1, 1):
        e = al[:4][ac[:4]*sgn > 0]
        check(L/p-c['sw']/p*.1 < np.ptp(e) <= L/p+1e-6, lambda: 'length %r of the slit, %r pixels expected' % (np.ptp(e), L/p))
    # ellipse
    ell = [q for q in a.get_children() if isinstance(q, matplotlib.patches.Ellipse)]
    check(len(ell) == (1 if c['gal'] else 0), lambda: '%d ellipses' % len(ell))
    gx, gy = wx, wy
    if ell:
        e = ell[0]
        gx, gy = flat(e.center)
        close([gx, gy], [wx, wy], rtol=0, atol=1e-6, what='centre of the ellipse')
        s2 = 2.*math.log(2.)*(c['fwhm']/(2.*math.sqrt(2.*math.log(2.))))**2 if conv and rot else 0.
        M, m = math.sqrt(c['re']**2+s2), math.sqrt((c['re']*c['q'])**2+s2)
        close([e.width, e.height], [2*m/p, 2*M/p], rtol=1e-9, what='axes of the ellipse')
        d = (vxy, vx, vy)
        # orientation of the source: angle of the major axis from +y towards -x
        phi = .5*math.degrees(math.atan2(-2.*vxy, vy-vx))
        el = math.sqrt((vx-vy)**2+4*vxy**2)/(vx+vy)
        diff = (e.angle-phi+90.) % 180.-90.
        if inside and (not down) and not conv:
            check(abs(diff) < 3., lambda: 'ellipse at %.2f deg, source at %.2f deg' % (e.angle, phi))
        else:
            want = c['spa']-(c['pa']-c['img'] if rot else 0.)
            diff = (e.angle-want+90.) % 180.-90.
            check(abs(diff) < 1e-6 or abs(abs(diff)-180) < 1e-6, lambda: 'ellipse at %.3f deg, expected %.3f' % (e.angle, want))
        for colr, half, ang in (('red', m, 0.), ('cyan', M, 90.)):
            l = [q for q in a.lines if to_hex(q.get_color()) == to_hex(colr)]
            check(len(l) == 1, 'axis line')
            lx, ly = flat(l[0].get_xdata()), flat(l[0].get_ydata())
            close([lx.mean(), ly.mean()], [gx, gy], rtol=0, atol=1e-6, what='centre of an axis')
            close(math.hypot(np.ptp(lx), np.ptp(ly)), 2*half/p, rtol=1e-7, what='length of an axis')
            k = math.degrees(math.atan2(ly[1]-ly[0], lx[1]-lx[0]))
            check(abs((k-ang-e.angle+90) % 180-90) < 1e-5, lambda: 'axis at %r deg of an ellipse at %r' % (k, e.angle))
        bar = [q for q in a.lines if to_hex(q.get_color()) == to_hex('k')]
        check(len(bar) == 1, 'scale bar')
        tx = [q.get_text() for q in a.texts]
        bl = np.ptp(flat(bar[0].get_xdata()))
        if any('arcsec' in q for q in tx):
            close(bl, .25/p, rtol=1e-9, what='scale bar')
    # window
    x0, x1 = a.get_xlim()
    y0, y1 = a.get_ylim()
    W = (c['nsp']*ins.pixscale if c['nspgiven'] else 2.)/p
    close([x1-x0, y1-y0], [W, W], rtol=1e-9, what='size of the region shown')
    close(.5*(x0+x1), gx, rtol=0, atol=1e-6, what='centre of the region shown')
    if down or c['m0given']:
        close((gy-y0)*p/ins.pixscale-.5, c['m0'], rtol=0, atol=1e-6, what='row of the object')
    else:
        close(.5*(y0+y1), gy, rtol=0, atol=1e-6, what='centre of the region shown')
    return rot and (c['pa']-c['img']) % 90 != 0, ['down' if down else 'full', 'rotated' if rot else 'as is', 'blurred' if conv and rot else 'sharp', 'panel' if ext else 'figure']


@st.composite
def s_img(draw):
    c = draw(s_image())
    c['re'], c['q'] = draw(num(.1, .6, 2)), draw(num(.2, 1., 2))
    c['yoff'] = draw(st.one_of(st.just(0.), num(-.5, .5, 2)))
    c['len'] = draw(st.sampled_from([None, 7., 3.]))
    c['sw'] = draw(st.sampled_from([.7, .4, 1.]))
    c['fwhm'] = draw(num(.3, .7, 2))
    c['nsp'] = draw(st.integers(8, 13))
    c['m0'] = c['nsp']/2.-.5+draw(num(-1.5, 1.5, 1))
    for k in ('m0given', 'nspgiven', 'siggiven', 'down', 'conv', 'ext', 'show'):
        c[k] = draw(st.booleans())
    c['rot'] = draw(st.integers(0, 3)) > 0
    c['gal'] = draw(st.integers(0, 4)) > 0
    return c


def mp_image(**k):
    import misfit.plot.plot_bestfit as b
    return b.plot_image_slit(**k)


# --------------------------------------------------------------------------------------------------------- whole fits

PLOTS = ('trace_burnin', 'trace', 'param_corner', 'bestfit')


def t_whole(c):
    """a complete fit draws every figure asked for, once, and leaves its results as they are."""
    with c20.Box() as d:
        kw = {'filename_plot_'+k: os.path.join(d, k+'.pdf') for k in PLOTS if c['want'][k]}
        def build():
            f, cc, dd, b, pr = c20.make(c, d, **kw)
            del f.__dict__['plot_results']
            s = f.galaxy.spec2D
            s.wh_nosky, s.low_snr_row_inds, s.wh_sky_fit = np.arange(s.flux.shape[1]), np.array(c['rows'], dtype=int), []
            f.thetaSettings.theta_linked_posteriors = c['links'] or None
            return f

        f = build()
        s = f.galaxy.spec2D
        c20.setup_or_skip(f)
        np.random.seed(c['npseed'])
        flux = s.flux.copy()
        with figures() as F:
            with quiet():
                f.fit(usetex=c['tex'])
            check(f.usetex is c['tex'], 'setting given to the fit ignored')
            for fig, name in F.out:
                if c['seed'] % 3 == 0:
                    fig.canvas.draw()
        got = [os.path.basename(k) if k else None for fig, k in F.out]
        want = [k+'.pdf' for k in PLOTS[:2] if c['want'][k] and (k == 'trace' or c['nb'] > 0)]+[k+'.pdf' if c['want'][k] else None for k in PLOTS[2:]]
        check(got == want, lambda: 'figures %s, expected %s' % (got, want))
        same(s.flux, flux, 'data after the fit')
        res = c20.fit_io.loadpickle(os.path.join(d, 's.pickle'))
        same(f.sampler_dict['chain'], res['chain'], 'chain after the figures')
        n = f.kinModel.n_free_param
        fig = [q for q, k in F.out][-2]
        check(len(fig.axes) == (n+2)**2, 'panels of the posterior figure')
        best = [q for q, k in F.out][-1]
        same(np.asarray(best.axes[3].images[0].get_array(), dtype=float), np.asarray(f.kinModel.bestfit.model, dtype=float), 'model drawn')
        if c['reload']:
            e = build()
            with figures() as F2:
                with quiet():
                    e.reload_results(doPlot=c['doplot'], usetex=c['tex'])
            check(e.usetex is c['tex'], 'setting given to the reload ignored')
            got = [os.path.basename(k) if k else None for fig, k in F2.out]
            want2 = ([k+'.pdf' if c['want'][k] else None for k in PLOTS[2:]] if c['doplot'] else [])
            check(got == want2, lambda: 'figures after reloading %s, expected %s' % (got, want2))
            if c['doplot']:
                for k, what in ((-1, 'best-fit'), (-2, 'posterior')):
                    a, z = F.out[k][0], F2.out[k][0]
                    check([x.get_title() for x in a.axes] == [x.get_title() for x in z.axes], lambda: what+' figure titles after reloading')
                    check(len(a.axes) == len(z.axes) and all(len(x.texts) == len(y.texts) and all(p.get_text() == q.get_text() for p, q in zip(x.texts, y.texts)) for x, y in zip(a.axes, z.axes)),
                          lambda: what+' figure annotations after reloading')
                same(np.asarray(F2.out[-1][0].axes[3].images[0].get_array(), dtype=float), np.asarray(best.axes[3].images[0].get_array(), dtype=float), 'model drawn after reloading')
    return n > 1, ['%d figures' % len(want)]+(['reloaded'] if c['reload'] else [])


@st.composite
def s_whole(draw):
    c = draw(c20.s_run())
    c['cpu'] = 1
    c['want'] = {k: draw(st.booleans()) for k in PLOTS}
    c['tex'] = draw(st.booleans())
    c['reload'], c['doplot'] = draw(st.booleans()), draw(st.integers(0, 3)) > 0
    c['rows'] = draw(st.sampled_from([[], [0], [0, 1]]))
    n = sum(c['vary'])
    c['links'] = draw(st.sampled_from([[], [], ['all'], [[0, 1]], [[1, 0]]])) if n > 1 else []
    c['ns'] = draw(st.integers(6, 12))
    return c


# ------------------------------------------------------------------------------------------------------- 1D spectra

@st.composite
def s_spec(draw):
    c = draw(c18.s_fit())
    c['snr'] = max(c['snr'], 25.)
    c['errors'] = draw(st.booleans())
    c['mc'] = draw(st.integers(2, 4))
    c['field'] = draw(st.sampled_from(['F', 'COSMOS', None]))
    c['maskname'] = draw(st.sampled_from([None, 'mask', 'mask_01_K']))
    c['id'] = draw(st.integers(1, 99999))
    return c


def t_spec(c):
    """the figure of a 1D fit shows the data, their errors, the fitted model and the values found, and does not alter the fit."""
    o = c18.make(dict(c, dz=c['dz']/3), noise=1.)
    with c20.Box() as d:
        kw = dict(err_filename=os.path.join(d, 'e'), noErrors=not c['errors'])
        f0 = c18.fitter(c, o, num_MC=c['mc'])
        np.random.seed(c['seed'] % 2**31)
        c18.run(f0, **kw)
        f = c18.fitter(c, o, num_MC=c['mc'])
        g = f.galaxy
        g.field, g.maskname, g.ID = c['field'], c['maskname'], c['id']
        np.random.seed(c['seed'] % 2**31)
        with figures() as F:
            with quiet():
                f.fit(plot_filename='fit1d.pdf', **kw)
            fig = F.one('fit1d.pdf', c['seed'] % 3 == 0)
    for k in ('z', 'vel_disp', 'flux_arr', 'cont_coeff', 'z_err', 'vel_disp_err', 'flux_arr_err', 'cont_coeff_err', 'final_model'):
        same(np.asarray(getattr(f, k)), np.asarray(getattr(f0, k)), 'drawing the fit changes '+k)
    a = fig.axes[0]
    names = c18.SETS[c['set']][0]
    s = g.spec1D_trim
    m = np.asarray(s.spec_mask) == 1
    # data with their errors
    got = {}
    for q in a.containers:
        x, y = [np.asarray(v, dtype=float) for v in q.lines[0].get_data()]
        seg = [np.asarray(k) for k in q.lines[2][0].get_segments()]
        for k in range(len(x)):
            got[x[k]] = (y[k], .5*(seg[k][1, 1]-seg[k][0, 1]) if k < len(seg) and len(seg[k]) == 2 else np.nan, q.lines[0].get_color())
    check(sorted(got) == sorted(s.obswave), 'wavelengths of the points drawn')
    col = {True: set(), False: set()}
    for k, w in enumerate(s.obswave):
        i = int(np.where(o.w == w)[0][0])
        col[bool(m[k])].add(got[w][2])
        if m[k]:
            check(got[w][0] == o.flux[i] and abs(got[w][1]-o.err[i]) < 1e-9*max(o.err[i], abs(o.flux[i])), lambda: 'point drawn at %r: %r' % (w, got[w]))
    check(not (col[True] & col[False]), 'masked and fitted points look the same')
    # model, continuum and lines
    cur = [np.asarray(l.get_data(), dtype=float) for l in a.lines if len(l.get_xdata()) == len(s.obswave) and l.get_linestyle() == '-']
    cont = sum(f.cont_coeff[k]*1e-18*s.obswave**k for k in range(c['order']+1))
    for want, what in ((f.final_model, 'model'), (cont, 'continuum')):
        check(any(np.abs(k[1]-want).max() < 1e-9*np.abs(want).max() and (k[0] == s.obswave).all() for k in cur), what+' not drawn')
    check(len(cur) == 2+(c['mc'] if c['errors'] else 0), lambda: '%d curves' % len(cur))
    v = np.array(sorted(l.get_xdata()[0] for l in a.lines if vline(l)))
    rest = [x for n in names for x, q in c18.lines(n)]
    close(v, np.sort([x*(1+z) for x in rest for z in (f.z, g.z)]), rtol=1e-10, what='wavelengths marked')
    x0, x1 = a.get_xlim()
    y0, y1 = a.get_ylim()
    check(x0 < s.obswave.min() and x1 > s.obswave.max() and y0 < f.final_model.min() and y1 > f.final_model.max(), 'model outside the axes')
    t = [k.get_text() for k in a.texts]
    check(len(t) == 2 and t[0].startswith('$z =') and 'sigma' in t[1], lambda: 'annotations %s' % t)
    for q, b, e in ((t[0], f.z, f.z_err), (t[1], f.vel_disp, f.vel_disp_err)):
        u = [float(k) for k in re.findall(r'(?<![\d.])\d+\.\d+', q)]
        w = [b]+([abs(e[0]), abs(e[1])] if c['errors'] else [])
        check(len(u) == len(w) and all(abs(i-j) < .00051 for i, j in zip(u, w)), lambda: 'annotation %r, expected %s' % (q, w))
    check(str(c['id']) in a.get_title() and all(n in a.get_title() for n in names), lambda: 'title %r' % a.get_title())
    return bool(o.use.sum() >= 20), ['+'.join(names), 'errors' if c['errors'] else 'no errors', 'field' if c['field'] else 'no field']


SUBS = [Sub('whole', s_whole(), t_whole, 40, 800, 4, 200, 40),
        Sub('posteriors', s_corner(), t_corner, 60, 1500, 4, 200, 40),
        Sub('best-fit', s_best(), t_best, 160, 5000, 4, 200, 40),
        Sub('spectrum', s_spec(), t_spec, 60, 1500, 3, 200, 40),
        Sub('trace', s_corner(), t_trace, 60, 2000, 2, 120, 30),
        Sub('image', s_img(), t_image, 160, 6000, 3, 200, 40)]
