"""Independent reference implementations (plain numpy, direct sums, no FFTs).

Nothing here imports the code under test.
"""
import numpy as np

C_KMS = 299792.458
F2S = 2.*np.sqrt(2.*np.log(2.))


class Skip(Exception):
    """The case sits on a numerical tie: no verdict."""


# ------------------------------------------------------------------ pieces
def sersic(r, n, re):
    return np.exp(-(2.*n-.324)*((r/re)**(1./n)-1.))


def arctan_v(r, va, rt):
    return 2./np.pi*va*np.arctan(r/rt)


def psf_kernel(kind, fwhm, beta, dith, xo, yo):
    """kernel values at offsets (rows yo, columns xo)."""
    X, Y = np.meshgrid(xo, yo)

    def prof(x, y):
        r2 = x*x+y*y
        if kind == 'Moffat':
            a = fwhm/(2.*np.sqrt(2.**(1./beta)-1.))
            return (beta-1.)/(np.pi*a*a)*(1.+r2/a/a)**(-beta)
        return np.exp(-4.*np.log(2.)*r2/fwhm**2)
    k = prof(X, Y)
    if dith is not None:
        k = k - .5*prof(X, Y-dith) - .5*prof(X, Y+dith)
    return k


def stamp_offsets(n, delt, fwhm):
    half = (n-1)//2
    k = np.arange(-half, half+1)
    return k[np.abs(k*delt) <= fwhm*(1.+1e-9)]*delt


def conv_same(img, ker):
    """2D 'same' convolution with an odd-sized kernel, zero outside (direct sum)."""
    ny, nx = img.shape[-2:]
    ky, kx = ker.shape
    cy, cx = ky//2, kx//2
    out = np.zeros(img.shape)
    for a in range(ky):
        for b in range(kx):
            dy, dx = a-cy, b-cx
            if abs(dy) >= ny or abs(dx) >= nx:
                continue
            ys = slice(max(0, dy), ny+min(0, dy))
            yi = slice(max(0, -dy), ny-max(0, dy))
            xs = slice(max(0, dx), nx+min(0, dx))
            xi = slice(max(0, -dx), nx-max(0, dx))
            out[..., ys, xs] += ker[a, b]*img[..., yi, xi]
    return out


def inst_conv(m, dw, sig):
    """m[nW, nY]; gaussian along axis 0 with dispersion sig (same units as dw), total flux kept."""
    if sig == 0:
        return m
    n = m.shape[0]
    L = n if n % 2 == 1 else n-1
    h = (L-1)//2
    i = np.arange(n)
    D = i[:, None]-i[None, :]
    K = np.exp(-.5*(D*dw/sig)**2)
    K[np.abs(D) > h] = 0.
    out = K.dot(m)
    s = out.sum()
    if abs(s) < 1e-3*np.abs(out).sum() or s == 0:
        raise Skip('total flux vanishes')
    return out*(m.sum()/s)


# ------------------------------------------------------------------ 2D slit model
def grid2d(c):
    nsub = c['nsub']
    g = {}
    g['nYw'] = c['nY']
    g['nPy'] = c['nY']*nsub
    g['dy'] = c['pix']/nsub
    t = c['slit']/g['dy']
    if abs(g['nPy']*g['dy']-c['slit']) < 1e-9*c['slit']:
        g['nPx'] = g['nPy']
    else:
        if abs(t-round(t)) < 1e-9*max(t, 1.):
            if t != round(t):
                raise Skip('slit width on a pixel boundary')
        g['nPx'] = int(np.ceil(t))
    g['dx'] = c['slit']/g['nPx']
    for k in 'xy':
        p = c['fwhm']*c['pad']/g['d'+k]
        if abs(abs(p-np.floor(p))-.5) < 1e-9:
            raise Skip('pad rounding tie')
        g['pad'+k] = int(np.floor(p+.5))
    g['x'] = (np.arange(g['nPx']+2*g['padx'])-(g['nPx']+2*g['padx']-1)/2.)*g['dx']-c.get('xc', 0.)
    m0 = c['m0']+c['m0s']
    sub = np.arange(-g['pady'], g['nPy']+g['pady'])
    g['y'] = ((sub+.5)/nsub-.5-m0)*c['pix']
    g['z'] = (np.arange(g['nPy'])-(g['nPy']-1)/2.)*g['dy']
    return g


def sini(q, q0):
    return 1. if q <= q0 else np.sqrt((1-q*q)/(1-q0*q0))


def field2d(c, g):
    """-> I[z,y,x], V, r, zint."""
    Z, Y, X = np.meshgrid(g['z'], g['y'], g['x'], indexing='ij')
    t = np.deg2rad(c['pa'])
    s = sini(c['q'], c['q0'])
    co = np.sqrt(max(0., 1-s*s))
    minor = X*np.cos(t)+Y*np.sin(t)
    major = Y*np.cos(t)-X*np.sin(t)
    xi = co*minor+s*Z
    zi = co*Z-s*minor
    r = np.sqrt(xi**2+major**2)
    z0 = c['q0']*c['re']
    if c.get('iprof', 0) == 1:
        z0 = z0/1.676
    I = sersic(r, c['n'], c['re'])*np.exp(-np.abs(zi)/z0)
    if c.get('kprof', 0) == 0:
        v = arctan_v(r, c['va'], c['rt'])
    else:
        v = custom_v(r, zi, c['va'], c['rt'])
    cosphi = np.where(r > 0, major/np.where(r > 0, r, 1.), 0.)
    return I, v*cosphi*s, r, zi


def custom_v(r, z, va, rt):
    return va*r/(r+rt)*np.exp(-np.abs(z)/2.)


def custom_s(r, z, s0):
    return s0*(1.+.5*np.exp(-r))


def wave2d(c):
    n = c['nW']
    k = np.arange(n)-(n-1)/2.+c['woff']
    if c['vel']:
        return k*c['dw']
    return c['rest'][0]*(1.+c['zw'])+k*c['dw']


def psf2d(c, g):
    if c['fwhm'] == 0:
        return None
    return psf_kernel(c['ptype'], c['fwhm'], c['beta'], c.get('dith'),
                      stamp_offsets(len(g['x']), g['dx'], c['fwhm']),
                      stamp_offsets(len(g['y']), g['dy'], c['fwhm']))


def psf_apply(cube, ker):
    if ker is None:
        return cube
    out = conv_same(cube, ker)
    s = out.sum()
    if abs(s) < .02*np.abs(out).sum() or s == 0:
        raise Skip('ill-conditioned total flux')
    return out*(cube.sum()/s)


def ref2d(c, full=False):
    """model[nY(or subpixels), nWave] (full: dict with the intermediate products)."""
    g = grid2d(c)
    I, V, r, zi = field2d(c, g)
    w = wave2d(c)
    dw = c['dw']
    zsys = c['z']
    lam0p = 1. if c['vel'] else c['rest'][0]*(1+zsys)
    kms = 1. if c['vel'] else C_KMS/lam0p
    sig = c['sig']
    if c['absval']:
        sig = abs(sig)
    f = c['factor']
    up = False
    thr_up = dw*kms/2.35
    thr_fl = .75*dw/f*kms/2.35 if c['adaptive'] else thr_up
    if c['adaptive']:
        if abs(abs(sig)-thr_up) < 1e-6*thr_up:
            raise Skip('dispersion at the upsampling limit')
        up = abs(sig) < thr_up
    if c['floor']:
        if abs(abs(sig)-thr_fl) < 1e-6*thr_fl:
            raise Skip('dispersion at the floor')
        if abs(sig) < thr_fl:
            sig = thr_fl
    if up:
        n2 = c['nW']*f
        w2 = w[0]-.5*dw+(np.arange(n2)+.5)*dw/f
        dw2 = dw/f
    else:
        w2, dw2 = w, dw
    S = np.full(r.shape, float(sig)) if c.get('kprof', 0) == 0 else custom_s(r, zi, sig)
    ker = psf2d(c, g)
    dV = None
    if c.get('posshift'):
        dV = posshift2d(c, g, I, ker)
        V = V+dV[None, :, None]
    rest = [None] if c['vel'] else c['rest']
    ratio = [1.] if c['vel'] else c['ratio']
    dz = g['dy']
    cube = np.zeros((len(w2),)+I.shape[1:])
    for l0r, fr in zip(rest, ratio):
        if c['vel']:
            mu, sg = V, S
        else:
            l0 = l0r*(1+zsys)
            mu, sg = l0*(1+V/C_KMS), S/C_KMS*l0
        if sig != 0:
            for k in range(len(w2)):
                cube[k] += fr*np.sum(I/(np.sqrt(2*np.pi)*sg)*np.exp(-.5*((w2[k]-mu)/sg)**2), axis=0)*dz
        else:
            pos = (mu-w2[0])/dw2
            idx = np.clip(np.floor(pos+.5), 0, len(w2)-1).astype(int)
            tie = np.abs(pos+.5-np.round(pos+.5))
            inside = (pos > -.5) & (pos < len(w2)-.5)
            if np.any(inside & (tie < 1e-7)):
                raise Skip('velocity on a pixel boundary')
            nz, ny, nx = I.shape
            for m in range(nz):
                for j in range(ny):
                    for k in range(nx):
                        cube[idx[m, j, k], j, k] += fr*I[m, j, k]*dz/dw2
    cc = psf_apply(cube, ker)
    py, px = g['pady'], g['padx']
    cc = cc[:, py:py+g['nPy'], px:px+g['nPx']]
    sub = cc.sum(axis=2)*g['dx']                   # [w, y subpixel]
    out = sub.reshape(len(w2), c['nY'], c['nsub']).sum(axis=2) if c['rebin'] else sub
    sinst = c['res'] if c['vel'] else c['res']/C_KMS*lam0p
    out = inst_conv(out, dw2, sinst)
    if up:
        out = out.reshape(c['nW'], f, -1).mean(axis=1)
    if full:
        return dict(model=out.T, cube=cc, g=g, I=I, V=V, up=up, f=f, dV=dV, w=w, w2=w2)
    return out.T


def ref3d(c):
    """IFU cube[nWave, nY, nX] (field square, slit width = nY*pix), no instrument blurring."""
    f = ref2d(dict(c, res=0.), full=True)
    cc = f['cube']
    g = f['g']
    n = c['nsub']
    nw = cc.shape[0]
    if f['up']:
        cc = cc.reshape(c['nW'], f['f'], *cc.shape[1:]).mean(axis=1)
    return cc.reshape(c['nW'], c['nY'], n, -1, n).sum(axis=(2, 4)) if c['rebin'] else cc


def posshift2d(c, g, I, ker):
    from scipy.optimize import least_squares
    img = I.sum(axis=0)
    img = psf_apply(img, ker)
    px = g['padx']
    sl = slice(px, px+g['nPx'])
    x = g['x'][sl]
    out = []
    for row in img[:, sl]:
        e = .01*row.max()
        if not row.max() > (1e-9*img.max() if ker is not None else 1e-100):
            raise Skip('row without light')

        def res(p):
            return (p[0]*np.exp(-.5*((x-p[1])*F2S/p[2])**2)-row)/e
        p0 = [row.max(), x[row.argmax()], (x.max()-x.min())/10.]
        sols = []
        for fw in (1., 3., 10.):
            s = least_squares(res, [p0[0], p0[1], p0[2]*fw], xtol=1e-14, ftol=1e-14, gtol=1e-14,
                              bounds=([-np.inf, -np.inf, 1e-9], np.inf), x_scale=[p0[0], p0[2], p0[2]])
            sols.append(s)
        if not np.all(np.isfinite([s.x for s in sols])):
            raise Skip('in-slit profile does not define a centroid')
        mus = np.array([s.x[1] for s in sols])
        costs = np.array([s.cost for s in sols])
        b = sols[int(np.argmin(costs))]
        up = np.diff(row)
        k = row.argmax()
        if .01*np.sqrt(2*b.cost/len(x)) > .12 or np.any(up[:k] < -1e-9*row.max()) or np.any(up[k:] > 1e-9*row.max()):
            raise Skip('in-slit profile is not a single peak')
        if np.ptp(mus) > 1e-5*c['slit'] or b.x[2] > 3*c['slit'] or abs(b.x[1]) > 1.5*c['slit'] or len(x) < 5 \
                or b.x[2] < 1.2*g['dx']:
            raise Skip('in-slit profile does not define a centroid')
        out.append(np.clip(b.x[1], -.5*c['slit'], .5*c['slit']))
    # instrument FWHM across the slit width
    return np.array(out)/c['slit']*c['res']*F2S


# ------------------------------------------------------------------ 1D apertures
def ext_width(c, q=None, re=None, pa=None):
    q = c['q'] if q is None else q
    re = c['re'] if re is None else re
    pa = c['pa'] if pa is None else pa
    a = .5*np.sqrt((2*re)**2+c['fwhm']**2)
    b = .5*np.sqrt((2*q*re)**2+c['fwhm']**2)
    return 4.*max(abs(a*np.cos(np.deg2rad(pa))), b)


def ext_weights(c, n):
    if c['ext'] == 'boxcar':
        return np.ones(n)
    s = .5*n/F2S
    k = np.arange(n)-(n-1)/2.
    w = np.exp(-.5*(k/s)**2)
    return w/w.sum()


def conv_plain(img, ker):
    return img if ker is None else conv_same(img, ker)


def refrot(c):
    """1D rotation aperture model -> dict(ratio, sigma_aper, vrms)."""
    w = c['width'] if c['width'] is not None else ext_width(c)
    n = c['nPix']
    g = dict(nPy=n, dy=w/n)
    t = c['slit']/g['dy']
    if abs(t-round(t)) < 1e-9*max(t, 1.):
        raise Skip('slit width on a pixel boundary')
    g['nPx'] = int(np.ceil(t))
    g['dx'] = c['slit']/g['nPx']
    for k in 'xy':
        p = c['fwhm']*c['pad']/g['d'+k]
        if abs(abs(p-np.floor(p))-.5) < 1e-9:
            raise Skip('pad rounding tie')
        g['pad'+k] = int(np.floor(p+.5))
    N = g['nPx']+2*g['padx']
    g['x'] = (np.arange(N)-(N-1)/2.)*g['dx']-c['xc']
    N = g['nPy']+2*g['pady']
    g['y'] = (np.arange(N)-(N-1)/2.)*g['dy']-c['yc']
    g['z'] = (np.arange(n)-(n-1)/2.)*g['dy']
    rad = c['rad'] if c['rad'] is not None else c['re']
    vl = (lambda r, z, va: arctan_v(r, va, c['rt'])) if c['kprof'] == 0 else (lambda r, z, va: custom_v(r, z, va, c['rt']))
    sl = (lambda r, z, s: s+0*r) if c['kprof'] == 0 else (lambda r, z, s: custom_s(r, z, s))
    if c['vs'] is None:
        va, s0 = c['va'], 0.
    elif c['vs'] == 0:
        va, s0 = 0., c['va']
    else:
        va = c['va']
        s0 = vl(rad, 0., va)/c['vs']
    cc = dict(c)
    I, V, r, zi = field2d(dict(cc, va=va), g)
    S = sl(r, zi, s0)
    ker = psf2d(c, g)
    if c.get('posshift'):
        V = V+posshift2d(c, g, I, ker)[None, :, None]
    A = conv_plain((I*(V**2+S**2)).sum(axis=0), ker)
    B = conv_plain(I.sum(axis=0), ker)
    py, px = g['pady'], g['padx']
    A = A[py:py+n, px:px+g['nPx']]
    B = B[py:py+n, px:px+g['nPx']]
    G = ext_weights(c, n)[:, None]
    num, den = np.sum(A*G), np.sum(B*G)
    if not den > 1e-3*np.sum(np.abs(B)*G):
        raise Skip('aperture without light')
    if abs(num) < 1e-3*np.sum(np.abs(A)*G):
        raise Skip('ill-conditioned second moment')
    vr = np.sqrt(vl(rad, 0., va)**2+sl(rad, 0., s0)**2)
    if num < 0 or vr == 0:
        raise Skip('negative second moment')
    sa = np.sqrt(num/den)
    return dict(ratio=sa/vr, sigma_aper=sa, vrms=vr, centre=r.min() < 1e-9*c['re'])


def disp_prof(r, re, d, rc):
    return ((r/re+rc)/(1.+rc))**d


def sersic_core(r, re, n, rc):
    return np.exp(-(2.*n-.324)*((r/re+rc)**(1./n)-1.))


def refdisp(c, misalign):
    n = c['nPix']
    rc, d = c['rcore'], c['slope']
    sq = np.sqrt(c['q'])
    rec, rem = c['re']*sq, c['rem']*np.sqrt(c['qm'])
    if misalign:
        w = c['width'] if c['width'] is not None else ext_width(c)
        pa = np.deg2rad(c['pa'])
        small = c['re']
        q = c['q']
    else:
        w = c['width'] if c['width'] is not None else ext_width(c, q=1., re=rec, pa=0.)
        pa, q, small = 0., 1., rec
    if abs(small-.1) < 1e-12:
        raise Skip('radius at the resolution switch')
    if small <= .1:
        n *= 2
    k = np.arange(4*n+3)-(2*n+1)
    dx, dy = .5*c['slit']/(n+.5), .5*w/(n+.5)
    X, Y = np.meshgrid(k*dx-c['xc'], k*dy-c['yc'])
    u = X*np.sin(pa)+Y*np.cos(pa)         # along the major axis
    v = X*np.cos(pa)-Y*np.sin(pa)
    r = np.sqrt(q*u*u+v*v/q)
    I = sersic_core(r, rec, c['n'], rc)
    S2 = disp_prof(r, rem, d, rc)**2
    ker = None
    if c['fwhm'] > 0:
        ker = psf_kernel(c['ptype'], c['fwhm'], c['beta'], c.get('dith'), k*dx, k*dy)
    sl = slice(n+1, 3*n+2)
    A = conv_plain(I*S2, ker)[sl, sl]
    B = conv_plain(I, ker)[sl, sl]
    G = ext_weights(c, 2*n+1)[:, None]
    num, den = np.sum(A*G), np.sum(B*G)
    if not den > 1e-3*np.sum(np.abs(B)*G) or num <= 1e-3*np.sum(np.abs(A)*G):
        raise Skip('aperture without light')
    sa = np.sqrt(num/den)
    R = c['rad'] if c['rad'] is not None else rec
    # reference: int_0^R sigma^2 I r dr / int I r dr, with r = R s^3 (smooth at the core)
    x, wt = np.polynomial.legendre.leggauss(400)
    s = .5*(x+1)
    rr = R*s**3
    jac = rr*3*s*s*wt
    i = sersic_core(rr, rec, c['n'], rc)
    se = np.sqrt(np.sum(disp_prof(rr, rem, d, rc)**2*i*jac)/np.sum(i*jac))
    # adaptive quadrature of the code under test: relative 1e-6 or 1.5e-8 absolute of either integral
    ii = 2*np.pi*.5*np.sum(i*jac)
    tol = 1e-6+4e-8/ii+4e-8/(ii*se*se)
    return dict(ratio=sa/se, sigma_ap=sa, sigma_e=se, tol=tol)
