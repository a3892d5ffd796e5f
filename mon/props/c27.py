"""C27 the numerical helpers compute what they are named after."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from .. import sut

H_ERG, E_SI, C_SI = 6.62607004e-27, 1.6021766208e-19, 2.99792458e8


# ---------------------------------------------------------------- smoothing

def fit_weights(window, order, deriv):
    """weights w with  sum w[k] y[i+k] = deriv-th derivative at i of the least-squares polynomial (unit spacing)"""
    m = window // 2
    s = max(1.0, float(m))
    x = np.arange(-m, m + 1) / s
    # orthonormal polynomials on the window by QR of the scaled Vandermonde matrix
    V = np.vander(x, order + 1, increasing=True)
    q, r = np.linalg.qr(V)
    unit = np.zeros(order + 1)
    unit[deriv] = math.factorial(deriv) / s ** deriv
    return q @ np.linalg.solve(r.T, unit)


def padded(y, m):
    first = y[0] - np.abs(y[1:m + 1][::-1] - y[0])
    last = y[-1] + np.abs(y[-m - 1:-1][::-1] - y[-1])
    return np.concatenate((first, y, last))


def signal(ctx, n):
    t = np.linspace(-1, 1, n)
    k = ctx.i(0, 3)
    if k == 0:
        y = np.array([ctx.normal() for _ in range(n)])
    elif k == 1:
        y = np.exp(-(t / ctx.u(0.1, 1)) ** 2) + 0.1 * np.array([ctx.normal() for _ in range(n)])
    elif k == 2:
        y = np.sin(ctx.u(1, 20) * t + ctx.u(0, 6))
    else:
        y = np.array([float(ctx.i(-9, 9)) for _ in range(n)])
    return y * ctx.logu(1e-3, 1e3)


def smoothing(ctx):
    order = ctx.i(0, 5)
    window = 2 * ctx.i((order + 2) // 2, (order + 2) // 2 + 10) + 1
    if window < order + 2:
        window += 2
    deriv = ctx.i(0, order) if ctx.chance(0.5) else 0
    rate = ctx.pick([1, 1, 2, ctx.logu(0.1, 10)])
    n = window + ctx.i(0, 80)
    y = signal(ctx, n)
    kw = {} if deriv == 0 and rate == 1 and ctx.chance(0.5) else dict(deriv=deriv, rate=rate)
    ctx.desc = {"n": n, "window": window, "order": order, **kw}
    y0 = y.copy()
    got = np.asarray(sut.ge.savitzky_golay(y, window, order, **kw))
    ctx.check(np.array_equal(y, y0), "smoothing changed its input")
    ctx.check(got.shape == (n,), "the smoothed signal has another length", got=got.shape, n=n)
    w = fit_weights(window, order, deriv) * rate ** deriv
    m = window // 2
    want = np.correlate(padded(y, m), w, mode="valid")
    tol = 1e-6 * (np.max(np.abs(y)) * np.sum(np.abs(w)) + 1e-300)
    ctx.check(np.max(np.abs(got - want)) <= tol, "not the %s of the least-squares polynomial of each window" % ("value" if deriv == 0 else "derivative"),
              worst=float(np.max(np.abs(got - want))), tol=tol)
    ctx.ev("windows fitted", n)
    ctx.ev("signals smoothed" if deriv == 0 else "signals differentiated")
    # a polynomial of the filter's order comes through unchanged away from the ends
    c = [ctx.u(-1, 1) for _ in range(order + 1)]
    x = (np.arange(n) - n / 2) / max(1, m)
    p = sum(ci * x ** i for i, ci in enumerate(c))
    d = p
    if deriv:
        d = sum(ci * math.factorial(i) / math.factorial(i - deriv) * x ** (i - deriv) for i, ci in enumerate(c) if i >= deriv) / max(1, m) ** deriv * rate ** deriv
        d = d + np.zeros(n)
    g = np.asarray(sut.ge.savitzky_golay(p, window, order, deriv=deriv, rate=rate))
    if n > 2 * m:
        e = np.abs(g - d)[m:n - m]
        ctx.check(np.max(e) <= 1e-6 * (np.max(np.abs(p)) * np.sum(np.abs(w)) + 1e-300), "a polynomial of the filter's order does not come through", worst=float(np.max(e)))
        ctx.ev("polynomials preserved")
    ctx.seen(window, order, deriv, n, rate)


def smoothing_refused(ctx):
    y = signal(ctx, 60)
    k = ctx.i(0, 1)
    if k == 0:
        args = (2 * ctx.i(1, 10), ctx.i(0, 1))
    else:
        o = ctx.i(2, 6)
        args = (ctx.pick([v for v in range(1, o + 2) if v % 2]), o)
    ctx.desc = {"window": args[0], "order": args[1]}
    try:
        sut.ge.savitzky_golay(y, *args)
    except (TypeError, ValueError):
        ctx.ev("unsuitable windows refused")
        ctx.seen(*args)
        return
    ctx.fail("an unsuitable window was accepted", window=args[0], order=args[1])


def averaging(ctx):
    n = ctx.i(1, 120)
    N = ctx.i(1, n)
    x = signal(ctx, n)
    if ctx.chance(0.3):
        x = np.array([ctx.i(-9, 9) for _ in range(n)])
    if ctx.chance(0.2):                                # one value very much larger than the rest
        x = x.astype(float)
        x[ctx.i(0, n - 1)] = ctx.pick([1, -1]) * ctx.logu(1e6, 1e17)
    ctx.desc = {"n": n, "N": N}
    got = np.asarray(sut.ge.movingAverageFast(x, N))
    ctx.check(got.shape == (n,), "the averaged signal has another length", got=got.shape)
    for i in range(n):
        lo, hi = i - N // 2, i + (N - 1) // 2
        want = math.fsum(float(x[j]) for j in range(max(0, lo), min(n - 1, hi) + 1)) / N
        ctx.check(abs(got[i] - want) <= 1e-12 * (1e-300 + float(np.max(np.abs(x[max(0, lo):min(n - 1, hi) + 1])))) * N, "not the mean over the N points around (zeros beyond the ends)", i=i, got=got[i], expected=want, N=N, n=n)
    ctx.ev("means checked", n)
    ctx.ev("signals averaged")
    ctx.seen(n, N)


# ---------------------------------------------------------------- lookup, interpolation, units

def nearest(ctx):
    n = ctx.i(1, 60)
    k = ctx.i(0, 3)
    base, step = ctx.logu(1e-3, 1e4), 10.0 ** ctx.u(-13, -3)
    a = (np.array([ctx.u(-100, 100) for _ in range(n)]), np.array([ctx.i(-20, 20) for _ in range(n)]), np.linspace(ctx.u(-9, 0), ctx.u(1, 9), n),
         np.array([base * (1 + step * ctx.i(-50, 50)) for _ in range(n)]))[k]            # all nearly the same
    v = ctx.pick([ctx.u(-120, 120), float(ctx.i(-25, 25)), float(a[ctx.i(0, n - 1)])]) if k < 3 else float(a[0]) * (1 + step * ctx.u(-3, 3))
    ctx.desc = {"array": a.tolist(), "value": v}
    i, x = sut.ge.find_nearest(a, v)
    ctx.check(0 <= i < n and x == a[i], "index and value do not belong together", index=i, value=x)
    ctx.check(abs(float(x) - v) <= min(abs(float(y) - v) for y in a), "another element is nearer", index=i, value=x)
    ctx.ev("nearest elements found")
    ctx.seen(n, v)


def loglog(ctx):
    n = ctx.i(2, 20)
    lx = sorted(ctx.u(-3, 3) for _ in range(n))
    if min(b - a for a, b in zip(lx, lx[1:])) < 1e-3:
        raise Skip("knots too close")
    x = np.array([10.0 ** v for v in lx])
    power = ctx.chance(0.3)
    if power:
        al, c = ctx.u(-3, 3), ctx.logu(0.01, 100)
        y = c * x ** al
    else:
        y = np.array([ctx.logu(1e-4, 1e4) for _ in range(n)])
    ctx.desc = {"x": x.tolist(), "y": y.tolist()}
    f = sut.ge.log_interp1d(x, y)
    pts = [float(v) for v in x] + [10.0 ** ctx.u(lx[0], lx[-1]) for _ in range(15)]
    for z in pts:
        i = min(max(int(np.searchsorted(x, z)) - 1, 0), n - 2)
        s = (math.log(z) - math.log(x[i])) / (math.log(x[i + 1]) - math.log(x[i]))
        want = math.exp((1 - s) * math.log(y[i]) + s * math.log(y[i + 1]))
        got = float(f(z))
        ctx.check(abs(got - want) <= 1e-7 * want, "not on the straight line of the log-log plot", x=z, got=got, expected=want)
    if power:
        z = x[-1] * ctx.logu(1, 10)
        ctx.check(abs(float(f(z)) / (c * z ** al) - 1) < 1e-5 * max(1.0, 0.1 / (lx[-1] - lx[-2])), "a power law is not carried on beyond the last point")
    arr = np.asarray(f(np.array(pts)))
    ctx.check(arr.shape == (len(pts),) and all(abs(a - float(f(z))) <= 1e-9 * abs(a) for a, z in zip(arr, pts)), "an array of points gives other values than the points one by one")
    ctx.ev("interpolated points", len(pts))
    ctx.seen(n, lx[0])


def units(ctx):
    ge = sut.ge
    w = ctx.logu(0.01, 1e6)
    if ctx.chance(0.2):
        w = ctx.i(1, 2000)
    ctx.desc = {"value": w}
    hc = 6.62606957e-34 * C_SI / 1.60217657e-19 * 1e9
    for f, g, name in ((ge.wavelength_nm_to_energy_eV, ge.energy_eV_to_wavelength_nm, "energy of a photon"),
                       (ge.energy_eV_to_wavelength_nm, ge.wavelength_nm_to_energy_eV, "wavelength of a photon")):
        e = f(w)
        ctx.check(abs(e * w / hc - 1) < 1e-6, "wrong " + name, got=e, expected=hc / w)
        ctx.check(abs(g(e) / w - 1) < 1e-12, "the two conversions are not inverse to one another", there=e, back=g(e))
    a = np.array([ctx.logu(1, 1e4) for _ in range(ctx.i(1, 8))])
    ctx.check(np.allclose(ge.wavelength_nm_to_energy_eV(a), hc / a, rtol=1e-6, atol=0), "an array is not converted element by element")
    ctx.ev("photon conversions")
    # quantum concentration and entropy of an ideal gas
    T = ctx.logu(1e-3, 1e3)
    m = ctx.logu(1e-28, 1e-21)
    nQ = ge.get_nQ(T, m)
    want = (2 * math.pi * m * E_SI * 1e7 * T / H_ERG ** 2) ** 1.5
    ctx.check(abs(nQ / want - 1) < 1e-6, "wrong quantum concentration", got=nQ, expected=want, T=T, m=m)
    el = ge.get_nQ(T)
    ctx.check(abs(el / (2 * math.pi * 9.10938215e-28 * E_SI * 1e7 * T / H_ERG ** 2) ** 1.5 - 1) < 1e-6, "the default is not the electron", got=el)
    n, V = want * ctx.logu(1e-9, 0.5), ctx.logu(1e-3, 1e3)
    S = ge.sackurTetrode(n, m, V, T)
    kB = 1.38064852e-16
    ref = n * V * kB * (2.5 + math.log(want / n))
    ctx.check(abs(S / ref - 1) < 1e-5, "wrong entropy", got=S, expected=ref, n=n, V=V, T=T, m=m)
    ctx.check(abs(ge.sackurTetrode(n, m, 2 * V, T) / (2 * S) - 1) < 1e-12, "the entropy is not extensive")
    ctx.ev("gas quantities")
    ctx.seen(w, T, m)


# ---------------------------------------------------------------- Fermi-Dirac integrals

def fermi(eta, j):
    """1/Gamma(j+1) * integral of x^j / (1 + exp(x - eta)), by quadrature in u = sqrt(x)"""
    from scipy.integrate import quad

    def f(u):
        z = u * u - eta
        return 2 * u ** (2 * j + 1) * (math.exp(-z) / (1 + math.exp(-z)) if z > 0 else 1 / (1 + math.exp(z)))
    pts = sorted({0.0} | {math.sqrt(max(0.0, eta) + k) for k in (-10, -3, 0, 3, 10, 50, 200) if max(0.0, eta) + k > 0})
    return math.fsum(quad(f, a, b, epsabs=0, epsrel=1e-12, limit=200)[0] for a, b in zip(pts, pts[1:])) / math.gamma(j + 1)


ROMAN = math.sqrt(math.pi) / 2


def fermi_dirac(ctx):
    j = ctx.pick([-0.5, 0, 0.5, 0.5, 1, 1.5, 2, 3])
    zone = ctx.pick(["middle", "middle", "middle", "low", "far low", "far high"])
    eta = {"middle": lambda: ctx.pick([0.0, ctx.u(-5, 19), float(ctx.i(-5, 19))]), "low": lambda: ctx.u(-20, -5), "far low": lambda: ctx.u(-60, -20.001),
           "far high": lambda: ctx.u(20.001, 200)}[zone]()
    if zone == "far high":
        j = ctx.pick([-0.5, 0.5, 1.5])
    ft = ctx.pick(["roman", "default"]) if j == 0.5 and ctx.chance(0.5) else "script"
    ctx.desc = {"eta": eta, "j": j, "fType": ft}
    r = sut.ge.FD_int_num(eta, j) if ft == "default" else sut.ge.FD_int_num(eta, j, fType=ft)
    y = float(r[0])
    want = fermi(eta, j) * (1 if ft == "script" else ROMAN)
    tol = {"middle": 1e-8 * want + 2e-10, "low": 2e-10, "far low": 2e-8 * want, "far high": want * 8 / max(1.0, eta * eta)}[zone]
    ctx.check(abs(y - want) <= tol, "wrong Fermi-Dirac integral", got=y, expected=want, eta=eta, j=j)
    if zone in ("middle", "low"):
        N, err = float(r[1]), float(r[2])
        ctx.check(N == int(N) and 1 < N <= 600 and 0 <= err < 1e-12, "the reported effort or error is not what the tolerance asks for", N=N, err=err)
    ctx.ev("Fermi-Dirac integrals: " + zone)
    ctx.seen(eta, j, ft)
    if ctx.chance(0.5):
        e = ctx.pick([ctx.u(-30, 60), ctx.pick([-2.0, 0.0, 3.0, 10.0]), ctx.pick([-2.0, 0.0, 3.0, 10.0]) + ctx.pick([1, -1]) * ctx.logu(1e-9, 1e-1), ctx.logu(60, 1e7)])
        a = sut.ge.FD_int_approx(e, 0.5)[0]
        if e <= 60:
            ref = fermi(e, 0.5) * ROMAN
        else:
            ref = 2 / 3 * e ** 1.5 * (1 + math.pi ** 2 / 8 / e ** 2)
        ctx.check(abs(a / ref - 1) < 8e-5, "the approximation of the Fermi-Dirac integral is off", eta=e, got=a, expected=ref)
        ctx.ev("Fermi-Dirac approximations")


PROP = Prop(
    "C27",
    "random signals, tables and parameters: smoothing and differentiation against independently derived least-squares weights and polynomials, running "
    "means, nearest elements, log-log interpolation, photon and gas formulae, Fermi-Dirac integrals of seven orders against adaptive quadrature",
    [Family("smoothing", smoothing, 2500), Family("smoothing-refused", smoothing_refused, 300, 1000), Family("averaging", averaging, 2000),
     Family("nearest", nearest, 2500), Family("loglog", loglog, 1500), Family("units", units, 2000), Family("fermi-dirac", fermi_dirac, 1200, 15000)],
    required=["signals smoothed", "signals differentiated", "polynomials preserved", "unsuitable windows refused", "signals averaged", "nearest elements found",
              "interpolated points", "photon conversions", "gas quantities", "Fermi-Dirac integrals: middle", "Fermi-Dirac integrals: low",
              "Fermi-Dirac integrals: far low", "Fermi-Dirac integrals: far high", "Fermi-Dirac approximations"],
    assumptions=["smoothing: orders to 5, windows to 27, compared to 1e-6 of the signal times the weights; N at most the signal's length for running means",
                 "FD_int_num: fType roman only for j = 1/2 (its factor is that order's); beyond |eta| = 20 the code switches to leading-order asymptotics, judged as such"])
