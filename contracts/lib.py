"""Contracts of the qcd-sme library: what each function must compute, stated over
exact real/complex arithmetic, independently of how /repo computes it."""
from fractions import Fraction as Fr
import term as T
from term import I, PI, ln, sqrt, exp, absv, re, sym, const, ite, cmp, ZERO, ONE, integral, fn, subst
from dsl import spec, REG
from series import limit
from ctx import G, DEFAULT_METHOD, Cfg

PI2 = PI * PI
PF = const(Fr(16, 3)) * PI2
H = const(Fr(1, 2))

# ------------------------------------------------------------- kinematics
K = 'common::'


@spec(K + 'energy_squared', 'p m', 'T', 'S06')
def energy_squared(p, m):
    return p * p + m * m


@spec(K + 'energy', 'p m', 'T', 'S06')
def energy(p, m):
    return sqrt(p * p + m * m)


# ---------------------------------------------------- statistical factors
L = 'low_level::common::'
TH = 'common::thermal::'


@spec(L + 'statistic_distribution_exponential', 'en beta mu', 'T', 'S06')
def stat_exp(en, beta, mu):
    return exp(beta * (en - mu))


@spec(L + 'statistic_distribution_exponential_zero_chempot', 'en beta', 'T', 'S06')
def stat_exp0(en, beta):
    return exp(beta * en)


@spec(TH + 'fermi_distribution', 'en beta mu', 'T', 'S06')
def fermi(en, beta, mu):
    return 1 / (exp(beta * (en - mu)) + 1)


@spec(TH + 'fermi_distribution_zero_chempot', 'en beta', 'T', 'S06')
def fermi0(en, beta):
    return 1 / (exp(beta * en) + 1)


@spec(TH + 'fermi_distribution_double', 'en beta mu', 'T', 'S06')
def fermi2(en, beta, mu):
    return 1 / (exp(beta * (en - mu)) + 1) + 1 / (exp(beta * (en + mu)) + 1)


@spec(TH + 'bose_distribution', 'en beta mu', 'T', 'S06')
def bose(en, beta, mu):
    return 1 / (exp(beta * (en - mu)) - 1)


@spec(TH + 'bose_distribution_zero_chempot', 'en beta', 'T', 'S06')
def bose0(en, beta):
    return 1 / (exp(beta * en) - 1)


@spec(TH + 'fermi_distribution_zero_temp', 'en mu', 'T', 'S06')
def fermi_t0(en, mu):
    return ite(cmp('lt', re(mu), re(en)), ZERO, ONE)


@spec(TH + 'fermi_distribution_double_zero_temp', 'en mu', 'T', 'S06')
def fermi2_t0(en, mu):
    return ite(cmp('lt', re(mu), re(en)), ZERO, ONE) + ite(cmp('lt', re(-mu), re(en)), ZERO, ONE)


@spec(TH + 'fermi_momentum', 'm mu', 'R', 'S06')
def fermi_momentum(m, mu):
    return sqrt(mu * mu - m * m)


# ------------------------------------------------------ vacuum: gluon sector
V = 'low_level::oneloop::gluon::'


@spec(V + 'f_sep', 's ln_s ln_s_pl_1', 'T', 'S01')
def f_sep(s, ln_s, ln_s_pl_1):
    a = sqrt(1 + 4 / s)
    # ln((a-1)/(a+1)) written with the cut of ln s: (a-1)^2/4 * s = (a-1)/(a+1)
    la = (3 * s * s - 34 * s - 28 - 24 / s) * a * (2 * ln((a - 1) / 2) + ln_s)
    lb = 2 * (1 + s) ** 2 * (3 - 20 / s + 11 / s ** 2 - 2 / s ** 3) * ln_s_pl_1
    lc = (2 - 3 * s * s) * ln_s
    ra = -(4 + s) * (s - 20 + 12 / s)
    rb = 2 * (1 + s) ** 2 * (1 - 10 / s + 1 / s ** 2)
    rc = 2 / s ** 2 + 2 - s * s
    return (la + lb + lc + ra + rb + rc) / 72 + const(Fr(5, 8)) / s


@spec(V + 'f', 's', 'T', 'S01')
def f(s):
    return f_sep(s, ln(s), ln(1 + s))


@spec(V + 'f_xi_sep', 's ln_s ln_s_pl_1', 'T', 'S01')
def f_xi_sep(s, ln_s, ln_s_pl_1):
    return 1 / (4 * s) - (2 * s * ln_s - 2 * (1 - s) * (1 - s ** 3) / s ** 3 * ln_s_pl_1 + (3 * s * s - 3 * s + 2) / s ** 2) / 12


@spec(V + 'f_xi', 's', 'T', 'S01')
def f_xi(s):
    return f_xi_sep(s, ln(s), ln(1 + s))


@spec(V + 'f_q', 's', 'T', 'S01')
def f_q(s):
    a = sqrt(1 + 4 / s)
    return const(Fr(4, 9)) * ((s - 2) / (2 * s) * a * ln((a - 1) / (a + 1)) - 2 / s + const(Fr(5, 6)))


@spec(V + 'f_q_crossed', 's', 'T', 'S01')
def f_q_crossed(s):
    a = sqrt(1 + 4 / s)
    return const(Fr(4, 9)) * ((s * s + 2 * s + 16) / (2 * s * (4 + s)) * a * ln((a - 1) / (a + 1)) + 4 / s - const(Fr(1, 6)))


@spec(V + 'ym_dressing_inv_landau_sep', 's ln_s ln_s_pl_1 f0', 'T', 'S02')
def ym_inv_landau_sep(s, a, b, f0):
    return f_sep(s, a, b) + f0


@spec(V + 'ym_dressing_inv_sep', 's ln_s ln_s_pl_1 f0 xi', 'T', 'S02')
def ym_inv_sep(s, a, b, f0, xi):
    return f_sep(s, a, b) + xi * f_xi_sep(s, a, b) + f0


# ------------------------------------------------------ vacuum: ghost sector
VG = 'low_level::oneloop::ghost::'


@spec(VG + 'g_sep', 's ln_s ln_s_pl_1', 'T', 'S01')
def g_sep(s, ln_s, ln_s_pl_1):
    return ((1 + s) ** 2 * (2 * s - 1) / s ** 2 * ln_s_pl_1 - 2 * s * ln_s + 1 / s + 2) / 12


@spec(VG + 'g', 's', 'T', 'S01')
def g(s):
    return g_sep(s, ln(s), ln(1 + s))


@spec(VG + 'g_xi_sep', 'ln_s', 'T', 'S01')
def g_xi_sep(ln_s):
    return -ln_s / 12


@spec(VG + 'g_xi', 's', 'T', 'S01')
def g_xi(s):
    return -ln(s) / 12


@spec(VG + 'dressing_inv_landau_sep', 's ln_s ln_s_pl_1 g0', 'T', 'S02')
def gh_inv_landau_sep(s, a, b, g0):
    return g_sep(s, a, b) + g0


@spec(VG + 'dressing_inv_sep', 's ln_s ln_s_pl_1 g0 xi', 'T', 'S02')
def gh_inv_sep(s, a, b, g0, xi):
    return g_sep(s, a, b) + xi * g_xi_sep(a) + g0


# ------------------------------------------- vacuum dressings and propagators
def family(base, prop, args, inv, tag='', dress='dressing%s', arg_s='s'):
    """inverse dressing, dressing = 1/inverse, propagator = dressing/s"""
    nm = {'inv': base + 'dressing' + tag + '_inv%s', 'd': base + 'dressing' + tag + '%s', 'p': base + 'propagator' + tag + '%s'}
    out = {}
    for gauge, a in (('_landau', args), ('', args + ' xi')):
        def mk(gauge=gauge, a=a):
            n = len(a.split())

            @spec(nm['inv'] % gauge, a, 'T', prop)
            def i_(*xs):
                return inv(*(xs if gauge == '' else xs + (ZERO,)))

            @spec(nm['d'] % gauge, a, 'T', prop)
            def d_(*xs):
                return 1 / i_(*xs)

            @spec(nm['p'] % gauge, a, 'T', prop)
            def p_(*xs):
                return 1 / (xs[0] * i_(*xs))
            out[gauge] = (i_, d_, p_)
        mk()
    return out


def landau_or(xi, a, b):
    return a if xi is ZERO else a + xi * b


YM = family('ym::gluon::', 'S02', 's f0', lambda s, f0, xi: landau_or(xi, f(s) + f0, f_xi(s)))
YG = family('ym::ghost::', 'S02', 's g0', lambda s, g0, xi: landau_or(xi, g(s) + g0, g_xi(s)))
NF_NC = G['NF'] / G['NC']


def _qcd(fq):
    def inv(s, mq, f0, xi):
        base = YM['_landau'][0](s, f0) if xi is ZERO else YM[''][0](s, f0, xi)
        return base + NF_NC * fq(s / (mq * mq))
    return inv


QCD = family('qcd::gluon::', 'S03', 's mq f0', _qcd(f_q))
QCDX = family('qcd::gluon::', 'S03', 's mq f0', _qcd(f_q_crossed), tag='_crossed')


def _qcd_cfg(fq):
    def inv(s, f0, xi, cfg):
        base = YM['_landau'][0](s, f0) if xi is None else YM[''][0](s, f0, xi)
        return base + cfg.sum(lambda nf, mq: nf / cfg.nc * fq(s / ((mq / cfg.m) * (mq / cfg.m))))
    return inv


CFG = {}        # path -> (argnames, body(args..., Cfg), prop)


def cfgspec(path, args, prop):
    def deco(fu):
        CFG[path] = (args.split(), fu, prop)
        return fu
    return deco


for _tag, _fq in (('', f_q), ('_crossed', f_q_crossed)):
    _inv = _qcd_cfg(_fq)
    for _g, _a in (('_landau', 's f0 config'), ('', 's f0 xi config')):
        def _mk(_g=_g, _a=_a, _inv=_inv, _tag=_tag):
            def full(s, f0, *r):
                return _inv(s, f0, r[0] if len(r) == 2 else None, r[-1])
            cfgspec('qcd::gluon::dressing%s_inv%s_w_field_config' % (_tag, _g), _a, 'S04')(full)
            cfgspec('qcd::gluon::dressing%s%s_w_field_config' % (_tag, _g), _a, 'S04')(lambda *x: 1 / full(*x))
            cfgspec('qcd::gluon::propagator%s%s_w_field_config' % (_tag, _g), _a, 'S04')(lambda *x: 1 / (x[0] * full(*x)))
            return full
        if _g == '_landau' and _tag == '':
            qcd_cfg_inv_landau = _mk()
        else:
            _mk()

# --------------------------------------------------------- thermal tadpoles
TL = 'low_level::oneloop::thermal::'


def en_(q, m):
    return q if m is ZERO else energy(q, m)


def _tad(name, body):
    """j-type integrand with mass m, and the massless one"""
    @spec(TL + name % 'm', 'q m beta', 'T', 'S07')
    def jm(q, m, beta):
        return body(q, en_(q, m), beta)

    @spec(TL + name % '0', 'q beta', 'R', 'S07')
    def j0(q, beta):
        return body(q, q, beta)
    return jm, j0


j_m, j_0 = _tad('j_%s_i', lambda q, e, b: q * q * bose0(e, b) / (e * 2 * PI2))
j_m_l, j_0_l = _tad('j_%s_l_i', lambda q, e, b: -q * q * e * bose0(e, b) / (2 * PI2))
j_m_t, j_0_t = _tad('j_%s_t_i', lambda q, e, b: q ** 4 * bose0(e, b) / (e * 6 * PI2))
d_j_m, d_j_0 = _tad('d_j_%s_i', lambda q, e, b: -bose0(e, b) / (e * 4 * PI2))
d_j_m_l, d_j_0_l = _tad('d_j_%s_l_i', lambda q, e, b: e * bose0(e, b) / (4 * PI2))
d_j_m_t, d_j_0_t = _tad('d_j_%s_t_i', lambda q, e, b: -q * q * bose0(e, b) / (e * 4 * PI2))
d2_j_m, d2_j_0 = _tad('d2_j_%s_i', lambda q, e, b: (bose0(e, b) / e ** 3 - b * bose0(e, b) * bose0(-e, b) / e ** 2) / (8 * PI2))
d2_j_m_l, d2_j_0_l = _tad('d2_j_%s_l_i', lambda q, e, b: (bose0(e, b) / e + b * bose0(e, b) * bose0(-e, b)) / (8 * PI2))
d2_j_m_t, d2_j_0_t = _tad('d2_j_%s_t_i', lambda q, e, b: bose0(e, b) / (e * 8 * PI2))


# ------------------------------------------------- thermal logarithms, bubbles
def r0(om, p, en, delta):
    return om * om + 2 * I * en * om + p * p + delta


def _log(q, om, p, en, delta):
    r = r0(om, p, en, delta)
    return ln((r + 2 * q * p) / (r - 2 * q * p))


def pf_l(om, p, en, delta):
    return om * om + 2 * I * en * om + delta + p * p * (2 * I * en / om + 1)


def _logs(sfx, args, sel):
    """tlog, tlog_l, tlog_t with (en, delta) chosen by sel"""
    @spec(TL + 'tlog' + sfx, 'q om p' + args, 'C', 'S08')
    def t(q, om, p, *a):
        en, d = sel(q, *a)
        return _log(q, om, p, en, d)

    @spec(TL + 'tlog_l' + sfx, 'q om p' + args, 'C', 'S08')
    def tl(q, om, p, *a):
        en, d = sel(q, *a)
        return pf_l(om, p, en, d) ** 2 * t(q, om, p, *a)

    @spec(TL + 'tlog_t' + sfx, 'q om p' + args, 'C', 'S08')
    def tt(q, om, p, *a):
        en, d = sel(q, *a)
        r = r0(om, p, en, d)
        return (r + 2 * q * p) * (r - 2 * q * p) * t(q, om, p, *a)
    return t, tl, tt


tlog, tlog_l, tlog_t = _logs('', ' en delta', lambda q, en, d: (en, d))
tlog_sm, tlog_l_sm, tlog_t_sm = _logs('_same_mass', ' en', lambda q, en: (en, ZERO))
tlog_zm, tlog_l_zm, tlog_t_zm = _logs('_zero_mass', '', lambda q: (q, ZERO))


class Masses:
    """the two legs of a bubble: energies, squared masses and the logs to use"""

    def __init__(self, q, e1, e2, m1sq, m2sq, logs, kind):
        self.q, self.e1, self.e2, self.m1, self.m2, self.logs, self.kind = q, e1, e2, m1sq, m2sq, logs, kind

    def log(self, which, leg, om, p):
        """which: 0 plain, 1 l, 2 t"""
        e = self.e1 if leg == 1 else self.e2
        d = (self.m2 - self.m1) if leg == 1 else (self.m1 - self.m2)
        if self.kind == 'same':
            return (tlog_sm, tlog_l_sm, tlog_t_sm)[which](self.q, om, p, e)
        if self.kind == 'zero':
            return (tlog_zm, tlog_l_zm, tlog_t_zm)[which](self.q, om, p)
        return (tlog, tlog_l, tlog_t)[which](self.q, om, p, e, d)

    def delta(self, leg):
        return (self.m2 - self.m1) if leg == 1 else (self.m1 - self.m2)

    def e(self, leg):
        return self.e1 if leg == 1 else self.e2


def legs(f):
    return f(1) + f(2)


def I_plain(M, om, p, beta):
    q = M.q
    return legs(lambda k: bose0(M.e(k), beta) / M.e(k) * (M.log(0, k, om, p) + M.log(0, k, -om, p)) / 2) * q / (p * 8 * PI2)


def I_l(M, om, p, beta):
    q = M.q
    s = om * om + p * p
    t = legs(lambda k: bose0(M.e(k), beta) / M.e(k) * ((M.log(1, k, om, p) + M.log(1, k, -om, p)) / 2 - 4 * q * p * (s + M.delta(k))))
    return om * om / s * t * q / (p ** 3 * 32 * PI2)


def I_t(M, om, p, beta):
    q = M.q
    s = om * om + p * p
    t = legs(lambda k: bose0(M.e(k), beta) / M.e(k) * ((M.log(2, k, om, p) + M.log(2, k, -om, p)) / 2 - 4 * q * p * (s + M.delta(k))))
    return -t * q / (p ** 3 * 64 * PI2)


def _poles(M, k, om, p):
    """1/(r+2qp), 1/(r-2qp) for leg k"""
    r = r0(om, p, M.e(k), M.delta(k))
    return 1 / (r + 2 * M.q * p), 1 / (r - 2 * M.q * p)


def D_plain(M, om, p, beta):
    """derivative of I_plain with respect to the first squared mass (up to a total q-derivative)"""
    q = M.q
    b1, b2 = bose0(M.e1, beta) / M.e1, bose0(M.e2, beta) / M.e2
    P = {(k, s): _poles(M, k, om if s > 0 else -om, p) for k in (1, 2) for s in (1, -1)}
    x1 = -b1 * (P[1, 1][0] + P[1, 1][1] + P[1, -1][0] + P[1, -1][1]) / 2
    x2 = b2 * (P[2, 1][0] - P[2, 1][1] + P[2, -1][0] - P[2, -1][1]) / 2
    x3 = -b1 * (P[1, 1][0] - P[1, 1][1] + P[1, -1][0] - P[1, -1][1]) / 2
    return (x1 + (x2 + x3) * q / p) / (8 * PI2)


def D_l(M, om, p, beta):
    q = M.q
    b = {1: bose0(M.e1, beta) / M.e1, 2: bose0(M.e2, beta) / M.e2}
    s = om * om + p * p
    oms = (om, -om)
    pf = {(k, i): pf_l(oms[i], p, M.e(k), M.delta(k)) for k in (1, 2) for i in (0, 1)}
    P = {(k, i): _poles(M, k, oms[i], p) for k in (1, 2) for i in (0, 1)}
    lg = {(k, i): M.log(0, k, oms[i], p) for k in (1, 2) for i in (0, 1)}
    t1 = -b[1] * ((P[1, 0][0] + P[1, 0][1]) * pf[1, 0] ** 2 + (P[1, 1][0] + P[1, 1][1]) * pf[1, 1] ** 2) / 4
    t2 = b[1] * (s + M.delta(1))
    t3 = 2 * q * q * (b[1] - b[2])
    w = {k: pf[k, 0] * lg[k, 0] + pf[k, 1] * lg[k, 1] for k in (1, 2)}
    t4 = q / p * (b[2] * w[2] - b[1] * w[1]) / 2
    v = {k: pf[k, 0] ** 2 * (P[k, 0][0] - P[k, 0][1]) + pf[k, 1] ** 2 * (P[k, 1][0] - P[k, 1][1]) for k in (1, 2)}
    t5 = q / p * (b[2] * v[2] - b[1] * v[1]) / 4
    return om * om / s * (t1 + t2 + t3 + t4 + t5) / (16 * PI2 * p * p)


def D_t(M, om, p, beta):
    q = M.q
    b = {1: bose0(M.e1, beta) / M.e1, 2: bose0(M.e2, beta) / M.e2}
    lg = {(k, i): M.log(0, k, (om, -om)[i], p) for k in (1, 2) for i in (0, 1)}
    t1 = -q / p * b[1] * (lg[1, 0] + lg[1, 1]) / (32 * PI2)
    t2 = q * q / (p * p) * (b[2] - b[1]) / (8 * PI2)
    w = {k: b[k] * (r0(om, p, M.e(k), M.delta(k)) * lg[k, 0] + r0(-om, p, M.e(k), M.delta(k)) * lg[k, 1]) / 2 for k in (1, 2)}
    t3 = q / p ** 3 * (w[1] - w[2]) / (32 * PI2)
    return t1 + t2 + t3


def _mm(q, m1, m2):
    return Masses(q, en_(q, m1), en_(q, m2), m1 * m1, m2 * m2, None, 'gen')


def _sm(q, m):
    e = en_(q, m)
    return Masses(q, e, e, m * m, m * m, None, 'same')


def _m0(q, m):
    return Masses(q, en_(q, m), q, m * m, ZERO, None, 'gen')


def _00(q):
    return Masses(q, q, q, ZERO, ZERO, None, 'zero')


ZM, ZP = TL + 'zero_matsubara::', TL + 'zero_momentum::'
_x = sym('$lim', False)


def abs_log(c0):
    """ln(c+i0)+ln(c-i0) = ln(c^2): the two opposite frequencies of the limit"""
    return ln(c0 * c0) / 2


def lim_om(e):
    return limit(e, _x, 7, abs_log)


def lim_p(e):
    return limit(e, _x, 8)


from dsl import unfold as _unfold
_KEEP = ('common::energy', TH + 'bose_distribution_zero_chempot', TH + 'fermi_distribution_double',
         TH + 'fermi_distribution_double_zero_temp', TH + 'fermi_distribution')
_limcache = {}


def limit_fn(which, name, args, f):
    """f(om, p) -> general term; returns a function of the variant's arguments"""
    syms = [sym('$a%d' % i, True) for i in range(len(args))]

    def body(*xs):
        if name not in _limcache:
            # computed once, over formal arguments
            _limcache[name] = None
        key = (name,) + tuple(x.id for x in xs)
        r = _limcache.get(key)
        if r is None:
            om, p, rest = f(*xs)
            r = (lim_om if which == 'om' else lim_p)(_unfold(rest(om, p), _KEEP))
            _limcache[key] = r
        return r
    return body


B = {}          # (name, regime) -> spec


def bubble(name, body, masses, sfx, margs, ret, zmret, prop):
    """general-frequency contract and its two limits"""
    @spec(TL + name, 'q om p' + margs + ' beta', ret, prop)
    def gen(q, om, p, *r):
        return body(masses(q, *r[:-1]), om, p, r[-1])
    B[name, ''] = gen

    def zm(q, p, *r):
        key = ('zm', name, q.id, p.id) + tuple(x.id for x in r)
        if key not in _limcache:
            _limcache[key] = lim_om(_unfold(body(masses(q, *r[:-1]), _x, p, r[-1]), _KEEP))
        return _limcache[key]
    B[name, 'zm'] = spec(ZM + name, 'q p' + margs + ' beta', zmret, 'S10')(zm)

    def zp(q, om, *r):
        key = ('zp', name, q.id, om.id) + tuple(x.id for x in r)
        if key not in _limcache:
            _limcache[key] = lim_p(_unfold(body(masses(q, *r[:-1]), om, _x, r[-1]), _KEEP))
        return _limcache[key]
    B[name, 'zp'] = spec(ZP + name, 'q om' + margs + ' beta', 'C', 'S11')(zp)


for _pre, _bod, _pr in (('i_%s_i%s', I_plain, 'S08'), ('i_%s_l_i%s', I_l, 'S08'), ('i_%s_t_i%s', I_t, 'S08'),
                        ('d_i_%s_i%s', D_plain, 'S09'), ('d_i_%s_l_i%s', D_l, 'S09'), ('d_i_%s_t_i%s', D_t, 'S09')):
    bubble(_pre % ('m_m', ''), _bod, _mm, '', ' m1 m2', 'C', 'C', _pr)
    bubble(_pre % ('m_m', '_same_mass'), _bod, _sm, '', ' m', 'C', 'T', _pr)
    bubble(_pre % ('m_0', ''), _bod, _m0, '', ' m', 'C', 'T' if _pre in ('d_i_%s_i%s', 'd_i_%s_l_i%s') else 'C', _pr)
    bubble(_pre % ('0_0', ''), _bod, _00, '', '', 'C', 'R', _pr)

# logarithms at zero frequency
for _n, _a, _s in (('tlog', 'q p delta', 'C'), ('tlog_t', 'q p delta', 'C'), ('tlog_same_mass', 'q p', 'R'),
                   ('tlog_t_same_mass', 'q p', 'R'), ('tlog_zero_mass', 'q p', 'R'), ('tlog_t_zero_mass', 'q p', 'R')):
    def _mk(_n=_n, _a=_a):
        def body(q, p, delta=None):
            en = sym('$en', False)
            a = {'tlog': (q, _x, p, en, delta), 'tlog_t': (q, _x, p, en, delta)}.get(_n)
            if a is None:
                a = (q, _x, p, en) if 'same' in _n else (q, _x, p)
            return lim_om(_unfold(REG[TL + _n](*a), _KEEP))
        return body
    spec(ZM + _n, _a, _s, 'S10')(_mk())

# ------------------------------------------------ ghost self-energy integrand
TGH = TL + 'ghost::'


def ghost_se(q, s, m, beta, R, om, p):
    """R(name, masses...) evaluates a bubble in the regime at hand"""
    m2 = m * m
    a = s + m2
    return (-s * a / (2 * m2) * R('i_m_0_i', m) + s * s / (2 * m2) * R('i_0_0_i')
            + (2 * s - m2) / (4 * m2) * (j_m(q, m, beta) - j_0(q, beta))
            + a * a / 4 * R('d_i_m_0_i', m) - (s - m2) / 4 * d_j_m(q, m, beta))


def regime(q, om, p, beta):
    """bubble evaluator: p/om None selects the limit"""
    def R(name, *m):
        if om is None:
            return B[name, 'zm'](q, p, *m, beta)
        if p is None:
            return B[name, 'zp'](q, om, *m, beta)
        return B[name, ''](q, om, p, *m, beta)
    return R


REGIMES = (('', 'om p', lambda om, p: (om, p)), ('zero_matsubara::', 'p', lambda p: (None, p)), ('zero_momentum::', 'om', lambda om: (om, None)))


def sq(om, p):
    return (om * om if om is not None else ZERO) + (p * p if p is not None else ZERO)


GH_I, GLUE_I, QUARK_I = {}, {}, {}
for _sub, _v, _sel in REGIMES:
    def _mk(_sub=_sub, _v=_v, _sel=_sel):
        n = len(_v.split())

        @spec(TGH + _sub + 'self_energy_thermal_part_landau_i', 'q %s m beta' % _v, 'C', 'S12')
        def gi(q, *a):
            om, p = _sel(*a[:n])
            m, beta = a[n:]
            return ghost_se(q, sq(om, p), m, beta, regime(q, om, p, beta), om, p)
        GH_I[_sub] = gi
    _mk()

# ------------------------------------------- gluon polarization: glue integrand
TGL = TL + 'gluon::'


def proj(pol, om, p, l, t):
    """projected tadpole: longitudinal (p^2 l + om^2 t)/(om^2+p^2), transverse t"""
    if pol == 't' or p is None:
        return t
    if om is None:
        return l
    return (p * p * l + om * om * t) / (om * om + p * p)


def glue(pol, q, s, m, beta, R, om, p):
    m2 = m * m
    m4 = m2 * m2
    s2 = s * s
    X = '_' + pol
    c = const
    j = [proj(pol, om, p, l(q, m, beta), t(q, m, beta)) for l, t in ((j_m_l, j_m_t), (d_j_m_l, d_j_m_t), (d2_j_m_l, d2_j_m_t))]
    j00 = proj(pol, om, p, j_0_l(q, beta), j_0_t(q, beta))
    return ((3 * s2 / (2 * m4) - 1) * R('i_0_0%s_i' % X)
            + (4 + (3 * s2 + 8 * m2 * s + 4 * m4) / (2 * m4)) * R('i_m_m%s_i_same_mass' % X, m)
            - (3 * s2 + 4 * m2 * s + m4) / m4 * R('i_m_0%s_i' % X, m)
            + 2 * s * (s + 2 * m2) / m2 * R('i_m_m_i_same_mass', m)
            - 2 * s * (s + m2) / m2 * R('i_m_0_i', m)
            - (2 * s + 3 * m2) / m2 * j_m(q, m, beta)
            + (2 * s + m2) / m2 * j_0(q, beta)
            - (8 * m2 + (s + 2 * m2) ** 2 / m2) * R('d_i_m_m%s_i_same_mass' % X, m)
            + (s + m2) ** 2 / m2 * R('d_i_m_0%s_i' % X, m)
            - 2 * s * (s + 4 * m2) * R('d_i_m_m_i_same_mass', m)
            + (s + m2) ** 2 * R('d_i_m_0_i', m)
            + (s + 3 * m2) * d_j_m(q, m, beta)
            - m4 * d2_j_m(q, m, beta)
            + (j[0] - j00) / m2 - j[1] + m2 / 2 * j[2])


for _sub, _v, _sel in REGIMES:
    for _pol in 'lt':
        def _mk(_sub=_sub, _v=_v, _sel=_sel, _pol=_pol):
            n = len(_v.split())

            @spec(TGL + _sub + 'polarization_glue_%s_thermal_part_landau_i' % _pol, 'q %s m beta' % _v, 'C', 'S13')
            def gi(q, *a):
                om, p = _sel(*a[:n])
                m, beta = a[n:]
                return glue(_pol, q, sq(om, p), m, beta, regime(q, om, p, beta), om, p)
            GLUE_I[_pol, _sub] = gi
        _mk()


# ------------------------------------------ gluon polarization: quark integrand
def quark_l(q, om, p, e, dist, lg, lgo):
    s = om * om + p * p
    t1 = (s - 4 * e * e + 4 * I * e * om) / (8 * q * p) * lg
    t2 = (s - 4 * e * e - 4 * I * e * om) / (8 * q * p) * lgo
    return -(s / (p * p)) * dist * q * q / e * (1 - t1 - t2) / (2 * G['NC'] * PI2)


def quark_trace(q, om, p, mq, e, dist, lg, lgo):
    s = om * om + p * p
    c = (s - 2 * mq * mq) / (8 * q * p)
    return -dist * q * q / e * (1 - c * lg - c * lgo) / (G['NC'] * PI2)


def quark_gen(pol, q, om, p, mq, dist):
    e = energy(q, mq)
    lg, lgo = tlog_sm(q, om, p, e), tlog_sm(q, -om, p, e)
    l = quark_l(q, om, p, e, dist(e), lg, lgo)
    if pol == 'l':
        return l
    # the trace fixes the transverse part: trace = l + 2 t   (mq^2 = e^2 - q^2)
    s = om * om + p * p
    c = (s - 2 * (e * e - q * q)) / (8 * q * p)
    tr = -dist(e) * q * q / e * (1 - c * lg - c * lgo) / (G['NC'] * PI2)
    return (tr - l) / 2


for _T, _nm, _ta in (('T', '', ' beta'), ('0', '_zero_temp', '')):
    for _sub, _v, _sel in REGIMES:
        for _pol in 'lt':
            def _mk(_sub=_sub, _v=_v, _sel=_sel, _pol=_pol, _T=_T, _nm=_nm, _ta=_ta):
                n = len(_v.split())
                ret = {'': 'C', 'zero_matsubara::': 'R', 'zero_momentum::': 'T'}[_sub]

                @spec(TGL + _sub + 'polarization_quark_%s_thermal_part%s_landau_i' % (_pol, _nm), 'q %s mq%s mu' % (_v, _ta), ret, 'S14')
                def qi(q, *a):
                    om, p = _sel(*a[:n])
                    r = a[n:]
                    mq, mu = r[0], r[-1]
                    dist = (lambda e: fermi2(e, r[1], mu)) if _T == 'T' else (lambda e: fermi2_t0(e, mu))
                    if om is None:
                        return lim_om(_unfold(quark_gen(_pol, q, _x, p, mq, dist), _KEEP))
                    if p is None:
                        return lim_p(_unfold(quark_gen(_pol, q, om, _x, mq, dist), _KEEP))
                    return quark_gen(_pol, q, om, p, mq, dist)
                QUARK_I[_pol, _T, _sub] = qi
            _mk()

# ------------------------------------------------------------------ integrals
METH = ' integral'


def radial(f, method, real=None):
    """int_0^inf dq f(q) with q = (1-t)/t"""
    return integral(lambda t: f((1 - t) / t) / (t * t), ZERO, ONE, method, real)


GH, GLUE, QUARK = {}, {}, {}


def default_method(sub, what):
    if sub == 'zero_matsubara::' and what == 'gluon':
        # the default 1e-10 is unattainable near the zero-frequency branch cut and
        # is replaced by 1e-8; anything the user has chosen is respected
        M = DEFAULT_METHOD
        isdef = T.band(cmp('eq', G['TOL'], const(Fr(1, 10**10))), cmp('eq', G['MAXIT'], const(50)))
        return ite(isdef, fn('method:G7K15', const(Fr(1, 10**8)), G['MAXIT'], real=True), M)
    return DEFAULT_METHOD


def _ints(path, args, ret, what, sub, wm, prop='S15'):
    w = spec(path + '_w_method', args + METH, ret, prop)(wm)
    d = spec(path, args, ret, 'S24' if (sub == 'zero_matsubara::' and what == 'gluon') else prop)(
        lambda *a: w(*a, default_method(sub, what)))
    return w, d


for _sub, _v, _sel in REGIMES:
    def _mk(_sub=_sub, _v=_v, _sel=_sel):
        zm = _sub == 'zero_matsubara::'
        ret = 'R' if zm else 'C'

        def w(*a):
            M = a[-1]
            part = re if zm else (lambda x: x)
            return radial(lambda q: part(GH_I[_sub](q, *a[:-1])), M)
        GH[_sub] = _ints(TGH + _sub + 'self_energy_thermal_part_landau', _v + ' m beta', ret, 'ghost', _sub, w)
        for pol in 'lt':
            def wg(*a, pol=pol):
                M = a[-1]
                if zm:
                    return radial(lambda q: re(GLUE_I[pol, ''](q, G['REG'], *a[:-1])), M)
                return radial(lambda q: GLUE_I[pol, _sub](q, *a[:-1]), M)
            GLUE[pol, _sub] = _ints(TGL + _sub + 'polarization_glue_%s_thermal_part_landau' % pol, _v + ' m beta', ret, 'gluon', _sub, wg)

            def qint(q, T_, a, pol):
                if zm:
                    return re(QUARK_I[pol, T_, ''](q, G['REG'], *a))
                return QUARK_I[pol, T_, _sub](q, *a)

            def wq(*a, pol=pol):
                return radial(lambda q: qint(q, 'T', a[:-1], pol), a[-1])
            QUARK[pol, 'T', _sub] = _ints(TGL + _sub + 'polarization_quark_%s_thermal_part_landau' % pol, _v + ' mq beta mu', ret, 'gluon', _sub, wq)

            def w0(*a, pol=pol):
                mq, mu = a[-3], a[-2]
                body = integral(lambda q: qint(q, '0', a[:-1], pol), ZERO, fermi_momentum(mq, mu), a[-1])
                return ite(cmp('lt', absv(mu), absv(mq)), ZERO, body)
            QUARK[pol, '0', _sub] = _ints(TGL + _sub + 'polarization_quark_%s_thermal_part_zero_temp_landau' % pol, _v + ' mq mu', ret, 'gluon', _sub, w0)
    _mk()

# ------------------------------------------- thermal dressings and propagators
def _fam(base, names, args, ret, prop, inv, sdim):
    i_ = spec(base + names[0], args, ret, prop)(inv)
    spec(base + names[1], args, ret, prop)(lambda *a: 1 / i_(*a))
    spec(base + names[2], args, ret, prop)(lambda *a: 1 / (sdim(*a) * i_(*a)))
    return i_


def _cfam(base, names, args, prop, inv, sdim):
    cfgspec(base + names[0], args, prop)(inv)
    cfgspec(base + names[1], args, prop)(lambda *a: 1 / inv(*a))
    cfgspec(base + names[2], args, prop)(lambda *a: 1 / (sdim(*a) * inv(*a)))


def _names(pol, tag=''):
    x = '_%s' % pol if pol else ''
    return ['dressing%s_inv%s' % (x, tag), 'dressing%s%s' % (x, tag), 'propagator%s%s' % (x, tag)]


for _sub, _v, _sel in REGIMES:
    def _mk(_sub=_sub, _v=_v, _sel=_sel):
        n = len(_v.split())
        ret = 'R' if _sub == 'zero_matsubara::' else 'C'

        def sd(*a):
            return sq(*_sel(*a[:n]))

        def gh(*a):
            m, beta, g0 = a[n:]
            return YG['_landau'][0](sd(*a) / (m * m), g0) + PF / sd(*a) * GH[_sub][1](*a[:n], m, beta)
        _fam('ym::thermal::%sghost::' % _sub, _names('', '_landau'), _v + ' m beta g0', ret, 'S16', gh, sd)
        for pol in 'lt':
            def ym(*a, pol=pol):
                m, beta, f0 = a[n:]
                return YM['_landau'][0](sd(*a) / (m * m), f0) - PF / sd(*a) * GLUE[pol, _sub][1](*a[:n], m, beta)
            _fam('ym::thermal::%sgluon::' % _sub, _names(pol, '_landau'), _v + ' m beta f0', ret, 'S16', ym, sd)

            def qt(*a, pol=pol):
                m, mq, beta, mu, f0 = a[n:]
                x = a[:n]
                return (QCD['_landau'][0](sd(*a) / (m * m), mq / m, f0)
                        - PF / sd(*a) * (GLUE[pol, _sub][1](*x, m, beta) + G['NF'] * QUARK[pol, 'T', _sub][1](*x, mq, beta, mu)))
            _fam('qcd::thermal::%sgluon::' % _sub, _names(pol, '_landau'), _v + ' m mq beta mu f0', ret, 'S17', qt, sd)

            def q0(*a, pol=pol):
                m, mq, mu, f0 = a[n:]
                x = a[:n]
                return (QCD['_landau'][0](sd(*a) / (m * m), mq / m, f0)
                        - PF / sd(*a) * G['NF'] * QUARK[pol, '0', _sub][1](*x, mq, mu))
            _fam('qcd::thermal::%sgluon::' % _sub, _names(pol, '_zero_temp_landau'), _v + ' m mq mu f0', ret, 'S17', q0, sd)

            # field configurations: the quark polarization carries 1/(number of
            # colours in force); the configuration's own number must count
            def ct(*a, pol=pol):
                beta, mu, f0, cfg = a[n:]
                x = a[:n]
                m = cfg.m
                return (qcd_cfg_inv_landau(sd(*a) / (m * m), f0, cfg)
                        - PF / sd(*a) * (GLUE[pol, _sub][1](*x, m, beta)
                                         + cfg.sum(lambda nf, mq: nf / cfg.nc * G['NC'] * QUARK[pol, 'T', _sub][1](*x, mq, beta, mu))))
            _cfam('qcd::thermal::%sgluon::' % _sub, _names(pol, '_landau_w_field_config'), _v + ' beta mu f0 config', 'S18', ct, sd)

            def c0(*a, pol=pol):
                mu, f0, cfg = a[n:]
                x = a[:n]
                m = cfg.m
                return (qcd_cfg_inv_landau(sd(*a) / (m * m), f0, cfg)
                        - PF / sd(*a) * cfg.sum(lambda nf, mq: nf / cfg.nc * G['NC'] * QUARK[pol, '0', _sub][1](*x, mq, mu)))
            _cfam('qcd::thermal::%sgluon::' % _sub, _names(pol, '_zero_temp_landau_w_field_config'), _v + ' mu f0 config', 'S18', c0, sd)
    _mk()

# ---------------------------------------------------------------- quark density
QT = 'qcd::thermal::quark::'


@spec(QT + 'charge_density_with_method', 'm beta mu integral', 'R', 'S19')
def charge_density_w(m, beta, mu, method):
    return radial(lambda q: G['NC'] * q * q / PI2 * (fermi(energy(q, m), beta, mu) - fermi(energy(q, m), beta, -mu)), method)


@spec(QT + 'charge_density', 'm beta mu', 'R', 'S19')
def charge_density(m, beta, mu):
    return charge_density_w(m, beta, mu, DEFAULT_METHOD)


@spec(QT + 'charge_density_zero_temp', 'm mu', 'R', 'S19')
def charge_density_t0(m, mu):
    kf = fermi_momentum(m, mu)
    sign = ite(cmp('lt', ZERO, mu), ONE, const(-1))
    return ite(cmp('le', absv(mu), absv(m)), ZERO, sign * G['NC'] * kf ** 3 / (3 * PI2))


@spec(QT + 'chemical_potential_zero_temp', 'm n', 'R', 'S20')
def chemical_potential_t0(m, n):
    kf2 = fn('pow', 3 * PI2 * absv(n) / G['NC'], const(Fr(2, 3)))
    sign = ite(cmp('lt', ZERO, n), ONE, const(-1))
    return ite(cmp('eq', n, ZERO), ZERO, sign * sqrt(m * m + kf2))


# re-exported ghost functions (same contracts under another name)
ALIASES = {'qcd::ghost::': 'ym::ghost::', 'qcd::thermal::ghost::': 'ym::thermal::ghost::',
           'qcd::thermal::zero_matsubara::ghost::': 'ym::thermal::zero_matsubara::ghost::',
           'qcd::thermal::zero_momentum::ghost::': 'ym::thermal::zero_momentum::ghost::'}
