"""Published definitions, written in the analysed subset of Python.

These functions are never executed: the abstract interpreter computes their
value numbers and the checks compare them with the value numbers of the
library's functions.  x is the phase record, m the averaging factor; each
returns (deviation, number of terms).
References: NIST SP 1065 (Riley & Howe 2008), Vernotte 2016 (PVAR),
Vernotte 2016b (groslambert covariance), Sesia & Tavella (gaps), ITU-T G.810.
"""
import numpy as np
import scipy.stats
import scipy.special
from scipy.integrate import quad


def integrate(y, rate):
    """phase from fractional frequency: running integral of the mean-removed
    data, starting at zero"""
    x = np.zeros(len(y) + 1)
    x[1:] = np.cumsum(y - np.sum(y) / len(y)) / rate
    return x


def adev(x, rate, m):
    n = -((2 * m - len(x)) // m)
    s = 0
    for k in range(n):
        s = s + (x[(k + 2) * m] - 2 * x[(k + 1) * m] + x[k * m]) ** 2
    return np.sqrt(s / (2 * n)) * rate / m, n


def oadev(x, rate, m):
    n = len(x) - 2 * m
    s = 0
    for i in range(n):
        s = s + (x[i + 2 * m] - 2 * x[i + m] + x[i]) ** 2
    return np.sqrt(s / (2 * n)) * rate / m, n


def hdev(x, rate, m):
    n = -((3 * m - len(x)) // m)
    s = 0
    for k in range(n):
        s = s + (x[(k + 3) * m] - 3 * x[(k + 2) * m] + 3 * x[(k + 1) * m] - x[k * m]) ** 2
    return np.sqrt(s / (6 * n)) * rate / m, n


def ohdev(x, rate, m):
    n = len(x) - 3 * m
    s = 0
    for i in range(n):
        s = s + (x[i + 3 * m] - 3 * x[i + 2 * m] + 3 * x[i + m] - x[i]) ** 2
    return np.sqrt(s / (6 * n)) * rate / m, n


def mdev(x, rate, m):
    n = len(x) - 3 * m + 1
    s = 0
    for j in range(n):
        a = 0
        for i in range(m):
            a = a + x[j + i + 2 * m] - 2 * x[j + i + m] + x[j + i]
        s = s + a ** 2
    return np.sqrt(s / (2 * n)) * rate / m ** 2, n


def tdev(x, rate, m):
    d, n = mdev(x, rate, m)
    return d * m / rate / np.sqrt(3), n


def pdev(x, rate, m):
    if m == 1:
        return oadev(x, rate, m)
    n = len(x) - 2 * m
    s = 0
    for i in range(n):
        a = 0
        for k in range(m):
            a = a + ((m - 1) / 2 - k) * (x[i + k] - x[i + k + m])
        s = s + a ** 2
    return np.sqrt(72 * s / n) * rate / m ** 3, n


def gcodev(x, z, rate, m):
    n = len(x) - 2 * m
    s = 0
    for i in range(n):
        s = s + (x[i + 2 * m] - 2 * x[i + m] + x[i]) * (z[i + 2 * m] - 2 * z[i + m] + z[i])
    return np.sqrt(np.abs(s) / (2 * n)) * rate / m, n


def totdev(x, rate, m):
    # reflection of the whole record about both end points, N - 2 terms
    N = len(x)
    e = np.zeros(3 * N - 4)
    for k in range(N - 2):
        e[k] = 2 * x[0] - x[N - 2 - k]
    for k in range(N):
        e[N - 2 + k] = x[k]
    for k in range(N - 2):
        e[2 * N - 2 + k] = 2 * x[N - 1] - x[N - 2 - k]
    n = N - 2
    s = 0
    for i in range(n):
        c = N - 1 + i
        s = s + (e[c - m] - 2 * e[c] + e[c + m]) ** 2
    return np.sqrt(s / (2 * n)) * rate / m, n


def mtot_even(x, rate, p):
    return mtot(x, rate, 2 * p, 3 * p, 3 * p, 3 * p)


def mtot(x, rate, m, h1, h2, sep):
    # h1: points in the first half, h2: start of the second half, sep: distance
    # between the centres of the halves
    n = len(x) - 3 * m + 1
    tot = 0
    for i in range(n):
        a = 0
        for k in range(h1):
            a = a + x[i + k]
        b = 0
        for k in range(3 * m - h2):
            b = b + x[i + h2 + k]
        slope = (b / (3 * m - h2) - a / h1) / sep
        e = np.zeros(9 * m)
        for k in range(3 * m):
            e[k] = x[i + 3 * m - 1 - k] - slope * (3 * m - 1 - k)
        for k in range(3 * m):
            e[3 * m + k] = x[i + k] - slope * k
        for k in range(3 * m):
            e[6 * m + k] = x[i + 3 * m - 1 - k] - slope * (3 * m - 1 - k)
        c = np.zeros(9 * m + 1)
        c[1:] = np.cumsum(e)
        s = 0
        for j in range(6 * m):
            s = s + ((c[j + 3 * m] - 3 * c[j + 2 * m] + 3 * c[j + m] - c[j]) / m) ** 2
        tot = tot + s / (6 * m)
    return tot, n


def mtotdev(x, rate, m, h1, h2, sep):
    tot, n = mtot(x, rate, m, h1, h2, sep)
    return np.sqrt(tot / (2 * n)) * rate / m, n


def ttotdev(x, rate, m, h1, h2, sep):
    tot, n = mtot(x, rate, m, h1, h2, sep)
    return np.sqrt(tot / (2 * n)) / np.sqrt(3), n


def htotdev(y, rate, m, h1, h2, sep):
    tot, n = mtot(y, rate, m, h1, h2, sep)
    return np.sqrt(tot / (6 * n)), n


def theo1(x, rate, m):
    N = len(x)
    h = m // 2
    s = 0
    for i in range(N - m):
        for d in range(h):
            s = s + (x[i] - x[i - d + h] + x[i + m] - x[i + d + h]) ** 2 / (h - d)
    return np.sqrt(s / (0.75 * (N - m))) * rate / m, (N - m) * h


def mtie(x, rate, m):
    n = len(x) - m
    best = np.zeros(n)
    for i in range(n):
        w = x[i:i + m + 1]
        best[i] = np.max(w) - np.min(w)
    return np.max(best), n


def tierms(x, rate, m):
    n = len(x) - m
    s = 0
    for i in range(n):
        s = s + (x[i + m] - x[i]) ** 2
    return np.sqrt(s / n), n


def gradev(x, rate, m):
    # second differences whose three samples are present
    n = 0
    s = 0
    for i in range(len(x) - 2 * m):
        d = x[i + 2 * m] - 2 * x[i + m] + x[i]
        if not np.isnan(d):
            s = s + d ** 2
            n = n + 1
    return np.sqrt(s / (2 * n)) * rate / m, n


# ---------------------------------------------------------------- confidence


def confidence(dev, edf, ci):
    # SP1065 eqn (45): equal tails (1 - ci)/2
    lo = dev * np.sqrt(edf / scipy.stats.chi2.ppf(1 - (1 - ci) / 2, edf))
    hi = dev * np.sqrt(edf / scipy.stats.chi2.ppf((1 - ci) / 2, edf))
    return lo, hi


def edf_simple(N, m, alpha):
    # SP1065 table 5
    if alpha == 2:
        return (N + 1) * (N - 2 * m) / (2 * (N - m))
    if alpha == 1:
        return np.exp(np.sqrt(np.log((N - 1) / (2 * m)) * np.log((2 * m + 1) * (N - 1) / 4)))
    if alpha == 0:
        return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * 4 * m ** 2 / (4 * m ** 2 + 5)
    if alpha == -1:
        if m == 1:
            return 2 * (N - 2) / (2.3 * N - 4.9)
        return 5 * N ** 2 / (4 * m * (N + 3 * m))
    if alpha == -2:
        return (N - 2) / m * ((N - 1) ** 2 - 3 * m * (N - 1) + 4 * m ** 2) / (N - 3) ** 2
    return N - 1


def edf_totdev(N, m, alpha):
    # SP1065 table 7
    if alpha == 0:
        return 1.50 * N / m
    if alpha == -1:
        return 1.17 * N / m - 0.22
    if alpha == -2:
        return 0.93 * N / m - 0.36
    return edf_simple(N, m, alpha)


def edf_mtotdev(N, m, alpha):
    # SP1065 table 8
    if alpha == 2:
        return 1.90 * N / m - 2.10
    if alpha == 1:
        return 1.20 * N / m - 1.40
    if alpha == 0:
        return 1.10 * N / m - 1.20
    if alpha == -1:
        return 0.85 * N / m - 0.50
    if alpha == -2:
        return 0.75 * N / m - 0.31


def rn_theory(m, b):
    # ratio MVAR/AVAR with f_h = 1/(2 tau0); IEEE 1139, SP1065
    if b == 0:
        return 1 / m
    if b == -1:
        return (3 * np.log(256.0 / 27.0) / 8) / ((1.038 + 3 * np.log(np.pi * m)) / 4)
    return 1


def b1_theory(N, mu):
    # Barnes 1974, Howe 2000 table 3
    if mu == 0:
        return N * np.log(N) / (2 * (N - 1) * np.log(2))
    if mu == -1:
        return 1
    if mu == -2:
        return (N ** 2 - 1) / (1.5 * N * (N - 1))
    if mu == 1:
        return N / 2
    if mu == 2:
        return N * (N + 1) / 6
    return N * (1 - N ** mu) / (2 * (N - 1) * (1 - 2.0 ** mu))


def lag1(x):
    n = len(x)
    s = 0
    for i in range(n):
        s = s + x[i]
    mu = s / n
    a = 0
    for i in range(n - 1):
        a = a + (x[i] - mu) * (x[i + 1] - mu)
    b = 0
    for i in range(n):
        b = b + (x[i] - mu) ** 2
    return a / b


# ------------------------------------------------------- PSD to deviation


def transfer(f, tau, k):
    # 2 |sin(pi f tau)^(k+1) / (pi f tau)^k|^2 without the factor 2
    z = np.pi * f * tau
    return (np.sin(z) ** (k + 1) / z ** k) ** 2


def piecewise_adev(h, alpha, lo, hi, tau):
    # sum over segments of h f^alpha times 2 sin^4(pi tau f)/(pi tau f)^2, z = pi tau f
    t = 0
    for i in range(len(h)):
        v, err = quad(lambda z: np.sin(z) ** 4 / z ** (2 - alpha[i]), np.pi * tau * lo[i], np.pi * tau * hi[i])
        t = t + h[i] / (np.pi * tau) ** (alpha[i] + 1) * v
    return np.sqrt(2 * t)


# ------------------------------------------------------- noise identification


def detrended(x, deg):
    t = np.arange(len(x))
    return x - np.polyval(np.polyfit(t, x, deg), t)


def noise_series(x, af, phase, k):
    # Riley 2004: decimated phase / averaged frequency, trend removed, differenced k times
    if phase:
        z = detrended(x[::af], 2)
    else:
        n = len(x) // af
        z = detrended(np.mean(x[:n * af].reshape((n, af)), axis=1), 1)
    for i in range(k):
        z = np.diff(z)
    return z


# ------------------------------------------------------- Kasdin noise model


def phase_psd_from_qd(qd, b, tau0, tau):
    return 2 * qd * (2 * np.pi) ** b * tau0 ** (b + 1)


def frequency_psd_from_qd(qd, b, tau0, tau):
    # S_y = (2 pi f)^2 S_x
    return (2 * np.pi) ** 2 * phase_psd_from_qd(qd, b, tau0, tau)


def c_avar(qd, b, tau0, tau):
    if b == 0:
        return -2
    return -b - 3


def c_mvar(qd, b, tau0, tau):
    return -b - 3


def adev_from_qd(qd, b, tau0, tau):
    fh = 1 / (2 * tau0)
    if b == 0:
        k = 3 * fh / (4 * np.pi ** 2)
    if b == -1:
        k = (1.038 + 3 * np.log(2 * np.pi * fh * tau)) / (4 * np.pi ** 2)
    if b == -2:
        k = 1 / 2
    if b == -3:
        k = 2 * np.log(2)
    if b == -4:
        k = 2 * np.pi ** 2 / 3
    return np.sqrt(k * frequency_psd_from_qd(qd, b, tau0, tau))


def mdev_from_qd(qd, b, tau0, tau):
    if b == 0:
        k = 3 / (8 * np.pi ** 2)
    if b == -1:
        k = (24 * np.log(2) - 9 * np.log(3)) / (8 * np.pi ** 2)
    if b == -2:
        k = 1 / 4
    if b == -3:
        k = (27 * np.log(3) - 32 * np.log(2)) / 8
    if b == -4:
        k = 11 * np.pi ** 2 / 20
    return np.sqrt(k * frequency_psd_from_qd(qd, b, tau0, tau))


def pdev_from_qd(qd, b, tau0, tau):
    if b == 0:
        k = 3 / (2 * np.pi ** 2)
    if b == -1:
        k = 3 * (np.log(16) - 1) / (2 * np.pi ** 2)
    if b == -2:
        k = 3 / 5
    if b == -3:
        k = 2 * (7 - np.log(16)) / 5
    if b == -4:
        k = 26 * np.pi ** 2 / 35
    return np.sqrt(k * frequency_psd_from_qd(qd, b, tau0, tau))


def noise_adev(qd, b, tau0, tau):
    return np.sqrt(adev_from_qd(qd, b, tau0, tau) ** 2 * tau ** c_avar(qd, b, tau0, tau))


def noise_mdev(qd, b, tau0, tau):
    return np.sqrt(mdev_from_qd(qd, b, tau0, tau) ** 2 * tau ** c_mvar(qd, b, tau0, tau))


# Greenhall & Riley 2004, combined EDF algorithm (NIST SP 1065, 5.4.1)


def gr_sw(t, alpha):
    if alpha == 2:
        return -np.abs(t)
    if alpha == 0:
        return np.abs(t) ** 3
    if alpha == -2:
        return -np.abs(t) ** 5
    if alpha == -4:
        return np.abs(t) ** 7
    if t == 0:
        return 0
    if alpha == 1:
        return t ** 2 * np.log(np.abs(t))
    if alpha == -1:
        return -t ** 4 * np.log(np.abs(t))
    return t ** 6 * np.log(np.abs(t))


def gr_sx(t, Fi, alpha):
    # Fi is the reciprocal of the filter factor; 0 for the limit
    if Fi is None:
        return gr_sw(t, alpha + 2)
    return (2 * gr_sw(t, alpha) - gr_sw(t - Fi, alpha) - gr_sw(t + Fi, alpha)) / Fi ** 2


def gr_sz(t, Fi, alpha, d):
    if d == 1:
        c = [2, -1]
    elif d == 2:
        c = [6, -4, 1]
    else:
        c = [20, -15, 6, -1]
    s = c[0] * gr_sx(t, Fi, alpha)
    for k in range(1, d + 1):
        s = s + c[k] * (gr_sx(t - k, Fi, alpha) + gr_sx(t + k, Fi, alpha))
    return s


def gr_sum(J, M, S, Fi, alpha, d):
    s = gr_sz(0, Fi, alpha, d) ** 2 + (1 - J / M) * gr_sz(J / S, Fi, alpha, d) ** 2
    for j in range(1, J):
        s = s + 2 * (1 - j / M) * gr_sz(j / S, Fi, alpha, d) ** 2
    return s


GR_TABLE1 = {(2, 1): (2 / 3, 1 / 3), (2, 2): (7 / 9, 1 / 2), (2, 3): (22 / 25, 2 / 3),
             (1, 1): (0.840, 0.345), (1, 2): (0.997, 0.616), (1, 3): (1.141, 0.843),
             (0, 1): (1.079, 0.368), (0, 2): (1.033, 0.607), (0, 3): (1.184, 0.848),
             (-1, 2): (1.048, 0.534), (-1, 3): (1.180, 0.816),
             (-2, 2): (1.302, 0.535), (-2, 3): (1.175, 0.777),
             (-3, 3): (1.194, 0.703), (-4, 3): (1.489, 0.702)}

GR_TABLE2 = {(2, 1): (3 / 2, 1 / 2), (2, 2): (35 / 18, 1), (2, 3): (231 / 100, 3 / 2),
             (1, 1): (78.6, 25.2), (1, 2): (790, 410), (1, 3): (9950, 6520),
             (0, 1): (2 / 3, 1 / 6), (0, 2): (2 / 3, 1 / 3), (0, 3): (7 / 9, 1 / 2),
             (-1, 2): (0.852, 0.375), (-1, 3): (0.997, 0.617),
             (-2, 2): (1.079, 0.368), (-2, 3): (1.033, 0.607),
             (-3, 3): (1.053, 0.553), (-4, 3): (1.302, 0.535)}

GR_TABLE3 = {1: (6.0, 4.0), 2: (15.23, 12.0), 3: (47.8, 40.0)}


def greenhall(alpha, d, m, N, overlapping, modified):
    if modified:
        filt = 1
    else:
        filt = m
    if overlapping:
        S = m
    else:
        S = 1
    L = m / filt + m * d
    M = 1 + np.floor(S * (N - L) / m)
    J = min(M, (d + 1) * S)
    r = M / S
    if modified:
        if J <= 100:
            inv = gr_sum(J, M, S, 1, alpha, d) / (gr_sz(0, 1, alpha, d) ** 2 * M)
        elif r > d + 1:
            a0, a1 = GR_TABLE1[(alpha, d)]
            inv = (a0 - a1 / r) / r
        else:
            inv = gr_sum(100, 100, 100 / r, 1, alpha, d) / (gr_sz(0, 1, alpha, d) ** 2 * 100)
    elif alpha == 2:
        inv = (scipy.special.binom(4 * d, 2 * d) / scipy.special.binom(2 * d, d) ** 2 - d / 2 / r) / M
    elif alpha == 1:
        if J <= 100:
            inv = gr_sum(J, M, S, 1 / m, 1, d) / (gr_sz(0, 1 / m, 1, d) ** 2 * M)
        elif r > d + 1:
            a0, a1 = GR_TABLE2[(alpha, d)]
            b0, b1 = GR_TABLE3[d]
            inv = (a0 - a1 / r) / ((b0 + b1 * np.log(m)) ** 2 * r)
        else:
            b0, b1 = GR_TABLE3[d]
            inv = gr_sum(100, 100, 100 / r, r / 100, 1, d) / ((b0 + b1 * np.log(m)) ** 2 * 100)
    else:
        if J <= 100:
            if m * (d + 1) <= 100:
                inv = gr_sum(J, M, S, 1 / m, alpha, d) / (gr_sz(0, 1 / m, alpha, d) ** 2 * M)
            else:
                inv = gr_sum(J, M, S, None, alpha, d) / (gr_sz(0, None, alpha, d) ** 2 * M)
        elif r > d + 1:
            a0, a1 = GR_TABLE2[(alpha, d)]
            inv = (a0 - a1 / r) / r
        else:
            inv = gr_sum(100, 100, 100 / r, None, alpha, d) / (gr_sz(0, None, alpha, d) ** 2 * 100)
    return 1 / inv


def greenhall_simple(alpha, d, m, S, filt, N):
    M = 1 + np.floor(S * (N - (m / filt + m * d)) / m)
    J = min(M, (d + 1) * S)
    return gr_sz(0, 1 / filt, alpha, d) ** 2 * M / gr_sum(J, M, S, 1 / filt, alpha, d)


# running sums of the streaming estimators after the samples x

def oadev_running(x, m):
    s = 0
    for i in range(len(x) - 2 * m):
        s = s + (x[i + 2 * m] - 2 * x[i + m] + x[i]) ** 2
    return s


def ohdev_running(x, m):
    s = 0
    for i in range(len(x) - 3 * m):
        s = s + (x[i + 3 * m] - 3 * x[i + 2 * m] + 3 * x[i + m] - x[i]) ** 2
    return s


def tdev_window(x, m):
    s = 0
    for i in range(len(x) - 2 * m):
        s = s + (x[i + 2 * m] - 2 * x[i + m] + x[i])
    return s


def tdev_last_window(x, m):
    s = 0
    for i in range(m):
        s = s + (x[len(x) - 3 * m + i + 2 * m] - 2 * x[len(x) - 3 * m + i + m] + x[len(x) - 3 * m + i])
    return s


def tdev_running(x, m):
    s = 0
    for j in range(len(x) - 3 * m + 1):
        a = 0
        for i in range(m):
            a = a + x[j + i + 2 * m] - 2 * x[j + i + m] + x[j + i]
        s = s + a ** 2
    return s


# ------------------------------------------------------- deviation -> spectrum


def local_slope(adev, taus, i):
    # sigma^2 ~ tau^mu between the nodes i-1 and i
    return 2 * (np.log(adev[i]) - np.log(adev[i - 1])) / (np.log(taus[i]) - np.log(taus[i - 1]))


def segment_level(sigma, tau, mu, hdev):
    # sigma^2(tau) = 2 h (pi tau)^mu J(mu), J = integral of the transfer function at unit frequency
    if hdev:
        j, err = quad(lambda z: 4 * np.sin(z) ** 6 / (3 * z ** (3 + mu)), 0, np.inf)
    else:
        j, err = quad(lambda z: np.sin(z) ** 4 / z ** (3 + mu), 0, np.inf)
    return sigma ** 2 / (2 * j * (np.pi * tau) ** mu)
