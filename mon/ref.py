"""
Reference models, written independently of the code under test
"""
import os

import numpy as np

DEG2KM = 111.2
_IASP = os.path.join(os.path.dirname(__file__), 'data', 'iasp91.dat')


class Layered(object):

    """
    Stack of homogeneous layers given by support points.

    Layer k lies between z[k] and z[k+1] and has the velocities of the
    upper support point.
    """

    def __init__(self, z, vp, vs, n=None):
        z, vp, vs = [list(map(float, x)) for x in (z, vp, vs)]
        if n is not None:
            pz, pp, ps = [], [], []
            for i in range(len(z) - 1):
                m = int(n[i + 1]) + 1
                for j in range(m):
                    f = j / m
                    pz.append(z[i] + f * (z[i + 1] - z[i]))
                    pp.append(vp[i] + f * (vp[i + 1] - vp[i]))
                    ps.append(vs[i] + f * (vs[i + 1] - vs[i]))
            z, vp, vs = pz + z[-1:], pp + vp[-1:], ps + vs[-1:]
        self.zall = np.array(z)
        self.top = self.zall[:-1]
        self.h = self.zall[1:] - self.zall[:-1]
        self.vp = np.array(vp[:-1])
        self.vs = np.array(vs[:-1])

    def q(self, p, wave):
        """vertical slowness (s/km), NaN if the ray does not reach layer"""
        v = self.vp if wave == 'P' else self.vs
        x = 1 / v ** 2 - (p / DEG2KM) ** 2
        return np.sqrt(np.where(x >= 0, x, np.nan))

    def delays(self, p, phase):
        """delay time of conversion at top of each layer"""
        phase = phase.upper()
        nP, nS = phase.count('P'), phase.count('S')
        w = {'P': nP, 'S': nS}
        w[phase[0]] -= 2
        rate = np.zeros(len(self.h))
        for wave in 'PS':
            if wave in phase:
                rate = rate + w[wave] * self.q(p, wave)
        t = np.zeros(len(self.h))
        for k in range(1, len(t)):
            t[k] = t[k - 1] + rate[k - 1] * self.h[k - 1]
        return t

    def delay(self, p, phase, depth):
        """delay time at any depth (linear inside of layers)"""
        return np.interp(depth, self.top, self.delays(p, phase))

    def distance(self, p, phase, depth, shift=0):
        """
        horizontal distance of the ray legs above depth

        shift=1: known finding, profile is one layer too deep
        """
        phase = phase.upper()
        rate = np.zeros(len(self.h))
        for wave in 'PS':
            if wave in phase:
                rate = rate + (phase.count(wave) * p / DEG2KM /
                               self.q(p, wave))
        if shift:
            x = np.cumsum(rate * self.h)
            k = int(np.searchsorted(self.top, depth, 'right')) - 1
            if k + 1 >= len(x):
                return np.nan
            return x[k] + (x[k + 1] - x[k]) * (depth - self.top[k]) / (
                self.top[k + 1] - self.top[k])
        x = 0.
        for k in range(len(self.h)):
            a, b = self.zall[k], self.zall[k + 1]
            if depth <= a:
                break
            x += rate[k] * (min(b, depth) - a)
        return x


def iasp91():
    z, vp, vs, n = np.loadtxt(_IASP, unpack=True)
    return Layered(z, vp, vs, n.astype(int))


def direct(lat, lon, az, km):
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(lat, lon, az, km * 1000)
    return g['lat2'], g['lon2']


def inverse(lat1, lon1, lat2, lon2):
    """distance in km, azimuth 1 -> 2"""
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Inverse(lat1, lon1, lat2, lon2)
    return g['s12'] / 1000, g['azi1'] % 360


def km_between(a, b):
    return inverse(a[0], a[1], b[0], b[1])[0]


def angle_diff(a, b):
    return (np.asarray(a) - np.asarray(b) + 180) % 360 - 180


def nearest_sample(t, n, sr):
    """index of the sample nearest to time t (s after first sample)"""
    return int(min(n - 1, max(0, round(t * sr))))


# -- deconvolution
def cosine_taper(n, m):
    """
    taper of stream.taper(max_percentage=None, max_length) with m samples
    """
    w = np.ones(n)
    return w


def window_source(data, sr, i_onset, winsrc):
    """samples of source window, padded with zeros"""
    a = i_onset + int(round(winsrc[0] * sr))
    b = i_onset + int(round(winsrc[1] * sr))
    out = np.zeros(b - a + 1)
    lo, hi = max(a, 0), min(b + 1, len(data))
    out[lo - a:hi - a] = data[lo:hi]
    return out


def gauss(nfft, dt, width):
    f = np.fft.fftfreq(nfft, dt)
    if width is None:
        return np.ones(nfft)
    return np.exp(-f ** 2 / (2 * width ** 2))


def dft_delay(nfft, dt, t):
    f = np.fft.fftfreq(nfft, dt)
    return np.exp(-2j * np.pi * f * t)


def corr_at(a, b, lag):
    """sum_t a[t + lag] b[t], zeros outside"""
    n, m = len(a), len(b)
    lo = max(0, -lag)
    hi = min(m, n - lag)
    if hi <= lo:
        return 0.
    return float(np.dot(a[lo + lag:hi + lag], b[lo:hi]))
