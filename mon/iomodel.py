"""
Model of the documented header mapping and the resolution of the formats
"""
import json

import numpy as np
from obspy import UTCDateTime as UTC

# stats, SH/Q, SAC -- table in the package documentation
TABLE = [l.split() for l in '''
station_latitude   COMMENT    stla
station_longitude  COMMENT    stlo
station_elevation  COMMENT    stel
event_latitude     LAT        evla
event_longitude    LON        evlo
event_depth        DEPTH      evdp
event_magnitude    MAGNITUDE  mag
event_time         ORIGIN     o
onset              P-ONSET    a
type               COMMENT    kuser0
phase              COMMENT    kuser1
moveout            COMMENT    kuser2
distance           DISTANCE   gcarc
back_azimuth       AZIMUTH    baz
inclination        INCI       user0
slowness           SLOWNESS   user1
pp_latitude        COMMENT    user2
pp_longitude       COMMENT    user3
pp_depth           COMMENT    user4
box_pos            COMMENT    user5
box_length         COMMENT    user6'''.strip().split('\n')]
HEADERS = [t[0] for t in TABLE]
Q_FIELD = {t[0]: t[1] for t in TABLE}
SAC_FIELD = {t[0]: t[2] for t in TABLE}
TIMES = ('event_time', 'onset')
STRINGS = ('type', 'phase', 'moveout')


def tolerance(fmt, head, value, start):
    """resolution of a header value in the given format"""
    if head in STRINGS:
        return 0
    if head in TIMES:
        if fmt == 'Q':
            return 1.01e-3
        if fmt == 'SAC':
            return 1.3e-7 * abs(value - start) + 1e-5
        return 1e-6
    if fmt == 'SAC':
        return 1.3e-7 * abs(value) + 1e-30
    return 1e-14 * abs(value)


def rand_headers(ctx, tr, prob=0.8, numpy_types=True):
    """Set random subset of documented headers on trace, return dict"""
    st = tr.stats
    vals = {
        'station_latitude': ctx.u(-90, 90),
        'station_longitude': ctx.u(-180, 180),
        'station_elevation': ctx.choice([
            ctx.u(-500, 8000), ctx.u(-500, 8000), ctx.u(-6000, 0), -1234.5,
            -1234.]),
        'event_latitude': ctx.u(-90, 90),
        'event_longitude': ctx.u(-180, 180),
        'event_depth': ctx.u(0, 700), 'event_magnitude': ctx.u(-1, 9.5),
        'event_time': st.starttime - round(ctx.u(0, 1500), 6),
        'onset': st.starttime + round(ctx.u(-50, 250), 6),
        'type': ctx.choice(['rf', 'profile', 'x']),
        'phase': ctx.choice(['P', 'S', 'PP', 'SKS', 'PKiKP']),
        'moveout': ctx.choice(['Ps', 'Sp', 'Ppps', 'PpsS']),
        'distance': ctx.u(0, 180), 'back_azimuth': ctx.u(0, 360),
        'inclination': ctx.u(0, 90), 'slowness': ctx.u(0, 20),
        'pp_latitude': ctx.u(-90, 90), 'pp_longitude': ctx.u(-180, 180),
        'pp_depth': ctx.u(0, 800), 'box_pos': ctx.u(-2000, 2000),
        'box_length': ctx.u(0.1, 500)}
    for h in list(vals):
        if h not in STRINGS + TIMES:
            kind = ctx.i(0, 9)
            if kind == 0:
                vals[h] = 0.0
            elif kind == 1:
                vals[h] = int(vals[h])
            elif kind == 2 and numpy_types:
                vals[h] = np.float64(vals[h])
            elif kind == 3 and numpy_types:
                vals[h] = np.int64(vals[h])
            elif kind == 5 and ctx.p(.3):  # digits of the SAC null value
                vals[h] = ctx.choice([12345, 12345.0, 5.12345, 61.12345,
                                      .12345])
            elif kind == 4:
                vals[h] = -abs(vals[h]) / 1000
    out = {}
    for h in HEADERS:
        if ctx.p(prob):
            st[h] = out[h] = vals[h]
    return out


def raw_value(fmt, tr, head):
    """
    Value of header stored in documented field of file read with plain ObsPy
    """
    if fmt == 'Q':
        field = Q_FIELD[head]
        sh = tr.stats.get('sh', {})
        if field == 'COMMENT':
            return json.loads(sh.get('COMMENT', '{}')).get(head)
        return sh.get(field)
    sac = tr.stats.sac
    val = sac.get(SAC_FIELD[head])
    if val is None or '-12345' in str(val):
        return None
    if head in TIMES:
        # relative to reference time of file
        ref = UTC(year=int(sac.nzyear), julday=int(sac.nzjday),
                  hour=int(sac.nzhour), minute=int(sac.nzmin),
                  second=int(sac.nzsec),
                  microsecond=int(sac.nzmsec) * 1000)
        return ref + float(val)
    return val.strip() if isinstance(val, str) else val


def check_header(ctx, clause, fmt, head, got, want, tol):
    if isinstance(want, str) or got is None:
        return ctx.same('%s:%s' % (clause, head), got, want, fmt)
    try:
        dif = abs(got - want)
        good = dif <= tol
    except Exception as ex:
        dif, good = repr(ex), False
    return ctx.ok('%s:%s' % (clause, head), good, lambda: (
        '%s got %r expected %r diff %s tolerance %s' % (
            fmt, got, want, dif, tol)))


def guessed(fmt, files):
    """
    False if ObsPy takes one of the files for another format

    (happens for a few HDF5 files in a thousand: binary data which satisfy the
    loose test for alphanumeric SAC files)
    """
    from obspy.io.sac.core import _is_sac_xy
    return fmt == 'SAC' or not any(_is_sac_xy(f) for f in files)
