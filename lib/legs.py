"""Validity of geodesic legs and projections, tolerant where geometry leaves a choice."""
from . import refmodel as m

MERIDIAN_HALF = 20003931.4586254


def in_range(lat, lon):
    return lat == lat and lon == lon and abs(lat) <= 90.0 and abs(lon) <= 540.0


def same_position(lat1, lon1, lat2, lon2, tol=1e-9):
    if not (lat1 == lat1 and lon1 == lon1):
        return False
    if abs(lat1 - lat2) > tol:
        return False
    if abs(lat2) > 90 - 1e-9:
        return True
    d = abs(lon1 - lon2) % 360.0
    return min(d, 360.0 - d) <= tol


def angle_diff(a, b):
    d = (a - b) % 360.0
    return min(d, 360.0 - d)


def leg_error(brg, dist, lat1, lon1, lat2, lon2):
    """None when (brg, dist) is a WGS84 geodesic from 1 to 2, else what is wrong."""
    azi, s12 = m.inverse(lat1, lon1, lat2, lon2)
    if not isinstance(dist, (int, float)) or not abs(dist - s12) <= 1e-3:
        return "distance %r instead of %.3f m" % (dist, s12)
    if s12 < 1e-3:
        return None if isinstance(brg, (int, float)) and brg == brg and abs(brg) <= 360 else "azimuth %r" % (brg,)
    if not isinstance(brg, (int, float)) or brg != brg:
        return "azimuth %r" % (brg,)
    if angle_diff(brg, azi) <= 1e-6:
        return None
    g = m.GEOD.Direct(lat1, lon1, brg, s12)           # another geodesic of the same length is as good (antipodes, poles)
    back = m.inverse(g["lat2"], g["lon2"], lat2, lon2)[1]
    return None if back < 1e-3 and -180.0 - 1e-9 <= brg <= 360.0 else "azimuth %r instead of %.6f degrees" % (brg, azi)
