"""Stand-in for shapely.wkt: points, lines and polygons"""
import re


class ReadingError(Exception):
    pass


class _Point(object):
    geom_type = 'Point'

    def __init__(self, coords):
        self.coords = coords
        self.x = coords[0][0]
        self.y = coords[0][1]
        if len(coords[0]) > 2:
            self.z = coords[0][2]


class _LineString(object):
    geom_type = 'LineString'

    def __init__(self, coords):
        self.coords = coords


class _Polygon(object):
    geom_type = 'Polygon'

    def __init__(self, rings):
        self.exterior = _LineString(rings[0])
        self.interiors = [_LineString(r) for r in rings[1:]]


def _coords(text):
    try:
        coords = [tuple(map(float, c.split())) for c in text.split(',')]
    except ValueError:
        raise ReadingError("Could not create geometry because of errors "
                           "while reading input.")
    if len(set(map(len, coords))) != 1 or len(coords[0]) not in (2, 3):
        raise ReadingError("Could not create geometry because of errors "
                           "while reading input.")
    return coords


def loads(data):
    mo = re.match(r'\s*(POINT|LINESTRING|POLYGON)\s*Z?\s*\((.*)\)\s*$', data,
                  re.S)
    if mo is None:
        raise ReadingError("Could not create geometry because of errors "
                           "while reading input.")
    kind, body = mo.groups()
    if kind == 'POINT':
        coords = _coords(body)
        if len(coords) != 1:
            raise ReadingError("Could not create geometry because of errors "
                               "while reading input.")
        return _Point(coords)
    elif kind == 'LINESTRING':
        coords = _coords(body)
        if len(coords) < 2:
            raise ReadingError("Could not create geometry because of errors "
                               "while reading input.")
        return _LineString(coords)
    rings = [_coords(r) for r in re.findall(r'\(([^()]*)\)', body)]
    if not rings or any(len(r) < 4 for r in rings):
        raise ReadingError("Could not create geometry because of errors "
                           "while reading input.")
    return _Polygon(rings)
