"""Stand-in for openquake.hazardlib.geo: value objects"""
from openquake.hazardlib._base import Value


class Point(Value):
    def __init__(self, longitude, latitude, depth=0.0):
        if depth < 0:
            raise ValueError("depth must be positive")
        if longitude < -180.0 or longitude > 180.0:
            raise ValueError("longitude %.6f outside range" % longitude)
        if latitude < -90.0 or latitude > 90.0:
            raise ValueError("latitude %.6f outside range" % latitude)
        self.depth = depth
        self.latitude = latitude
        self.longitude = longitude

    @property
    def x(self):
        return self.longitude

    @property
    def y(self):
        return self.latitude


class Line(Value):
    def __init__(self, points):
        self.points = list(points)
        if len(self.points) < 1:
            raise ValueError("One point needed to create a line!")


class NodalPlane(Value):
    def __init__(self, strike, dip, rake):
        if not 0 <= strike <= 360:
            raise ValueError('strike is out of range [0, 360]')
        if not 0 < dip <= 90:
            raise ValueError('dip is out of range (0, 90]')
        self.strike = strike
        self.dip = dip
        self.rake = rake


class Mesh(Value):
    def __init__(self, lons, lats, depths=None):
        self.lons = lons
        self.lats = lats
        self.depths = depths

    def __len__(self):
        return len(self.lons)

    def __iter__(self):
        for lon, lat in zip(self.lons, self.lats):
            yield Point(lon, lat)


class Polygon(Value):
    """
    `discretize` returns a regular mesh of points covering the bounding box
    with a spacing in degrees (0.01 degrees per km), including the borders.
    """
    def __init__(self, points):
        if not len(points) >= 3:
            raise ValueError('polygon must have at least 3 unique vertices')
        self.lons = [p.longitude for p in points]
        self.lats = [p.latitude for p in points]

    def discretize(self, mesh_spacing):
        step = mesh_spacing * 0.01
        lons, lats = [], []
        ny = int(round((max(self.lats) - min(self.lats)) / step, 6))
        nx = int(round((max(self.lons) - min(self.lons)) / step, 6))
        for j in range(ny + 1):
            for i in range(nx + 1):
                lons.append(min(self.lons) + i * step)
                lats.append(max(self.lats) - j * step)
        return Mesh(lons, lats)


class SimpleFaultSurface(Value):
    @classmethod
    def from_fault_data(cls, fault_trace, upper_seismogenic_depth,
                        lower_seismogenic_depth, dip, mesh_spacing):
        if not mesh_spacing > 0:
            raise ValueError('mesh spacing must be positive')
        if not 0 < dip <= 90:
            raise ValueError("dip must be between 0.0 and 90.0")
        self = cls()
        self.fault_trace = fault_trace
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.dip = dip
        self.mesh_spacing = mesh_spacing
        return self


class ComplexFaultSurface(Value):
    @classmethod
    def from_fault_data(cls, edges, mesh_spacing):
        if not len(edges) >= 2:
            raise ValueError("at least two edges are required")
        if not mesh_spacing > 0:
            raise ValueError('mesh spacing must be positive')
        self = cls()
        self.edges = list(edges)
        self.mesh_spacing = mesh_spacing
        return self


class PlanarSurface(Value):
    def __init__(self, mesh_spacing, strike, dip,
                 top_left, top_right, bottom_right, bottom_left):
        if not mesh_spacing > 0:
            raise ValueError('mesh spacing must be positive')
        self.mesh_spacing = mesh_spacing
        self.strike = strike
        self.dip = dip
        self.top_left = top_left
        self.top_right = top_right
        self.bottom_right = bottom_right
        self.bottom_left = bottom_left


class MultiSurface(Value):
    def __init__(self, surfaces):
        self.surfaces = list(surfaces)
