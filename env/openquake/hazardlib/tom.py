from openquake.hazardlib._base import Value


class PoissonTOM(Value):
    def __init__(self, time_span):
        if time_span <= 0:
            raise ValueError('time_span must be positive')
        self.time_span = time_span
