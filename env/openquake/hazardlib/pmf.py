from decimal import Decimal
from openquake.hazardlib._base import Value


class PMF(Value):
    def __init__(self, data):
        if not data or any(prob < 0 for prob, _ in data):
            raise ValueError('Invalid data for PMF')
        if sum(Decimal(str(prob)) for prob, _ in data) != 1:
            raise ValueError('values do not sum to 1.0!')
        self.data = data
