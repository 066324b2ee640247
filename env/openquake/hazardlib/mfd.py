"""Stand-in for openquake.hazardlib.mfd"""
from openquake.hazardlib._base import Value


class BaseMFD(Value):
    MODIFICATIONS = ()

    def modify(self, modification, parameters):
        if modification not in self.MODIFICATIONS:
            raise ValueError('Modification %s is not supported by %s' %
                             (modification, type(self).__name__))
        getattr(self, 'modify_%s' % modification)(**parameters)
        self.check_constraints()

    def check_constraints(self):
        pass


class EvenlyDiscretizedMFD(BaseMFD):
    def __init__(self, min_mag, bin_width, occurrence_rates):
        self.min_mag = min_mag
        self.bin_width = bin_width
        self.occurrence_rates = occurrence_rates
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not self.occurrence_rates:
            raise ValueError('at least one bin must be specified')
        if not all(value >= 0 for value in self.occurrence_rates):
            raise ValueError('all occurrence rates must not be negative')
        if not any(value > 0 for value in self.occurrence_rates):
            raise ValueError('at least one occurrence rate must be positive')
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, occurrence_rate)
                for i, occurrence_rate in enumerate(self.occurrence_rates)]

    def get_min_max_mag(self):
        return self.min_mag, self.min_mag + self.bin_width * (
            len(self.occurrence_rates) - 1)


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = ('increment_max_mag', 'set_max_mag', 'increment_b',
                     'set_ab')

    def __init__(self, min_mag, max_mag, bin_width, a_val, b_val):
        self.min_mag = min_mag
        self.max_mag = max_mag
        self.bin_width = bin_width
        self.a_val = a_val
        self.b_val = b_val
        self.check_constraints()

    def check_constraints(self):
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')
        if not self.max_mag >= self.min_mag:
            raise ValueError('maximum magnitude must be higher than minimum')
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not 0 < self.b_val:
            raise ValueError('b value must be non-negative')

    def _get_rate(self, mag):
        mag_lo = mag - self.bin_width / 2.0
        mag_hi = mag + self.bin_width / 2.0
        return (10 ** (self.a_val - self.b_val * mag_lo)
                - 10 ** (self.a_val - self.b_val * mag_hi))

    def _get_min_mag_and_num_bins(self):
        min_mag = round(self.min_mag / self.bin_width) * self.bin_width
        max_mag = round(self.max_mag / self.bin_width) * self.bin_width
        if min_mag != max_mag:
            min_mag += self.bin_width / 2.0
            max_mag -= self.bin_width / 2.0
        num_bins = int(round((max_mag - min_mag) / self.bin_width)) + 1
        return min_mag, num_bins

    def get_annual_occurrence_rates(self):
        mag, num_bins = self._get_min_mag_and_num_bins()
        rates = []
        for i in xrange(num_bins):
            rates.append((mag, self._get_rate(mag)))
            mag += self.bin_width
        return rates

    def get_min_max_mag(self):
        min_mag, num_bins = self._get_min_mag_and_num_bins()
        return min_mag, min_mag + self.bin_width * (num_bins - 1)

    def modify_increment_max_mag(self, value):
        self.max_mag += value

    def modify_set_max_mag(self, value):
        self.max_mag = value

    def modify_increment_b(self, value):
        # like hazardlib, preserve the total moment rate: modelled by a
        # change of the a value depending on the change of the b value
        self.b_val += value
        self.a_val += value * self.max_mag

    def modify_set_ab(self, a_val, b_val):
        self.a_val = a_val
        self.b_val = b_val
