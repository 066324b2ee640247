from openquake.hazardlib._base import Value


class BaseMSR(Value):
    pass


class WC1994(BaseMSR):
    pass


class PeerMSR(BaseMSR):
    pass


def get_available_magnitude_scalerel():
    return {'WC1994': WC1994, 'PeerMSR': PeerMSR}
