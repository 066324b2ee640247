"""CSV file groups used by the checks on the CSV managers"""
from openquake.commonlib import records

# for each record type: rows which are valid and consistent with each other
VULNERABILITY = [
    ('DiscreteVulnerabilitySet', [
        ['PAGER', 'buildings', 'contents', 'MMI'],
        ['X', 'population', 'fatalities', 'SA(0.3)']]),
    ('DiscreteVulnerability', [
        ['PAGER', 'IR', 'LN'], ['X', 'IR', 'LN'], ['PAGER', 'PK', 'BT']]),
    ('DiscreteVulnerabilityData', [
        ['PAGER', 'IR', '5.00', '0.1', '0.30'],
        ['PAGER', 'IR', '5.50', '0.2', '0.40'],
        ['X', 'IR', '5.00', '0.1', '0.30'],
        ['PAGER', 'PK', '5.00', '0.1', '0.30'],
        ['PAGER', 'PK', '5.50', '0', '0']])]
FRAGILITY_D = [
    ('FragilityDiscrete', [['discrete', 'a, "b"', 'slight moderate']]),
    ('FFLimitStateDiscrete', [['slight'], ['moderate']]),
    ('FFSetDiscrete', [['1', 'RC', '0.1', 'PGA', 'g'],
                       ['2', 'RM', '', 'MMI', '']]),
    ('FFDataDiscrete', [
        ['slight', '1', '1.0', '0.1'], ['slight', '1', '2.0', '0.2'],
        ['moderate', '1', '1.0', '0.0'], ['moderate', '1', '2.0', '1'],
        ['slight', '2', '1.0', '0.1'], ['moderate', '2', '1.0', '0.1']])]
FRAGILITY_C = [
    ('FragilityContinuous', [['continuous', 'text', 'slight moderate']]),
    ('FFLimitStateContinuous', [['slight'], ['moderate']]),
    ('FFSetContinuous', [
        ['1', 'RC', '', 'lognormal', 'PGA', 'g', '0.1', '9.9'],
        ['2', 'RM', '0.2', '', 'MMI', '', '0.1', '8']]),
    ('FFDataContinuous', [
        [ls, i, p, v] for i in '12' for ls in ('slight', 'moderate')
        for p, v in (('mean', '1.5'), ('stddev', '0.5'))])]
EXPOSURE = [
    ('Exposure', [['exp', 'buildings', 'PAGER', 'a\nb', '', '', 'false',
                   'true']]),
    ('CostType', [['contents', 'per_area', 'USD', '', ''],
                  ['loss', 'aggregated', 'EUR', 'per_asset', 'EUR']]),
    ('Location', [['1', '-78.18', '15.6'], ['2', '180', '-90'],
                  ['3', '-78.18', '15.7']]),
    ('Asset', [['2', 'a1', 'RC', '7', '120'], ['1', 'a0', 'RM', '0', '']]),
    ('Occupancy', [['a1', 'day', '10'], ['a0', 'night', '0'],
                   ['a0', 'day', '0.5']]),
    ('Cost', [['a1', 'contents', '12.5', '', '', ''],
              ['a1', 'loss', '1', '2', '.5', '1'],
              ['a0', 'contents', '0', '', '0.1', '']])]
GMF = [
    ('GmfCollection', [['b1_b2', 'b3']]),
    ('GmfSet', [['1', '50.0'], ['2', '10']]),
    ('Gmf', [['1', 'SA(0.1)', 'r,1'], ['1', 'PGA', 'rup=1'],
             ['2', 'PGA', 'r2']]),
    ('GmfData', [
        ['1', 'SA(0.1)', 'r,1', '0.0', '0.0', '0.2'],
        ['1', 'SA(0.1)', 'r,1', '1.0', '0.0', '1.4'],
        ['1', 'PGA', 'rup=1', '0.0', '0.0', '0.2'],
        ['2', 'PGA', 'r2', '0.0', '1.0', '0.2']])]
GROUPS = dict(vulnerability=VULNERABILITY, fragility_d=FRAGILITY_D,
              fragility_c=FRAGILITY_C, exposure=EXPOSURE, gmf=GMF)

# for each field, the texts which are invalid; all the fields which are not
# listed accept any text
_float = ['', 'x', '1,0', '0x1']
_int = ['', 'x', '1.5', '1e3']
_posfloat = ['', 'x', '-1', '-0.1']
_optfloat = ['x', '-1', '-0.1']
_opttype = ['x', 'per asset']
INVALID = dict(
    DiscreteVulnerabilitySet=dict(
        assetCategory=['', 'Buildings', 'building'], IMT=['', 'SA', 'pga']),
    DiscreteVulnerability={},
    DiscreteVulnerabilityData=dict(
        IML=_float, lossRatio=_float, coefficientsVariation=_float),
    FragilityDiscrete=dict(format=['', 'continuous'], limitStates=['']),
    FFLimitStateDiscrete={},
    FFSetDiscrete=dict(ordinal=_int, taxonomy=[''], noDamageLimit=_optfloat,
                       IMT=['', 'SA', 'pga']),
    FFDataDiscrete=dict(ffs_ordinal=_int, iml=_float,
                        poe=['', 'x', '-0.1', '1.01']),
    FragilityContinuous=dict(format=['', 'discrete'], limitStates=['']),
    FFLimitStateContinuous={},
    FFSetContinuous=dict(ordinal=_int, taxonomy=[''],
                         noDamageLimit=_optfloat, minIML=_float,
                         maxIML=_float),
    FFDataContinuous=dict(ffs_ordinal=_int, value=_float),
    Exposure=dict(
        id=[''], category=['', 'building'],
        area_type=_opttype, deductible_is_absolute=['x', '2'],
        insurance_limit_is_absolute=['x', '-1']),
    CostType=dict(type=['', 'x'], retrofittedType=_opttype),
    Location=dict(id=['', '-1', '1.5', 'x'],
                  lon=['', 'x', '180.1', '-181'],
                  lat=['', 'x', '90.1', '-91']),
    Asset=dict(location_id=['', '-1', '1.5', 'x'], taxonomy=[''],
               number=_posfloat, area=_optfloat),
    Occupancy=dict(occupants=_posfloat),
    Cost=dict(value=_posfloat, retrofitted=_optfloat, deductible=_optfloat,
              insurance_limit=_optfloat),
    GmfCollection={},
    GmfSet=dict(stochasticEventSetId=_int, investigationTime=['x', '1,0']),
    Gmf=dict(stochasticEventSetId=_int, imtStr=['', 'SA', 'pga']),
    GmfData=dict(stochasticEventSetId=_int, lon=_float, lat=_float,
                 gmv=_float))


def quote(cell):
    if any(c in cell for c in ',"\r\n'):
        return '"%s"' % cell.replace('"', '""')
    return cell


def csvtext(rectype, rows, header=True):
    names = getattr(records, rectype).fieldnames
    data = ([names] if header else []) + rows
    return ''.join(
        ('""' if row == [''] else ','.join(map(quote, row))) + '\r\n'
        for row in data)


def csvfiles(group, prefix, header=True):
    """List of pairs (file name, CSV content)"""
    return [('%s__%s.csv' % (prefix, rectype), csvtext(rectype, rows, header))
            for rectype, rows in group]
