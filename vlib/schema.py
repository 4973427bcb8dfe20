"""RP66 / public-API facts the model relies on: for each kind of object the public add_* keyword, the Python attribute
it ends up in, the file label, the value type and the standard's representation code.  Written from the documentation
of the add_* methods and of the standard, not read from dliswriter at run time."""
from collections import namedtuple

# t: value type
#   text   str -> ASCII            ident  str -> IDENT          enum:<E>  member of E (hard)   soft:<E> str, E advised
#   num    number -> any float     int    integer (rc fixed)    dtime     date-time            dtnum date-time or number
#   mixed  numbers or text         status 0/1                   dim       positive ints UVARI  ref:<kind> / refs
#   eort   text or reference       props  Property members      flag      0/1 in USHORT
A = namedtuple('A', 'kw attr label t multi nd rc units')


def a(kw, t, label=None, attr=None, multi=False, nd=False, rc=None, units=None):
    attr = attr or kw
    if units is None:
        units = t in ('num', 'int', 'mixed', 'dtnum', 'flag', 'dtime')
    return A(kw, attr, label or kw.upper().replace('_', '-'), t, multi, nd, rc, units)


Kind = namedtuple('Kind', 'name settype rectype attrs method')
KINDS = {}


def kind(name, settype, rectype, *attrs, method=None):
    KINDS[name] = Kind(name, settype, rectype, attrs, method or f'add_{name}')


kind('origin', 'ORIGIN', 1,
     a('file_id', 'text'), a('file_set_name', 'ident'), a('file_set_number', 'int', rc=18), a('file_number', 'int', rc=18),
     a('file_type', 'ident'), a('product', 'text'), a('version', 'text'), a('programs', 'text', multi=True),
     a('creation_time', 'dtime'), a('order_number', 'text'), a('descent_number', 'int', rc=16),
     a('run_number', 'int', rc=16), a('well_id', 'text'), a('well_name', 'text'), a('field_name', 'text'),
     a('producer_code', 'int', rc=16), a('producer_name', 'text'), a('company', 'text'), a('name_space_name', 'ident'),
     a('name_space_version', 'int', rc=18))
kind('axis', 'AXIS', 2,
     a('axis_id', 'ident'), a('coordinates', 'mixed', multi=True), a('spacing', 'num'))
kind('calibration', 'CALIBRATION', 5,
     a('calibrated_channels', 'ref:channel', multi=True), a('uncalibrated_channels', 'ref:channel', multi=True),
     a('coefficients', 'ref:calibration_coefficient', multi=True),
     a('measurements', 'ref:calibration_measurement', multi=True), a('parameters', 'ref:parameter', multi=True),
     a('method', 'ident'))
kind('calibration_coefficient', 'CALIBRATION-COEFFICIENT', 5,
     a('label', 'ident'), a('coefficients', 'num', multi=True), a('references', 'num', multi=True),
     a('plus_tolerances', 'num', multi=True), a('minus_tolerances', 'num', multi=True))
kind('calibration_measurement', 'CALIBRATION-MEASUREMENT', 5,
     a('phase', 'enum:CalibrationMeasurementPhase'), a('measurement_source', 'objref'),
     a('measurement_type', 'ident', label='TYPE', attr='type'), a('dimension', 'dim', multi=True),
     a('axis', 'ref:axis', multi=True), a('measurement', 'num', multi=True, nd=True), a('sample_count', 'int'),
     a('maximum_deviation', 'num', multi=True, nd=True), a('standard_deviation', 'num', multi=True, nd=True),
     a('begin_time', 'dtnum'), a('duration', 'num'), a('reference', 'num', multi=True, nd=True),
     a('standard', 'num', multi=True, nd=True), a('plus_tolerance', 'num', multi=True, nd=True),
     a('minus_tolerance', 'num', multi=True, nd=True))
kind('channel', 'CHANNEL', 3,
     a('long_name', 'eort'), a('properties', 'props', multi=True), a('units', 'soft:Unit'),
     a('dimension', 'dim', multi=True), a('axis', 'ref:axis', multi=True), a('element_limit', 'dim', multi=True),
     a('source', 'objref'), a('minimum_value', 'num', multi=True, rc=7), a('maximum_value', 'num', multi=True, rc=7))
kind('comment', 'COMMENT', 6, a('text', 'text', multi=True))
kind('computation', 'COMPUTATION', 5,
     a('long_name', 'eort'), a('properties', 'props', multi=True), a('dimension', 'dim', multi=True),
     a('axis', 'ref:axis', multi=True), a('zones', 'ref:zone', multi=True), a('values', 'num', multi=True, nd=True),
     a('source', 'objref'))
kind('equipment', 'EQUIPMENT', 5,
     a('trademark_name', 'text'), a('status', 'status'), a('eq_type', 'soft:EquipmentType', label='TYPE', attr='_type'),
     a('serial_number', 'ident'), a('location', 'soft:EquipmentLocation'),
     *[a(k, 'num') for k in ('height', 'length', 'minimum_diameter', 'maximum_diameter', 'volume', 'weight', 'hole_size',
                             'pressure', 'temperature', 'vertical_depth', 'radial_drift', 'angular_drift')])
kind('frame', 'FRAME', 4,
     a('description', 'text'), a('channels', 'ref:channel', multi=True), a('index_type', 'soft:FrameIndexType'),
     a('direction', 'ident'), a('spacing', 'num'), a('encrypted', 'flag', rc=15), a('index_min', 'num'),
     a('index_max', 'num'))
kind('group', 'GROUP', 5,
     a('description', 'text'), a('object_list', 'objref', multi=True), a('group_list', 'ref:group', multi=True))
kind('long_name', 'LONG-NAME', 9,
     *[a(k, 'text', multi=k in ('general_modifier', 'quantity_modifier', 'entity_modifier', 'source_part',
                                'source_part_number', 'conditions'))
       for k in ('general_modifier', 'quantity', 'quantity_modifier', 'altered_form', 'entity', 'entity_modifier',
                 'entity_number', 'entity_part', 'entity_part_number', 'generic_source', 'source_part',
                 'source_part_number', 'conditions', 'standard_symbol', 'private_symbol')])
kind('message', 'MESSAGE', 6,
     a('message_type', 'ident', label='TYPE', attr='_type'), a('time', 'dtnum'), a('borehole_drift', 'num'),
     a('vertical_depth', 'num'), a('radial_drift', 'num'), a('angular_drift', 'num'), a('text', 'text', multi=True))
kind('no_format', 'NO-FORMAT', 8, a('consumer_name', 'ident'), a('description', 'text'))
kind('parameter', 'PARAMETER', 5,
     a('long_name', 'eort'), a('dimension', 'dim', multi=True), a('axis', 'ref:axis', multi=True),
     a('zones', 'ref:zone', multi=True), a('values', 'mixed', multi=True, nd=True))
kind('path', 'PATH', 4,
     a('frame_type', 'ref:frame'), a('well_reference_point', 'ref:well_reference_point'),
     a('value', 'ref:channel', multi=True),
     *[a(k, 'num') for k in ('borehole_depth', 'vertical_depth', 'radial_drift', 'angular_drift', 'time', 'depth_offset',
                             'measure_point_offset', 'tool_zero_offset')])
kind('process', 'PROCESS', 5,
     a('description', 'text'), a('trademark_name', 'text'), a('version', 'text'), a('properties', 'props', multi=True),
     a('status', 'enum:ProcessStatus'), a('input_channels', 'ref:channel', multi=True),
     a('output_channels', 'ref:channel', multi=True), a('input_computations', 'ref:computation', multi=True),
     a('output_computations', 'ref:computation', multi=True), a('parameters', 'ref:parameter', multi=True),
     a('comments', 'text', multi=True))
kind('splice', 'SPLICE', 5,
     a('output_channel', 'ref:channel'), a('input_channels', 'ref:channel', multi=True),
     a('zones', 'ref:zone', multi=True))
kind('tool', 'TOOL', 5,
     a('description', 'text'), a('trademark_name', 'text'), a('generic_name', 'text'),
     a('parts', 'ref:equipment', multi=True), a('status', 'status'), a('channels', 'ref:channel', multi=True),
     a('parameters', 'ref:parameter', multi=True))
kind('well_reference_point', 'WELL-REFERENCE', 1,
     a('permanent_datum', 'text'), a('vertical_zero', 'text'), a('permanent_datum_elevation', 'num', rc=7),
     a('above_permanent_datum', 'num', rc=7), a('magnetic_declination', 'num', rc=7),
     a('coordinate_1_name', 'text'), a('coordinate_1_value', 'num', rc=7), a('coordinate_2_name', 'text'),
     a('coordinate_2_value', 'num', rc=7), a('coordinate_3_name', 'text'), a('coordinate_3_value', 'num', rc=7))
kind('zone', 'ZONE', 5,
     a('description', 'text'), a('domain', 'enum:ZoneDomain'), a('maximum', 'dtnum'), a('minimum', 'dtnum'))

# attributes settable only through .value (not add_* keywords)
EXTRA = {'group': (a('object_type', 'ident'),), 'channel': (a('representation_code', 'rcode', rc=15, units=False),)}


def all_attrs(kindname):
    return KINDS[kindname].attrs + EXTRA.get(kindname, ())


# labels the standard defines for each set type (used to check template labels)
SET_LABELS = {k.settype: [x.label for x in all_attrs(k.name)] for k in KINDS.values()}
SET_LABELS['FILE-HEADER'] = ['SEQUENCE-NUMBER', 'ID']
RECTYPE = {k.settype: k.rectype for k in KINDS.values()}
RECTYPE['FILE-HEADER'] = 0

# the standard's allowed values for the enumerated attributes (RP66 V1 chapters 5 and 6)
ENUM_VALUES = {
    'FrameIndexType': ['ANGULAR-DRIFT', 'BOREHOLE-DEPTH', 'NON-STANDARD', 'RADIAL-DRIFT', 'VERTICAL-DEPTH'],
    'EquipmentType': ['Adapter', 'Board', 'Bottom-Nose', 'Bridle', 'Cable', 'Calibrator', 'Cartridge', 'Centralizer',
                      'Chamber', 'Cushion', 'Depth-Device', 'Display', 'Drawer', 'Excentralizer', 'Explosive-Source',
                      'Flask', 'Geophone', 'Gun', 'Head', 'Housing', 'Jig', 'Joint', 'Nuclear-Detector', 'Packer', 'Pad', 'Panel',
                      'Positioning', 'Printer', 'Radioactive-Source', 'Shield', 'Simulator', 'Skid', 'Sonde',
                      'Spacer', 'Standoff', 'System', 'Tool', 'Tool-Module', 'Transducer', 'Vibration-Source'],
    'EquipmentLocation': ['Logging-System', 'Remote', 'Rig', 'Well'],
    'CalibrationMeasurementPhase': ['AFTER', 'BEFORE', 'MASTER'],
    'ProcessStatus': ['ABORTED', 'COMPLETE', 'IN-PROGRESS'],
    'ZoneDomain': ['BOREHOLE-DEPTH', 'TIME', 'VERTICAL-DEPTH'],
    'Property': ['AVERAGED', 'CALIBRATED', 'CHANGED-INDEX', 'COMPUTED', 'DEPTH-MATCHED', 'DERIVED', 'FILTERED',
                 'HOLE-SIZE-CORRECTED', 'LITHOLOGY-CORRECTED', 'LOCAL-COMPUTATION',
                 'LOCALLY-DEFINED', 'MODELLED', 'MUDCAKE-CORRECTED', 'NORMALIZED', 'OVER-SAMPLED', 'PATCHED',
                 'PRESSURE-CORRECTED', 'RE-SAMPLED', 'SALINITY-CORRECTED', 'SAMPLED-DOWNWARD', 'SAMPLED-UPWARD',
                 'SPEED-CORRECTED', 'SPLICED', 'SQUARED', 'STACKED', 'STANDARD-DEVIATION', 'STANDOFF-CORRECTED',
                 'TEMPERATURE-CORRECTED', 'UNDER-SAMPLED'],
    'Unit': ['A', 'K', 'cd', 'dAPI', 'dB', 'gAPI', 'kg', 'm', 'mol', 'nAPI', 'rad', 's', 'sr', 'Btu', 'C', 'D',
             'GPa', 'Gal', 'Hz', 'J', 'L', 'MHz', 'MPa', 'MeV', 'Mg', 'Mpsi', 'N', 'Oe', 'P', 'Pa',
             'S', 'T', 'V', 'W', 'Wb', 'a', 'acre', 'atm', 'b', 'bar', 'bbl', 'c', 'cP', 'cal',
             'cm', 'cu', 'd', 'daN', 'deg', 'degC', 'degF', 'dm', 'eV', 'fC', 'ft', 'g', 'gal', 'h',
             'in', 'kHz', 'kPa', 'kV', 'keV', 'kgf', 'km', 'lbf', 'lbm', 'mA', 'mC', 'mD', 'mGal',
             'mL', 'mS', 'mT', 'mV', 'mW', 'mg', 'min', 'mm', 'mohm', 'ms', 'nC', 'nW', 'ns', 'ohm',
             'pC', 'pPa', 'ppdk', 'ppk', 'ppm', 'psi', 'pu', 't', 'ton', 'uA', 'uC', 'uPa', 'uV',
             'um', 'uohm', 'upsi', 'us'],
}
