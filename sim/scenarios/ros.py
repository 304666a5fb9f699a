""" X07: the ROS 2 bag converter, with stand-ins for the ROS 2 packages """
import importlib
import importlib.metadata
import json
import math
import os
import re
import sys
import types

from .. import recorder as R
from .. import simio
from ..core import Violation
from .base import read_file
from .tools import NotConvertible, Tool, columns, texts

# topics of PX4 and the message types they are published with
TOPICS = {
    'vehicle_status': 'VehicleStatus', 'sensor_accel': 'SensorAccel', 'battery_status': 'BatteryStatus', 'airspeed': 'Airspeed',
    'input_rc': 'InputRc', 'actuator_motors': 'ActuatorMotors', 'vehicle_gps_position': 'SensorGps',
    'actuator_outputs_sim': 'ActuatorOutputs', 'vehicle_attitude_groundtruth': 'VehicleAttitude',
    'estimator_local_position': 'VehicleLocalPosition', 'estimator_baro_bias': 'EstimatorBias',
    'gimbal_v1_command': 'VehicleCommand', 'estimator_wind': 'Wind', 'fw_virtual_attitude_setpoint': 'VehicleAttitudeSetpoint',
    'estimator_aid_src_baro_hgt': 'EstimatorAidSource1d', 'estimator_aid_src_gnss_pos': 'EstimatorAidSource2d',
    'estimator_aid_src_gnss_vel': 'EstimatorAidSource3d', 'vehicle_visual_odometry': 'VehicleOdometry',
    'estimator_global_position': 'VehicleGlobalPosition', 'actuator_controls_status_0': 'ActuatorControlsStatus',
    'config_overrides_request': 'ConfigOverrides', 'px4io_status': 'Px4ioStatus', 'estimator_ev_pos_bias': 'EstimatorBias3d',
    'vehicle_angular_velocity_groundtruth': 'VehicleAngularVelocity', 'vehicle_thrust_setpoint_virtual_fw': 'VehicleThrustSetpoint',
}
ROS = {'uint8_t': 'uint8', 'int8_t': 'int8', 'uint16_t': 'uint16', 'int16_t': 'int16', 'uint32_t': 'uint32', 'int32_t': 'int32',
       'uint64_t': 'uint64', 'int64_t': 'int64', 'float': 'float', 'double': 'double', 'bool': 'boolean', 'char': 'uint8'}
VERSIONS = ['0.15.9', '0.15.14', '0.24.0', '0.25.0', '0.26.5', '0.31.0', '0.32.0', '0.33.1']

STATE = {'version': '0.32.0', 'out': None, 'used': {}}


def numbers(version):
    return tuple(int(x) for x in version.split('.'))


def checked(ros_type, name, value):
    """ the value checks of generated ROS 2 message classes """
    base = ros_type.split('[')[0]
    if base == 'boolean':
        good = isinstance(value, bool)
    elif base in ('float', 'double'):
        good = isinstance(value, float)
        if good and base == 'float' and not math.isnan(value) and not math.isinf(value):
            good = abs(value) <= 3.402823466e38
    else:
        bits = int(base.lstrip('uint'))
        low, high = (0, 2 ** bits) if base[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1))
        good = isinstance(value, int) and not isinstance(value, bool) and low <= value < high
    if not good:
        raise AssertionError("The '%s' field must be of type '%s', got %r" % (name, ros_type, value))
    return value


class Array(list):
    """ an array field of a message """

    def __init__(self, ros_type, name, size):
        self.what = (ros_type, name)
        zero = False if ros_type.startswith('boolean') else 0.0 if ros_type[0] in 'fd' else 0
        super().__init__([zero] * size)

    def __setitem__(self, index, value):
        super().__setitem__(index, checked(self.what[0], '%s[%s]' % (self.what[1], index), value))


def message_class(type_name, fields):
    """ fields: [[name, ROS type]] """
    table = dict(map(tuple, fields))

    class Message:
        def __init__(self):
            for name, kind in table.items():
                if kind.endswith(']'):
                    value = Array(kind, name, int(kind[kind.index('[') + 1:-1]))
                else:
                    value = False if kind == 'boolean' else 0.0 if kind[0] in 'fd' else 0
                object.__setattr__(self, name, value)

        def __setattr__(self, name, value):
            if name not in table:
                raise AttributeError("'%s' object has no attribute '%s'" % (type_name, name))
            if table[name].endswith(']'):
                if len(value) != len(getattr(self, name)):
                    raise AssertionError("The '%s' array field must have length %d" % (name, len(getattr(self, name))))
                for item in value:
                    checked(table[name], name, item)
                object.__setattr__(self, name, list(value))
            else:
                object.__setattr__(self, name, checked(table[name], name, value))

        @classmethod
        def get_fields_and_field_types(cls):
            return dict(table)
    Message.__name__ = Message.__qualname__ = type_name
    Message.TABLE = table
    return Message


def plain(value):
    if isinstance(value, float):
        return 'nan' if value != value else value.hex()
    if isinstance(value, list):
        return [plain(v) for v in value]
    return value


def serialize_message(msg):
    table = type(msg).TABLE
    return json.dumps([type(msg).__name__, {n: plain(getattr(msg, n)) for n in table}]).encode()


class StorageOptions:
    def __init__(self, uri, storage_id=''):
        self.uri, self.storage_id = uri, storage_id


class ConverterOptions:
    def __init__(self, input_serialization_format='', output_serialization_format=''):
        self.formats = (input_serialization_format, output_serialization_format)


class TopicMetadata:
    """ the identifier became the first parameter with version 0.25 """

    def __init__(self, *args, **kwargs):
        names = ['name', 'type', 'serialization_format']
        if numbers(STATE['version']) >= (0, 25, 0):
            names.insert(0, 'id')
        given = dict(zip(names, args), **kwargs)
        if len(args) > len(names) or set(given) - set(names) - {'offered_qos_profiles'} or set(names) - set(given):
            raise TypeError('__init__(): incompatible constructor arguments.')
        if not isinstance(given['name'], str) or not isinstance(given['type'], str):
            raise TypeError('__init__(): incompatible constructor arguments.')
        self.name, self.type = given['name'], given['type']


class SequentialWriter:
    """ writes the bag as one file with a line per entry, through the simulated file layer """

    def __init__(self):
        self.file = None
        self.topics = {}

    def open(self, storage, converter):
        if self.file is not None:
            raise RuntimeError('already open')
        STATE['used'] = {'uri': storage.uri, 'storage': storage.storage_id, 'formats': list(converter.formats)}
        path = storage.uri if os.path.isabs(storage.uri) else os.path.join(STATE['out'], storage.uri)
        self.file = simio.sim_open(path, 'wb')

    def _entry(self, item):
        if self.file is None:
            raise RuntimeError('Bag is not open. Call open() before writing.')
        self.file.write(json.dumps(item).encode() + b'\n')

    def create_topic(self, meta):
        self._entry(['topic', meta.name, meta.type])
        self.topics[meta.name] = meta.type

    def write(self, *args):
        if len(args) != (4 if numbers(STATE['version']) >= (0, 32, 0) else 3):
            raise TypeError('write(): incompatible function arguments.')
        topic, data, stamp = args[:3]
        if not isinstance(stamp, int) or not isinstance(data, bytes):
            raise TypeError('write(): incompatible function arguments.')
        if topic not in self.topics:
            raise RuntimeError("Failed to write on topic '%s'. Call create_topic() before first write." % topic)
        self._entry(['message', topic, data.hex(), stamp])

    def close(self):
        self.file.close()
        self.file = None


def install(classes):
    """ the packages of ROS 2, for modules that import them """
    if 'rosbag2_py' not in sys.modules:
        rclpy = types.ModuleType('rclpy')
        rclpy.serialization = types.ModuleType('rclpy.serialization')
        rclpy.serialization.serialize_message = serialize_message
        bag = types.ModuleType('rosbag2_py')
        for cls in (StorageOptions, ConverterOptions, TopicMetadata, SequentialWriter):
            setattr(bag, cls.__name__, cls)
        px4 = types.ModuleType('px4_msgs')
        px4.msg = types.ModuleType('px4_msgs.msg')
        sys.modules.update({'rclpy': rclpy, 'rclpy.serialization': rclpy.serialization, 'rosbag2_py': bag, 'px4_msgs': px4,
                            'px4_msgs.msg': px4.msg})
        real = importlib.metadata.version

        def version(name):
            return STATE['version'] if name == 'rosbag2_py' else real(name)
        importlib.metadata.version = version
    msg = sys.modules['px4_msgs.msg']
    for name in [n for n in vars(msg) if not n.startswith('__')]:
        delattr(msg, name)
    for name, fields in classes.items():
        setattr(msg, name, message_class(name, fields))


class Ros2Bag(Tool):
    id = 'X07'
    module = 'ulog2ros2bag'
    real = Tool.real + ['pyulog.ulog2ros2bag']
    stub = Tool.stub + ['rosbag2_py, rclpy and px4_msgs (stand-ins with the same checks; the bag is a file on the simulated disk)']
    rule = ('one recording per case (a quarter cut at a random byte) converted with random options, message packages and rosbag2 '
            'versions, undisturbed and with failing or partial writes, opens, closes and reads and full disks; non-trivial: at '
            'least two converted topic instances; distinct by event log and workload')
    assumptions = ['no two topic instances get the same ROS 2 topic name']
    quick_cases = 2000
    thorough_cases = 1000000

    def recording(self, rng):
        rec = texts(R.generate(rng, {'modest': True, 'msgs': rng.choice([10, 30, 60]), 'max_fields': rng.choice([3, 6]),
                                     'zero_stamps': rng.choice([0, 0, 0.2]), 'few_extra': True}), rng)
        # topics and message types of PX4, one topic per type
        names = rng.sample(sorted(TOPICS), len(TOPICS))
        mapping = {}
        for m in rec['data']:
            if m[0] == 'A' and m[3] not in mapping:
                mapping[m[3]] = names.pop()
        for m in rec['defs']:
            if m[0] == 'F' and m[1] in mapping:
                m[1] = mapping[m[1]]
        for m in rec['data']:
            if m[0] == 'A':
                m[3] = mapping[m[3]]
        return rec

    def options(self, rng, rec):
        formats = {m[1]: m[2] for m in rec['defs'] if m[0] == 'F'}
        names = sorted({m[3] for m in rec['data'] if m[0] == 'A'})
        classes = {}
        for name in names:
            if rng.random() < 0.12:
                continue                # this type is not known
            fields = []
            for ftype, size, fname in formats[name]:
                if ftype in ROS and not fname.startswith('_padding'):
                    fields.append([fname, ROS[ftype] + ('[%d]' % size if size else '')])
            if rng.random() < 0.15 and len(fields) > 1:
                del fields[rng.randrange(1, len(fields))]        # another version of the type
            if rng.random() < 0.3:
                fields.insert(rng.randrange(len(fields) + 1), ['added_later', rng.choice(['float', 'uint8[3]'])])
            classes[TOPICS[name]] = fields
        opts = {'classes': classes, 'version': rng.choice(VERSIONS), 'mcap': rng.random() < 0.5, 'messages': None,
                'bag': rng.choice([None, 'bag', 'my.bag']), 'ignore': rng.random() < 0.3, 'verbose': rng.random() < 0.3,
                'name': rng.choice(['flight.ulg', 'flight.log', 'a.b.ulg'])}
        if rng.random() < 0.3 and names:
            opts['messages'] = rng.sample(names, rng.randrange(1, len(names) + 1)) + rng.choice([[], ['not_there']])
        return opts

    def args(self, plan, out, path):
        opts = plan['opts']
        args = [path]
        if opts['bag']:
            args += ['-o', os.path.join(out, opts['bag'])]
        if opts['mcap']:
            args += ['--mcap']
        if opts['messages']:
            args += ['-m', ','.join(opts['messages'])]
        if opts['ignore']:
            args += ['-i']
        if opts['verbose']:
            args += ['-v']
        return args

    def convert(self, plan, sim, world, root, out, path):
        install(plan['opts']['classes'])
        STATE.update(version=plan['opts']['version'], out=out, used={})
        module = importlib.import_module('pyulog.ulog2ros2bag')
        assert module.ros2_available
        return super().convert(plan, sim, world, root, out, path)

    def expect(self, plan, path):
        """ {(topic, instance): None if left out, else (ROS 2 topic, type, [(fields, time)])} """
        opts = plan['opts']
        topics = self.content(plan, path, opts['messages'])['topics']
        instances = {}
        for key in topics:
            name, multi = key.rsplit('/', 1)
            instances.setdefault(name, set()).add(int(multi))
        out = {}
        for key, topic in topics.items():
            name, multi = key.rsplit('/', 1)
            table = dict(map(tuple, opts['classes'].get(TOPICS[name], [])))
            where = '/px4/' + name if instances[name] == {0} else '/px4/%s_%s' % (name, multi)
            cols = columns(topic)
            plan_fields = []
            for fname, ftype in topic['fields']:
                match = re.fullmatch(r'(\w+)\[(\d+)\]', fname)
                base, index = (match.group(1), int(match.group(2))) if match else (fname, None)
                plan_fields.append((fname, ftype, base, index))
            if not table or any('.' in f[0] or f[2] not in table for f in plan_fields):
                out[key] = None
                continue
            rows = []
            for i in range(topic['n']):
                row = {}
                for fname, kind in table.items():
                    zero = False if kind.startswith('boolean') else 0.0 if kind[0] in 'fd' else 0
                    row[fname] = [zero] * int(kind[kind.index('[') + 1:-1]) if kind.endswith(']') else zero
                for fname, ftype, base, index in plan_fields:
                    value = cols[fname][i]
                    value = bool(value) if ftype == 'bool' else value & 0xff if ftype == 'char' else value
                    if index is None:
                        row[base] = value
                    else:
                        row[base][index] = value
                rows.append(([TOPICS[name], {n: plain(v) for n, v in row.items()}], cols['timestamp'][i] * 1000))
            out[key] = (where, 'px4_msgs/msg/' + TOPICS[name], rows)
        names = [v[0] for v in out.values() if v]
        if len(set(names)) != len(names):
            raise NotConvertible()
        return out

    def nontrivial(self, plan, want):
        return sum(1 for v in want.values() if v) > 1

    def check(self, plan, want, out, path, text):
        opts = plan['opts']
        stem = os.path.basename(path)
        stem = stem[:-4] if stem.endswith('.ulg') else stem
        name = opts['bag'] or 'rosbag_' + stem
        used = STATE['used']
        if os.path.basename(used.get('uri', '')) != name or sorted(os.listdir(out)) != [name]:
            raise Violation('bag-name', 'expected %s, got %s %s' % (name, used.get('uri'), sorted(os.listdir(out))))
        if used['storage'] != ('mcap' if opts['mcap'] else 'sqlite3') or used['formats'] != ['cdr', 'cdr']:
            raise Violation('storage', '%s' % used)
        raw = read_file(os.path.join(out, name))
        if raw and not raw.endswith(b'\n'):
            raise Violation('incomplete-bag', '%d bytes' % len(raw))
        topics, messages = {}, {}
        for line in raw.splitlines():
            item = json.loads(line)
            if item[0] == 'topic':
                topics[item[1]] = item[2]
            else:
                messages.setdefault(item[1], []).append((json.loads(bytes.fromhex(item[2])), item[3]))
        expect = {v[0]: v for v in want.values() if v}
        if topics != {n: v[1] for n, v in expect.items()}:
            raise Violation('topics', 'expected %s, got %s' % ({n: v[1] for n, v in expect.items()}, topics))
        for where, (_, _, rows) in expect.items():
            have = messages.get(where, [])
            if len(have) != len(rows):
                raise Violation('messages', '%s: expected %d, got %d' % (where, len(rows), len(have)))
            for i, (a, b) in enumerate(zip(rows, have)):
                if (a[0], a[1]) != (b[0], b[1]):
                    raise Violation('message', '%s %d: expected %s, got %s' % (where, i, a, b))
        lines = text.split('\n')
        for key in want:
            topic = key.rsplit('/', 1)[0]
            warned = any('skipping' in line and re.search(r'\b%s\b' % re.escape(topic), line) for line in lines)
            if want[key] is None and not warned:
                raise Violation('skipped-silently', key)
        total = (len(expect), sum(len(v[2]) for v in expect.values()))
        if '%d topics and %d messages' % total not in text:
            raise Violation('totals', 'expected %s, printed %s' % (total, lines[-2:]))


