""" registry of the scenarios, one per property """
import importlib

ALL = {
    'L01': ('loads', 'Intact'), 'L02': ('loads', 'Cut'), 'L03': ('loads', 'Append'),
    'L04': ('loads', 'Damage'), 'L05': ('loads', 'Source'), 'L06': ('loads', 'Filter'),
    'L07': ('loads', 'Concurrent'), 'L08': ('loads', 'Growing'), 'L09': ('queries', 'Queries'),
    'L10': ('headers', 'HeaderOnly'), 'L11': ('headers', 'Refusal'), 'L12': ('headers', 'Definitions'), 'P01': ('queries', 'Px4View'),
    'D01': ('dbs', 'SaveCrash'), 'D02': ('dbs', 'FailedOperation'), 'D03': ('dbs', 'Linearizable'),
    'D04': ('dbs', 'AtomicRead'), 'D05': ('dbs', 'RoundTrip'), 'D06': ('dbs', 'DeleteCrash'),
    'D07': ('dbs', 'Waits'),
    'M01': ('migrations', 'Interrupted'), 'M02': ('migrations', 'KeepsLogs'),
    'M03': ('migrations', 'ConcurrentMigrations'), 'M04': ('migrations', 'Refused'),
    'X01': ('tools', 'Csv'), 'X02': ('tools', 'Params'), 'X03': ('tools', 'GpsDump'),
    'X04': ('tools', 'Kml'), 'X05': ('tools', 'Info'), 'X06': ('tools', 'Extract'),
    'X07': ('ros', 'Ros2Bag'),
    'E01': ('events', 'Events'),
    'W01': ('writes', 'Rewrite'), 'W02': ('writes', 'FailingWrite'),
}


def get(name):
    module, cls = ALL[name]
    return getattr(importlib.import_module('sim.scenarios.' + module), cls)()
