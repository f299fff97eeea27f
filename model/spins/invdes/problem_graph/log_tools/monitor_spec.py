from typing import Dict, List, NamedTuple, Optional, Tuple, Union
from schematics import models
from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils
import yaml
MONITOR_SPEC_NAME = 'monitor_spec.yml'

class MonitorDescription(schema_utils.Model):
    monitor = optplan.ReferenceType(optplan.Monitor)
    joiner_id = types.StringType()
    monitor_type = types.StringType(choices=('scalar', 'planar', 'volume'))
    scalar_operation = types.StringType(choices=('magnitude_squared', 'magnitude', 'phase', 'real', 'imag'))
    vector_operation = types.StringType(choices=('magnitude', 'x', 'y', 'z'))

class JoinedMonitorDescription(schema_utils.Model):
    joiner_id = types.StringType()
    monitor_names = types.ListType(optplan.ReferenceType(optplan.Monitor))
    monitor_type = types.StringType(choices=('scalar', 'planar', 'volume'))
    scalar_operation = types.StringType(choices=('magnitude_squared', 'magnitude', 'phase', 'real', 'imag'))
    vector_operation = types.StringType(choices=('magnitude', 'x', 'y', 'z'))

    def __init__(self, *args, **kwargs) -> None:
        if 'monitor_name' in kwargs:
            kwargs['monitor_names'] = [kwargs['monitor_name']]
            del kwargs['monitor_name']
        super().__init__(*args, **kwargs)
        if not self.joiner_id:
            self.joiner_id = self.monitor_names[0]

class MonitorDescriptionList(schema_utils.Model):
    monitor_list = types.ListType(types.ModelType(JoinedMonitorDescription))

def get_monitor_objects(monitor_list: List[MonitorDescription], filter_by_type: Optional[str]=None) -> List[optplan.Monitor]:
    if filter_by_type:
        return [m.monitor for m in monitor_list if m.monitor_type == filter_by_type]
    else:
        return [m.monitor for m in monitor_list]

def convert_element_list(monitor_descriptions: List[MonitorDescription]) -> MonitorDescriptionList:
    monitor_dict = {}
    for m in monitor_descriptions:
        if m.joiner_id in monitor_dict:
            m_joined = monitor_dict[m.joiner_id]
            if not m.monitor_type == m_joined.monitor_type:
                raise ValueError('Monitor type for ' + m.monitor.name + ' is inconsistent for joiner id ' + m.joiner_id)
            if not m.scalar_operation == m_joined.scalar_operation:
                raise ValueError('Scalar operation for ' + m.monitor.name + ' is inconsistent for joiner id ' + m.joiner_id)
            if not m.vector_operation == m_joined.vector_operation:
                raise ValueError('Vector operation for ' + m.monitor.name + ' is inconsistent for joiner id ' + m.joiner_id)
            monitor_dict[m.joiner_id].monitor_names.append(m.monitor.name)
        else:
            monitor_dict[m.joiner_id] = JoinedMonitorDescription(joiner_id=m.joiner_id, monitor_names=[m.monitor.name], monitor_type=m.monitor_type, scalar_operation=m.scalar_operation, vector_operation=m.vector_operation)
    return MonitorDescriptionList(monitor_list=list(monitor_dict.values()))

def get_joined_monitor_description(monitor_descriptions: MonitorDescriptionList, joiner_id: str) -> JoinedMonitorDescription:
    for mon in monitor_descriptions.monitor_list:
        if mon.joiner_id == joiner_id:
            return mon

def save_to_yml(monitor_descriptions: MonitorDescriptionList, filename: str) -> None:
    with open(filename, 'w') as fp:
        yaml.dump(monitor_descriptions.to_native(), fp)

def load_from_yml(filename: str) -> MonitorDescriptionList:
    with open(filename) as fp:
        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
    return monitor_descriptions
