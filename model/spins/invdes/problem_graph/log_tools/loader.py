import collections
import os
import pickle
from typing import Dict, List, NamedTuple, Optional, Set, Union
import flatdict
import numpy as np
import pandas as pd
from spins.invdes import problem_graph
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace
from spins.invdes.problem_graph.log_tools import monitor_spec
LOG_EXTENSION = 'pkl'
LOG_COUNTER = 'log_counter'
LOG_TRANSFORMATION_KEY = 'transformation'
LOG_TRANSFORMATION_INFO_KEY = 'event:state'
LOG_ITERATION_KEY = 'event:iteration'
LOG_MONITOR_DATA_KEY = 'monitor_data'
SCALAR_TYPE = 'scalar'
PLANAR_TYPE = 'planar'
VOLUME_TYPE = 'volume'
TransformMonitorData = NamedTuple('TransformMonitorData', [('data', List), ('iteration', List[int])])
'\nNamedTuple representing the monitor data associated with an event in a transformation.\n\nAttributes:\n    data: List containing the monitor data for the specified event in the specified\n        transformation. Each entry in the list is the data for 1 iteration.\n    iteration: List of the iterations for each monitor data value.\n'
MonitorNames = NamedTuple('MonitorNames', [('scalars', monitor_spec.MonitorDescriptionList), ('planars', monitor_spec.MonitorDescriptionList), ('volumes', monitor_spec.MonitorDescriptionList)])
'\nNamedTuple representing `MonitorDescriptionList` objects and the type of monitor contained.\n\nAttributes:\n    scalars: List of monitor descriptions for 1-D scalar monitors (e.g. monitors for objective function, powers etc.).\n    planars: List of monitor descriptions for 2-D planar monitors (e.g. monitors for 2D field slices or 2D epsilon slices).\n    volumes: List of monitor descriptions for 3-D volume monitors (e.g. monitors for full 3D fields or epsilon).\n'
ScalarPlotData = NamedTuple('ScalarPlotData', [('data', List[float]), ('transformation_changes', List[int]), ('iterations', List[int])])
'\nNamedTuple representing data used for plotting scalar transformation data versus iteration.\n\nAttributes:\n    data: List of the monitor data for each iteration.\n    transformation_changes: List of indices at which the transformation has changed.\n    iterations: List of iterations. Iterations are cumulative across transformations.\n\n'

def create_log_data_frame(log_dict_list: List[Dict]) -> pd.DataFrame:
    log_df = pd.DataFrame()
    for log_dict in log_dict_list:
        flat_log = flatdict.FlatDict(log_dict)
        for key in flat_log.keys():
            if not isinstance(flat_log[key], str):
                flat_log[key] = [flat_log[key]]
        single_log_df = pd.DataFrame(dict(flat_log), index=[0])
        log_df = pd.concat([log_df, single_log_df], axis=0, ignore_index=True, sort=False)
    if LOG_COUNTER in log_df.columns:
        log_df = log_df.sort_values(by=[LOG_COUNTER])
    return log_df

def load_all_logs(log_dir: str) -> Dict:
    logs_name_list = []
    for dir_file in os.listdir(log_dir):
        if dir_file.endswith(LOG_EXTENSION):
            logs_name_list.append(dir_file)
    log_dict_list = []
    for file_name in logs_name_list:
        with open(os.path.join(log_dir, file_name), 'rb') as log_file:
            data = pickle.load(log_file)
            if 'monitor_data' not in data:
                continue
            log_dict_list.append(data)
    return log_dict_list

def get_monitor_data(log_df: pd.DataFrame, monitor_names: Union[str, List[str]], event_name: str) -> collections.OrderedDict:
    if isinstance(monitor_names, str):
        monitor_names = [monitor_names]
    log_df_event = log_df[log_df[LOG_TRANSFORMATION_INFO_KEY] == event_name]
    all_transformation_names = log_df[LOG_TRANSFORMATION_KEY].unique().tolist()
    monitor_data = collections.OrderedDict()
    for transformation_name in all_transformation_names:
        log_df_event_trans = log_df_event[log_df_event[LOG_TRANSFORMATION_KEY] == transformation_name]
        for name in monitor_names:
            full_name = LOG_MONITOR_DATA_KEY + ':' + name
            if full_name not in log_df_event_trans:
                continue
            mask = ~log_df_event_trans[full_name].isnull()
            mon_dat = log_df_event_trans[full_name][mask].tolist()
            if LOG_ITERATION_KEY in log_df_event_trans:
                iter_data = log_df_event_trans[LOG_ITERATION_KEY][mask & ~log_df_event_trans[LOG_ITERATION_KEY].isnull()].tolist()
            else:
                iter_data = []
            if mon_dat:
                monitor_data[transformation_name] = TransformMonitorData(mon_dat, list(np.int_(iter_data)))
                break
    return monitor_data

def get_single_monitor_data(log_df: pd.DataFrame, monitor_names: Union[str, List[str]], transformation_name: Optional[str]=None, iteration: Optional[int]=None, event_name: Optional[str]=None) -> Union[float, List]:
    if transformation_name is None:
        all_transformation_names = log_df[LOG_TRANSFORMATION_KEY].unique().tolist()
    else:
        all_transformation_names = [transformation_name]
    if event_name is None:
        all_event_names = log_df[LOG_TRANSFORMATION_INFO_KEY].unique().tolist()
    else:
        all_event_names = [event_name]
    for name_transformation in reversed(all_transformation_names):
        for name_event in reversed(all_event_names):
            data_all = get_monitor_data(log_df, monitor_names, name_event)
            if not data_all or name_transformation not in data_all.keys():
                continue
            transformation_key = name_transformation
            if iteration in data_all[transformation_key].iteration:
                iteration_index = data_all[transformation_key].iteration.index(iteration)
            else:
                iteration_index = -1
            return data_all[transformation_key].data[iteration_index]
    return []

def get_monitors_by_type(log_df: pd.DataFrame, monitor_descriptions: monitor_spec.MonitorDescriptionList) -> MonitorNames:
    scalar_monitors = []
    planar_monitors = []
    volume_monitors = []
    for m in monitor_descriptions.monitor_list:
        monitor_type = m.monitor_type
        monitor_joiner_id = m.joiner_id
        if monitor_type == SCALAR_TYPE:
            scalar_monitors.append(m)
        elif monitor_type == PLANAR_TYPE:
            planar_monitors.append(m)
        elif monitor_type == VOLUME_TYPE:
            volume_monitors.append(m)
    return MonitorNames(monitor_spec.MonitorDescriptionList(monitor_list=scalar_monitors), monitor_spec.MonitorDescriptionList(monitor_list=planar_monitors), monitor_spec.MonitorDescriptionList(monitor_list=volume_monitors))

def get_overlap_monitor_names(log_df: pd.DataFrame) -> List[str]:
    monitor_names = get_monitor_name_by_type(log_df)
    overlap_names = []
    for name in monitor_names.scalars:
        if 'overlap' in name.lower():
            overlap_names.append(name)
    return overlap_names

def get_joined_scalar_monitors(log_df: pd.DataFrame, monitor_names: Union[str, List[str]], event_name: str, scalar_operation: Optional[str]) -> ScalarPlotData:
    data = []
    transformation_changes = []
    iterations = []
    monitor_data = get_monitor_data(log_df, monitor_names, event_name)
    for transformation in monitor_data.keys():
        transformation_data = monitor_data[transformation].data
        transformation_iters = monitor_data[transformation].iteration
        dat_length = len(data)
        if dat_length > 0:
            iterations.extend(transformation_iters + iterations[-1])
            transformation_changes.append(dat_length)
        else:
            iterations.extend(transformation_iters)
        data.extend(transformation_data)
    data = process_scalar(data, scalar_operation=scalar_operation)
    return ScalarPlotData(data, transformation_changes, iterations)

def process_scalar(data: Union[float, List], scalar_operation: Optional[str]) -> Union[float, List]:
    if not scalar_operation:
        return data
    elif scalar_operation.lower() == 'magnitude_squared':
        return np.absolute(data) ** 2
    elif scalar_operation.lower() == 'magnitude':
        return np.absolute(data)
    elif scalar_operation.lower() == 'phase':
        return np.angle(data)
    elif scalar_operation.lower() == 'real':
        return np.real(data)
    elif scalar_operation.lower() == 'imag':
        return np.imag(data)
    else:
        raise ValueError('Unknown scalar operation, got {}'.format(scalar_operation))

def process_field(field: List, vector_operation: Optional[str]=None, scalar_operation: Optional[str]=None) -> np.ndarray:
    if vector_operation.lower() == 'magnitude':
        mag = np.sqrt(np.abs(field[0]) ** 2 + np.abs(field[1]) ** 2 + np.abs(field[2]) ** 2)
    elif vector_operation.lower() == 'x':
        mag = field[0]
    elif vector_operation.lower() == 'y':
        mag = field[1]
    elif vector_operation.lower() == 'z':
        mag = field[2]
    mag = process_scalar(mag, scalar_operation=scalar_operation)
    return mag

def display_summary(log_df: pd.DataFrame, monitor_descriptions: monitor_spec.MonitorDescriptionList) -> None:
    monitor_list = get_monitors_by_type(log_df, monitor_descriptions)
    scalar_monitors = monitor_list.scalars
    for mon in scalar_monitors.monitor_list:
        monitor_data = get_single_monitor_data(log_df, mon.monitor_names)
        monitor_data = process_scalar(monitor_data, scalar_operation=mon.scalar_operation)
        print('{name}: {value:1.4E}'.format(name=mon.joiner_id, value=monitor_data))
