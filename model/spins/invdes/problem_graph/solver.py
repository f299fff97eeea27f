import logging
import os
import pickle
from typing import Dict, List, Optional, Tuple
import spins.gds
from spins.invdes.problem_graph import creator
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import workspace

def run_plan(plan: optplan.OptimizationPlan, project_folder: str, save_folder: Optional[str]=None, resume: bool=False) -> None:
    if not save_folder:
        save_folder = project_folder
    setup_logging(save_folder)
    console_logger = logging.getLogger(__name__)
    console_logger.info('Setting up workspace.')
    work = workspace.Workspace(project_folder, save_folder)
    transform_index = 0
    event_data = None
    if resume:
        transform_index, event_data = restore_workspace(plan, work, save_folder, console_logger)
    for transformation_param in plan.transformations[transform_index:]:
        console_logger.info('Running transformation %s.', transformation_param.name)
        work.run(transformation_param, event_data)
        work.logger.write_checkpoint(transformation_param.name)
        event_data = None
    final_parametrization = plan.transformations[-1].parametrization
    parametrization = work.get_object(final_parametrization)
    if hasattr(parametrization, 'generate_polygons'):
        simspace_name = final_parametrization.simulation_space
        poly_coords = parametrization.generate_polygons(work.get_object(simspace_name).dx)
        console_logger.info('Exporting GDS of final design.')
        spins.gds.gen_gds(poly_coords, os.path.join(save_folder, 'spins_design.gds'))
    console_logger.info('Spins finished.')

def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace, save_folder: str, console_logger) -> Tuple[int, Optional[Dict]]:
    transform_index = 0
    event_data = None
    for i, transform in enumerate(plan.transformations):
        if os.path.exists(os.path.join(save_folder, '{}.chkpt.pkl'.format(transform.name))):
            transform_index = i + 1
    if transform_index > 0:
        chkpt_file = os.path.join(save_folder, '{}.chkpt.pkl'.format(plan.transformations[transform_index - 1].name))
        console_logger.info('Restoring from checkpoint {}'.format(chkpt_file))
        with open(chkpt_file, 'rb') as fp:
            chkpt_data = pickle.load(fp)
        for transform in plan.transformations[:transform_index]:
            work.get_object(transform.parametrization).deserialize(chkpt_data['parametrizations'][transform.parametrization.name])
            if transform.parameter_list:
                for set_param in transform.parameter_list:
                    work._add_node(set_param.parameter)
        for param, param_value in chkpt_data['parameters'].items():
            work.get_object(param).set_parameter_value(param_value)
    if transform_index >= len(plan.transformations):
        return (transform_index, None)
    log_file = workspace.get_latest_log_file(save_folder)
    if not log_file:
        return (transform_index, None)
    console_logger.info('Restoring from log {}'.format(log_file))
    with open(log_file, 'rb') as fp:
        log_data = pickle.load(fp)
    if log_data['transformation'] == plan.transformations[transform_index].name:
        work.get_object(plan.transformations[transform_index].parametrization).deserialize(log_data['parametrization'])
        event_data = log_data['event']
        parameter_list = plan.transformations[transform_index].parameter_list
        for set_param in parameter_list or []:
            work._add_node(set_param.parameter)
        for param, param_value in log_data['parameters'].items():
            work.get_object(param).set_parameter_value(param_value)
    work.logger._log_counter = log_data['log_counter']
    return (transform_index, event_data)

def setup_logging(save_folder: str) -> None:
    log_format = '[%(asctime)-15s][%(levelname)s][%(module)s][%(funcName)s] %(message)s'
    logging.basicConfig(format=log_format)
    log_file_handler = logging.FileHandler(os.path.join(save_folder, 'spins.log'))
    log_file_handler.setFormatter(logging.Formatter(log_format))
    logging.getLogger('').addHandler(log_file_handler)
    logging.getLogger('').setLevel(logging.INFO)
    logging.getLogger('requests').setLevel(logging.ERROR)

def main() -> None:
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('--json_file', type=str)
    args = parser.parse_args()
    with open(args.json_file, 'r') as fp:
        plan = optplan.loads(fp.read())
    run_plan(plan, os.path.dirname(args.json_file))
if __name__ == '__main__':
    main()
