import math
from typing import List, Optional
from matplotlib.backends import backend_pdf
from matplotlib import pyplot as plt
from mpl_toolkits.axes_grid1 import make_axes_locatable
import numpy as np
import pandas as pd
from spins.invdes.problem_graph.log_tools import loader
from spins.invdes.problem_graph.log_tools import monitor_spec

def plot_scalar_monitors(monitor_description_list: monitor_spec.MonitorDescriptionList, log_df: pd.DataFrame, event_name: str='optimizing', same_plt: bool=False, pdf_obj: Optional[backend_pdf.PdfPages]=None, filename: Optional[str]=None, show: bool=True):
    if same_plt:
        num_plts = 1
        num_rows = 1
        num_cols = 1
    else:
        num_plts = len(monitor_description_list.monitor_list)
        num_rows = 3
        num_cols = 2
    fig_list = _create_figs(num_plts, num_rows, num_cols)
    axes_list = []
    for fig in fig_list:
        axes_list += fig.axes
    for plot_num, monitor_description in enumerate(monitor_description_list.monitor_list):
        scalar_op = monitor_description.scalar_operation
        if not scalar_op:
            scalar_op = 'real'
        plot_data = loader.get_joined_scalar_monitors(log_df, monitor_description.monitor_names, event_name, scalar_op)
        if same_plt:
            axs = axes_list[0]
        else:
            axs = axes_list[plot_num]
        axs.plot(plot_data.iterations, plot_data.data, label=monitor_description.joiner_id)
        for change in plot_data.transformation_changes:
            axs.axvline(x=change, color='k', linestyle='--')
        if same_plt:
            axs.legend()
        elif not plot_data.data.size:
            axs.set_title('{name}:\nNo iteration data found.'.format(name=monitor_description.joiner_id))
        else:
            axs.set_title('{name}:\nFinal value: {value:1.4E}'.format(name=monitor_description.joiner_id, value=plot_data.data[-1]))
        axs.set_xlabel('Iteration')
    if pdf_obj is not None:
        for fig in fig_list:
            pdf_obj.savefig(fig)
    if filename is not None:
        with backend_pdf.PdfPages(filename) as pdf:
            for fig in fig_list:
                pdf.savefig(fig)
    if show:
        plt.show()

def plot_field_data(monitor_description_list: monitor_spec.MonitorDescriptionList, log_df: pd.DataFrame, event_name: Optional[str]=None, transformation_name: Optional[str]=None, iteration: Optional[int]=None, pdf_obj: Optional[backend_pdf.PdfPages]=None, filename: Optional[str]=None, show: bool=True) -> None:
    num_plts = len(monitor_description_list.monitor_list)
    fig_list = _create_figs(num_plts, num_rows=2, num_cols=2)
    axes_list = []
    for fig in fig_list:
        axes_list += fig.axes
    for plt_ind in range(num_plts):
        axs = axes_list[plt_ind]
        monitor_description = monitor_description_list.monitor_list[plt_ind]
        field_dat = loader.get_single_monitor_data(log_df, monitor_description.monitor_names, transformation_name=transformation_name, iteration=iteration, event_name=event_name)
        if field_dat:
            field = loader.process_field(field_dat, vector_operation=monitor_description.vector_operation, scalar_operation=monitor_description.scalar_operation)
            field = np.squeeze(np.array(field.T))
            if len(field.shape) != 2:
                raise ValueError('Plotted field data must be 2D, but {} has dimensions {}'.format(monitor_description.joiner_id, len(field.shape)))
            im_plt = axs.imshow(field, origin='lower')
            axs.set_title(monitor_description.joiner_id)
            cax = make_axes_locatable(axs).append_axes('right', size='5%', pad=0.15)
            plt.colorbar(im_plt, ax=axs, cax=cax, format='%.2e')
        else:
            axs.set_title('{name}:\nNo field data found.'.format(name=monitor_description.joiner_id))
    if pdf_obj is not None:
        for fig in fig_list:
            pdf_obj.savefig(fig)
    if filename is not None:
        with backend_pdf.PdfPages(filename) as pdf:
            for fig in fig_list:
                pdf.savefig(fig)
    if show:
        plt.show()

def _create_figs(num_plts: int, num_rows: int=1, num_cols: int=1) -> List:
    num_figs = math.ceil(num_plts / (num_rows * num_cols))
    extras = num_plts % (num_rows * num_cols)
    figs_list = []
    for fig_ind in range(num_figs):
        fig, _ = plt.subplots(num_rows, num_cols, figsize=(10, 6), tight_layout=True)
        figs_list.append(fig)
    if extras:
        for extras_ind in range(num_rows * num_cols - extras):
            figs_list[-1].delaxes(figs_list[-1].axes[-1])
    return figs_list

def plot_overlaps(log_df: pd.DataFrame, compute_complex: str='power', same_plt: bool=True, pdf_obj: Optional[backend_pdf.PdfPages]=None, filename: Optional[str]=None, show: bool=True):
    overlap_names = loader.get_overlap_monitor_names(log_df)
    plot_scalar_monitors(monitor_name_list=overlap_names, log_df=log_df, same_plt=same_plt, compute_complex=compute_complex, pdf_obj=pdf_obj, filename=filename, show=show)

def plot_monitor_data(log_df: pd.DataFrame, monitor_descriptions: monitor_spec.MonitorDescriptionList, filename: Optional[str]=None, show: bool=True) -> None:
    monitor_list = loader.get_monitors_by_type(log_df, monitor_descriptions)
    if filename is not None:
        with backend_pdf.PdfPages(filename) as pdf:
            plot_scalar_monitors(monitor_list.scalars, log_df, pdf_obj=pdf, show=False)
            plot_field_data(monitor_list.planars, log_df, pdf_obj=pdf, show=False)
    else:
        plot_scalar_monitors(monitor_list.scalars, log_df, show=False)
        plot_field_data(monitor_list.planars, log_df, show=False)
    if show:
        plt.show()
    else:
        plt.close()
