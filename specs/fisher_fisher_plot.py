"""Reference definitions for seyfert.fisher.fisher_plot."""
from matplotlib import ticker
from matplotlib.patches import Ellipse, Patch
from pathlib import Path
from seyfert import plot_utils
from seyfert.fisher.fisher_plot import FisherPlotConfig
from seyfert.utils import converters as cnv, tex_utils as txu, filesystem_utils as fsu
import json
import logging
import matplotlib
import matplotlib.pyplot as plt
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.fisher.fisher_plot.FisherPlotConfig")
class s_FisherPlotConfig:
    config_dict: 'Dict'
    gauss_cl_alpha_dict: 'Dict[float, float]'
    ellipse_cl_alpha_dict: 'Dict[float, float]'
    plot_ranges: 'Dict[str, Tuple[float, float]]'


@shape("seyfert.fisher.fisher_plot.FisherPlotter")
class s_FisherPlotter:
    analysis: 'FisherAnalysis'
    figure: 'plt.Figure'
    axes: 'np.ndarray'
    config: 'FisherPlotConfig'
    pars_to_plot: 'List[str]'


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.__init__", ret=False)
def r_FisherPlotConfig_init(self, config_file=None, n_cosmo_pars=None):
    self.n_cosmo_pars = n_cosmo_pars
    self.gauss_cl_alpha_dict = None
    self.ellipse_cl_alpha_dict = None
    self.plot_ranges = None
    self.config_dict = None
    self.cmap = None
    self.tex_transl = txu.TeXTranslator()
    if not isinstance(self.n_cosmo_pars, int):
        raise TypeError()
    if isinstance(config_file, (str, Path)):
        with open(config_file, 'r') as jsf:
            config_dict = json.load(jsf)
            self.loadFromConfigDict(config_dict['plot_settings'])


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.use_tex", kind='property')
def r_FisherPlotConfig_use_tex(self):
    return self.config_dict['usetex']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.dims_dict", kind='property')
def r_FisherPlotConfig_dims_dict(self):
    return self.config_dict['dimensions']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.fig_size_x_cm", kind='property')
def r_FisherPlotConfig_fig_size_x_cm(self):
    return self.dims_dict['fig_size_x_cm']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.fig_size_y_cm", kind='property')
def r_FisherPlotConfig_fig_size_y_cm(self):
    return self.dims_dict['fig_size_y_cm']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.fig_size_x_inches", kind='property')
def r_FisherPlotConfig_fig_size_x_inches(self):
    return cnv.CmToInches(self.fig_size_x_cm)


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.fig_size_y_inches", kind='property')
def r_FisherPlotConfig_fig_size_y_inches(self):
    return cnv.CmToInches(self.fig_size_y_cm)


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.horizontal_spacing", kind='property')
def r_FisherPlotConfig_horizontal_spacing(self):
    return self.dims_dict['subplots_spacing']['horizontal']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.vertical_spacing", kind='property')
def r_FisherPlotConfig_vertical_spacing(self):
    return self.dims_dict['subplots_spacing']['vertical']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.graphics_dict", kind='property')
def r_FisherPlotConfig_graphics_dict(self):
    return self.config_dict['graphics']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.dpi", kind='property')
def r_FisherPlotConfig_dpi(self):
    return self.graphics_dict['dpi']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.color_map_name", kind='property')
def r_FisherPlotConfig_color_map_name(self):
    return self.graphics_dict['color_map']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.axes_dict", kind='property')
def r_FisherPlotConfig_axes_dict(self):
    return self.config_dict['axes']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.axes_label_size", kind='property')
def r_FisherPlotConfig_axes_label_size(self):
    return self.axes_dict['label_size']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.axes_x_label_pad", kind='property')
def r_FisherPlotConfig_axes_x_label_pad(self):
    return self.axes_dict['x_label_pad']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.axes_y_label_pad", kind='property')
def r_FisherPlotConfig_axes_y_label_pad(self):
    return self.axes_dict['y_label_pad']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.axes_borders_width", kind='property')
def r_FisherPlotConfig_axes_borders_width(self):
    return self.axes_dict['borders_width']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.axes_lines_width", kind='property')
def r_FisherPlotConfig_axes_lines_width(self):
    return self.axes_dict['lines_width']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.ticks_width", kind='property')
def r_FisherPlotConfig_ticks_width(self):
    return self.axes_dict['ticks']['width']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.ticks_length", kind='property')
def r_FisherPlotConfig_ticks_length(self):
    return self.axes_dict['ticks']['length']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.ticks_label_size", kind='property')
def r_FisherPlotConfig_ticks_label_size(self):
    return self.axes_dict['ticks']['label_size']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.ticks_label_num_digits", kind='property')
def r_FisherPlotConfig_ticks_label_num_digits(self):
    return self.axes_dict['ticks']['digits']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.ticks_number", kind='property')
def r_FisherPlotConfig_ticks_number(self):
    return self.axes_dict['ticks']['number']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.x_tick_labels_rot", kind='property')
def r_FisherPlotConfig_x_tick_labels_rot(self):
    return self.axes_dict['ticks']['x_tick_labels_rot']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.y_tick_labels_rot", kind='property')
def r_FisherPlotConfig_y_tick_labels_rot(self):
    return self.axes_dict['ticks']['y_tick_labels_rot']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.legend_dict", kind='property')
def r_FisherPlotConfig_legend_dict(self):
    return self.config_dict['legend']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.legend_loc", kind='property')
def r_FisherPlotConfig_legend_loc(self):
    return self.legend_dict['loc']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.legend_bbox_to_anchor", kind='property')
def r_FisherPlotConfig_legend_bbox_to_anchor(self):
    return self.legend_dict['bbox_to_anchor']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.legend_fontsize", kind='property')
def r_FisherPlotConfig_legend_fontsize(self):
    return self.legend_dict['fontsize']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.legend_title_fontsize", kind='property')
def r_FisherPlotConfig_legend_title_fontsize(self):
    return self.legend_dict['title_fontsize']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.text_box_dict", kind='property')
def r_FisherPlotConfig_text_box_dict(self):
    return self.config_dict['text_box']


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.loadFromConfigDict", ret=False)
def r_FisherPlotConfig_loadFromConfigDict(self, config_dict):
    self.config_dict = config_dict
    self.setGraphicsProperties()


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.setGraphicsProperties", ret=False)
def r_FisherPlotConfig_setGraphicsProperties(self):
    self.gauss_cl_alpha_dict = {float(cl): alpha for cl, alpha in self.graphics_dict['cl_alpha_dict']['gauss'].items()}
    self.ellipse_cl_alpha_dict = {float(cl): alpha for cl, alpha in self.graphics_dict['cl_alpha_dict']['ellipse'].items()}
    self.cmap = matplotlib.cm.get_cmap(self.color_map_name)


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.loadParameterPlotRangesFromFile", ret=False)
def r_FisherPlotConfig_loadParameterPlotRangesFromFile(self, ranges_file):
    with open(ranges_file, 'r') as jsf:
        ranges_dict = json.load(jsf)
    self.plot_ranges = ranges_dict


@of("seyfert.fisher.fisher_plot.FisherPlotConfig.getTeXName")
def r_FisherPlotConfig_getTeXName(self, name, use_aliases=False):
    return self.tex_transl.translateToTeX(name, use_aliases=use_aliases)


@of("seyfert.fisher.fisher_plot.FisherPlotter.__init__", ret=False)
def r_FisherPlotter_init(self, pars_to_plot=None, config=None, fisher_analysis=None):
    self.analysis = fisher_analysis
    self.config = config
    self.pars_to_plot = pars_to_plot
    self.figure = None
    self.axes = None
    self.translator = txu.TeXTranslator()
    self._colors_arr = None
    self.params_ticks_fmts = {}


@of("seyfert.fisher.fisher_plot.FisherPlotter.fisher_matrices", kind='property')
def r_FisherPlotter_fisher_matrices(self):
    return self.analysis.fisher_matrices


@of("seyfert.fisher.fisher_plot.FisherPlotter.fishers_order", kind='property')
def r_FisherPlotter_fishers_order(self):
    return self.analysis.fishers_order


@of("seyfert.fisher.fisher_plot.FisherPlotter.n_cosmo_pars", kind='property')
def r_FisherPlotter_n_cosmo_pars(self):
    return len(self.pars_to_plot)


@of("seyfert.fisher.fisher_plot.FisherPlotter.plot_ranges", kind='property')
def r_FisherPlotter_plot_ranges(self):
    return self.config.plot_ranges


@of("seyfert.fisher.fisher_plot.FisherPlotter.plot_ranges@setter", ret=False, kind='setter')
def r_FisherPlotter_plot_ranges_set(self, value):
    self.config.plot_ranges = value


@of("seyfert.fisher.fisher_plot.FisherPlotter.setUpDefault", ret=False)
def r_FisherPlotter_setUpDefault(self):
    self.setParamsToPlot(pars_to_plot='all')
    self.setPlotConfig(use_default=True)
    self.setParametersPlotRanges()


@of("seyfert.fisher.fisher_plot.FisherPlotter.setParamsToPlot", ret=False)
def r_FisherPlotter_setParamsToPlot(self, pars_to_plot='all'):
    if self.analysis is None:
        raise TypeError()
    if pars_to_plot == 'all':
        self.pars_to_plot = sorted(list(self.analysis.cosmo_pars_fiducials.keys()))
    else:
        self.pars_to_plot = list(pars_to_plot)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setParametersPlotRanges", ret=False)
def r_FisherPlotter_setParametersPlotRanges(self, ranges_file=None):
    self.config.plot_ranges = {}
    if ranges_file is not None:
        ranges_file = Path(ranges_file)
        if not ranges_file.exists():
            raise FileNotFoundError()
        with open(ranges_file, 'r') as jsf:
            self.config.plot_ranges = json.load(jsf)
    else:
        for name in self.pars_to_plot:
            self.config.plot_ranges[name] = self.computePlotRangeForParameter(name)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setPlotConfig", ret=False)
def r_FisherPlotter_setPlotConfig(self, config_file=None, use_default=False, config_dict=None):
    if use_default:
        config_file = fsu.config_files_dir() / 'results_config.json'
    elif config_file is None:
        raise ValueError()
    self.config = FisherPlotConfig(n_cosmo_pars=self.n_cosmo_pars, config_file=config_file)
    if config_dict is not None:
        self.config.config_dict.update(config_dict)
    self.params_ticks_fmts = {name: f'%.{self.config.ticks_label_num_digits}g' for name in self.pars_to_plot}


@of("seyfert.fisher.fisher_plot.FisherPlotter.getColorForFisher")
def r_FisherPlotter_getColorForFisher(self, name):
    idx = self.fishers_order.index(name)
    if self._colors_arr is None:
        self._colors_arr = np.linspace(0, 1, len(self.fishers_order), endpoint=True)
    return self.config.cmap(self._colors_arr[idx])


@of("seyfert.fisher.fisher_plot.FisherPlotter.makeTriangularPlot")
def r_FisherPlotter_makeTriangularPlot(self, outdir=None, order=None, legend=True):
    plt.rcParams['text.usetex'] = self.config.use_tex
    fig, axes = plt.subplots(nrows=self.n_cosmo_pars, ncols=self.n_cosmo_pars, dpi=self.config.dpi, figsize=(self.config.fig_size_x_inches, self.config.fig_size_y_inches), sharex=False, sharey=False)
    self.figure = fig
    self.axes = axes
    self.figure.subplots_adjust(hspace=self.config.horizontal_spacing, wspace=self.config.vertical_spacing)
    self.drawContours(order=order)
    if legend:
        self.addPlotLegend(order=order)
    self.setFigureTitle()
    if outdir is not None:
        outfile_name = f'contour_{self.analysis.name}.pdf'
        self.figure.savefig(Path(outdir) / outfile_name)
        plt.close(self.figure)
    return (self.figure, self.axes)


@of("seyfert.fisher.fisher_plot.FisherPlotter.drawContours", ret=False)
def r_FisherPlotter_drawContours(self, order=None):
    if order is None:
        order = self.fishers_order
    for i in range(self.axes.shape[0]):
        for j in range(self.axes.shape[1]):
            name_x, name_y = (self.pars_to_plot[j], self.pars_to_plot[i])
            if i < j:
                self.axes[i, j].axis('off')
            elif i == j:
                name = self.pars_to_plot[i]
                for obs in order:
                    self.drawGaussianForParameterAndObs(name, obs, self.axes[i, i])
            elif i > j:
                for obs in order:
                    self.drawEllipsesForParametersAndObs(name_x, name_y, obs, self.axes[i, j])
            self.setPlotProperties(i, j)


@of("seyfert.fisher.fisher_plot.FisherPlotter.makeAllCorrelationPlots", ret=False)
def r_FisherPlotter_makeAllCorrelationPlots(self, outdir=None, close_fig=True):
    for name in self.fisher_matrices:
        fig, ax = self.makeSingleCorrelationPlot(name)
        if outdir is not None:
            outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
            outfile_path = Path(outdir) / outfile_name
            fig.savefig(outfile_path)
            if close_fig:
                plt.close(fig)


@of("seyfert.fisher.fisher_plot.FisherPlotter.makeSingleCorrelationPlot")
def r_FisherPlotter_makeSingleCorrelationPlot(self, name):
    fig = plt.figure(figsize=(6.0, 6.0), dpi=150)
    corr = self.fisher_matrices[name].correlation
    ax = plot_utils.heatmap(corr, usetex=True, vmin=-1.0, vmax=1.0, cmap='bwr', alpha=0.9, square=True, cbar_kws={'shrink': 0.825})
    ax.set_title(f'${self.translator.ProbeNameToTeX(name)}$')
    return (fig, ax)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setPlotProperties", ret=False)
def r_FisherPlotter_setPlotProperties(self, i, j):
    self.setPlotTicks(i, j)
    self.setPlotAxesLabels(i, j)
    self.setPlotRange(i, j)
    for side in self.axes[i, j].spines.keys():
        self.axes[i, j].spines[side].set_linewidth(self.config.axes_borders_width)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setPlotAxesLabels", ret=False)
def r_FisherPlotter_setPlotAxesLabels(self, i, j):
    name_x, name_y = (self.pars_to_plot[j], self.pars_to_plot[i])
    if i == j:
        self.axes[i, i].set_yticks([0.0, 1.0])
        self.axes[i, i].yaxis.tick_right()
        self.axes[i, i].set_ylabel('$P/P_{\\rm max}$', fontsize=self.config.axes_label_size)
        self.axes[i, i].yaxis.set_label_position('right')
    if i == self.axes.shape[0] - 1:
        self.axes[i, j].set_xlabel(f'${self.translator.CosmoParNameToTeX(name_x)}$', labelpad=self.config.axes_x_label_pad, fontsize=self.config.axes_label_size)
    if j == 0 and i > 0:
        self.axes[i, j].set_ylabel(f'${self.translator.CosmoParNameToTeX(name_y)}$', ha='center', va='center', labelpad=self.config.axes_y_label_pad, rotation=0, fontsize=self.config.axes_label_size)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setPlotTicks", ret=False)
def r_FisherPlotter_setPlotTicks(self, i, j):
    self.setXTicks(i, j)
    self.setYTicks(i, j)
    label_bottom = i == self.axes.shape[0] - 1
    label_left = j == 0 and i > 0
    self.axes[i, j].tick_params(labelsize=self.config.ticks_label_size, width=self.config.ticks_width, length=self.config.ticks_length, labelleft=label_left, labelbottom=label_bottom)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setXTicks", ret=False)
def r_FisherPlotter_setXTicks(self, i, j):
    name_x = self.pars_to_plot[j]
    ticks_number = int(self.config.ticks_number)
    num_digits = self.config.ticks_label_num_digits
    x_min, x_max = self.plot_ranges[name_x]
    x_ticks = np.linspace(x_min, x_max, num=ticks_number, endpoint=True)
    self.axes[i, j].set_xticks(x_ticks)
    self.axes[i, j].xaxis.set_major_formatter(ticker.FormatStrFormatter(self.params_ticks_fmts[name_x]))
    x_tick_labels = self.axes[i, j].xaxis.get_ticklabels()
    for x_tick_label in x_tick_labels:
        x_tick_label.set_rotation(self.config.x_tick_labels_rot)
    x_tick_labels[0].set_horizontalalignment('left')
    x_tick_labels[-1].set_horizontalalignment('right')


@of("seyfert.fisher.fisher_plot.FisherPlotter.setYTicks", ret=False)
def r_FisherPlotter_setYTicks(self, i, j):
    name_y = self.pars_to_plot[i]
    ticks_number = int(self.config.ticks_number)
    num_digits = self.config.ticks_label_num_digits
    if i == j:
        self.axes[i, i].set_yticks([0.0, 1.0])
        self.axes[i, i].yaxis.tick_right()
    else:
        y_min, y_max = self.plot_ranges[name_y]
        y_ticks = np.linspace(y_min, y_max, num=ticks_number, endpoint=True)
        self.axes[i, j].yaxis.set_major_formatter(ticker.FormatStrFormatter(self.params_ticks_fmts[name_y]))
        self.axes[i, j].set_yticks(y_ticks)
        y_tick_labels = self.axes[i, j].yaxis.get_ticklabels()
        for y_tick_label in y_tick_labels:
            y_tick_label.set_rotation(self.config.y_tick_labels_rot)
        y_tick_labels[0].set_verticalalignment('bottom')
        y_tick_labels[-1].set_verticalalignment('top')


@of("seyfert.fisher.fisher_plot.FisherPlotter.setPlotRange", ret=False)
def r_FisherPlotter_setPlotRange(self, i, j):
    name_x = self.pars_to_plot[j]
    name_y = self.pars_to_plot[i]
    self.axes[i, j].set_xlim(self.plot_ranges[name_x])
    if i != j:
        self.axes[i, j].set_ylim(self.plot_ranges[name_y])


@of("seyfert.fisher.fisher_plot.FisherPlotter.getLegendPatch")
def r_FisherPlotter_getLegendPatch(self, name):
    tex_label = f'${self.config.getTeXName(name)}$'
    color = self.getColorForFisher(name)
    return Patch(color=color, label=tex_label)


@of("seyfert.fisher.fisher_plot.FisherPlotter.addPlotLegend", ret=False)
def r_FisherPlotter_addPlotLegend(self, order=None, add_handles=None, **kwargs):
    legend_order = order if order is not None else self.fishers_order
    legend_handles = [self.getLegendPatch(name) for name in legend_order]
    if isinstance(add_handles, list):
        legend_handles = add_handles + legend_handles
    kwds = dict(fontsize=self.config.legend_fontsize, loc=self.config.legend_loc, title=self.analysis.name, title_fontsize=self.config.legend_title_fontsize, bbox_to_anchor=self.config.legend_bbox_to_anchor, bbox_transform=self.figure.transFigure)
    kwds.update(kwargs)
    self.figure.legend(handles=legend_handles, **kwds)


@of("seyfert.fisher.fisher_plot.FisherPlotter.addInfoTextBox", ret=False)
def r_FisherPlotter_addInfoTextBox(self, text, x=None, y=None, **kwargs):
    x_leg, y_leg = self.config.legend_bbox_to_anchor
    if x is None:
        x = x_leg + float(self.config.text_box_dict['dx_leg'])
    if y is None:
        y = y_leg + float(self.config.text_box_dict['dy_leg'])
    kwds = {'fontsize': self.config.legend_fontsize, 'transform': self.figure.transFigure}
    kwds.update(kwargs)
    plot_utils.misc.add_text_box(pl_obj=self.figure, x=x, y=y, text=text, **kwds)


@of("seyfert.fisher.fisher_plot.FisherPlotter.setFigureTitle", ret=False)
def r_FisherPlotter_setFigureTitle(self):
    pass


@of("seyfert.fisher.fisher_plot.FisherPlotter.writeParameterPlotRangesToFile", ret=False)
def r_FisherPlotter_writeParameterPlotRangesToFile(self, outfile, overwrite=False):
    outfile = Path(outfile)
    if outfile.exists():
        if overwrite:
            with open(outfile, 'w') as jsf:
                json.dump(self.plot_ranges, jsf, indent=2)
        else:
            pass
    else:
        with open(outfile, 'w') as jsf:
            json.dump(self.plot_ranges, jsf, indent=2)


@of("seyfert.fisher.fisher_plot.FisherPlotter.computePlotRangeForParameter")
def r_FisherPlotter_computePlotRangeForParameter(self, name):
    lower_bounds = []
    upper_bounds = []
    for obs in self.fishers_order:
        x_min, x_max = self.analysis.computeParameterRangeForObsAtCL(name, obs, 0.99)
        lower_bounds.append(x_min)
        upper_bounds.append(x_max)
    lower_bounds = np.array(lower_bounds)
    upper_bounds = np.array(upper_bounds)
    return (lower_bounds.mean(), upper_bounds.mean())


@of("seyfert.fisher.fisher_plot.FisherPlotter.drawGaussianForParameterAndObs", ret=False)
def r_FisherPlotter_drawGaussianForParameterAndObs(self, name, fisher_name, ax):
    for CL, alpha in self.config.gauss_cl_alpha_dict.items():
        x_min = self.plot_ranges[name][0]
        x_max = self.plot_ranges[name][1]
        gaus_dict = self.analysis.computeGaussianInfoDictForObsAndCL(name, fisher_name, CL, x_min, x_max)
        color = self.getColorForFisher(fisher_name)
        ax.plot(gaus_dict['x'], gaus_dict['y'], color=color, linewidth=self.config.axes_lines_width)
        ax.fill_between(gaus_dict['x'], gaus_dict['y'], where=gaus_dict['cl_mask'], linewidth=0.0, color=color, alpha=alpha)


@of("seyfert.fisher.fisher_plot.FisherPlotter.drawEllipsesForParametersAndObs", ret=False)
def r_FisherPlotter_drawEllipsesForParametersAndObs(self, name_x, name_y, fisher_name, ax):
    for CL, alpha in self.config.ellipse_cl_alpha_dict.items():
        color = self.getColorForFisher(fisher_name)
        ellipse_info_dict = self.analysis.computeEllipseInfoDictForObsAndCL(name_x, name_y, fisher_name, CL)
        fill_ellipse_kwds = ellipse_info_dict.copy()
        fill_ellipse_kwds.update(dict(facecolor=color, edgecolor=color, fill=True, alpha=alpha, linewidth=0.0))
        cont_ellipse_kwds = ellipse_info_dict.copy()
        cont_ellipse_kwds.update(dict(facecolor=color, edgecolor=color, fill=False, linewidth=self.config.axes_lines_width))
        ax.add_artist(Ellipse(**fill_ellipse_kwds))
        ax.add_artist(Ellipse(**cont_ellipse_kwds))

