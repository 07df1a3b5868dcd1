"""Reference definitions for seyfert.notebook_helpers.barplots."""
from seyfert.utils import filesystem_utils as fsu
from seyfert.utils.tex_utils import TeXTranslator
import json
import matplotlib.pyplot as plt

transl = TeXTranslator()

constants("seyfert.notebook_helpers.barplots", 'transl')


@shape("seyfert.notebook_helpers.barplots.ErrorBarPlotter")
class s_ErrorBarPlotter:
    df: 'pd.DataFrame'
    opts: 'Dict'


@of("seyfert.notebook_helpers.barplots.get_bar_plots_defs")
def r_get_bar_plots_defs():
    with open(fsu.plots_aux_files_dir() / 'bar_plots_defs.json') as jsf:
        data = json.load(jsf)
    return data


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.__init__", ret=False)
def r_ErrorBarPlotter_init(self, df):
    self.df = df
    self.opts = {'figure': {'side_x_cm': 20, 'side_y_cm': 14, 'dpi': 100}, 'subplots': {'hspace': 0.075, 'wspace': 0.075}, 'axes': {'label_size': 12}, 'ticks': {'label_size': 12}, 'colormap': 'rainbow', 'legend': {'loc': 'upper left', 'bbox_to_anchor': (1.0, 1.04), 'title': None, 'fontsize': 10, 'title_fontsize': 12, 'shadow': True, 'fancybox': False}, 'text_box': {'coords': (0.58, 0.575), 'fontsize': 10}}
    self.validateDataframe()


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.validateDataframe", ret=False)
def r_ErrorBarPlotter_validateDataframe(self):
    self.df = self.df.set_index(['fisher', 'n_sp_bins'])


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.figure_opts", kind='property')
def r_ErrorBarPlotter_figure_opts(self):
    return self.opts['figure']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.subplots_opts", kind='property')
def r_ErrorBarPlotter_subplots_opts(self):
    return self.opts['subplots']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.axes_opts", kind='property')
def r_ErrorBarPlotter_axes_opts(self):
    return self.opts['axes']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.ticks_opts", kind='property')
def r_ErrorBarPlotter_ticks_opts(self):
    return self.opts['ticks']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.legend_opts", kind='property')
def r_ErrorBarPlotter_legend_opts(self):
    return self.opts['legend']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.text_box_opts", kind='property')
def r_ErrorBarPlotter_text_box_opts(self):
    return self.opts['text_box']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.legend_title", kind='property')
def r_ErrorBarPlotter_legend_title(self):
    return self.legend_opts['title']


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.legend_title@setter", ret=False, kind='setter')
def r_ErrorBarPlotter_legend_title_set(self, value):
    if isinstance(value, str):
        self.legend_opts['title'] = value
    else:
        raise TypeError()


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.sliceResultsForFishersAndNbins")
def r_ErrorBarPlotter_sliceResultsForFishersAndNbins(self, fishers, n_bins):
    sub_df = self.df.loc[fishers].xs(n_bins, level=1)
    sub_df['FoM'] /= sub_df['FoM'].max()
    return sub_df


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.doSingleErrorBarPlot")
def r_ErrorBarPlotter_doSingleErrorBarPlot(self, fishers, n_bins, ax=None, do_legend=True, usetex=True):
    df = self.sliceResultsForFishersAndNbins(fishers, n_bins)
    ax = df.T.plot(kind='barh', ax=ax, colormap=self.opts['colormap'], legend=False)
    ax.set_xscale('log')
    ax.set_xlabel('$\\sigma_\\theta / \\theta_{\\rm fid}$', fontsize=self.axes_opts['label_size'])
    ax.tick_params(labelsize=self.ticks_opts['label_size'])
    if do_legend:
        ax.legend(**{key: value for key, value in self.opts['legend'].items()})
        transl.translateLegendToTeX(ax.get_legend())
    ax.text(*self.opts['text_box']['coords'], '$\\mathrm{GC_{sp}}(C_{\\ell})$ bins: $%s$' % n_bins, transform=ax.transAxes, fontsize=self.opts['text_box']['fontsize'])
    if usetex:
        latex_ytick_labels = []
        for label in ax.get_yticklabels():
            text = label.get_text()
            if text == 'FoM':
                tex_label = '$\\mathrm{FoM}/\\mathrm{FoM_{max}}$'
            else:
                tex_label = '$%s$' % transl.PhysParNameToTeX(text)
            latex_ytick_labels.append(tex_label)
        ax.set_yticklabels(latex_ytick_labels)
    return ax


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.doPairErrorBarPlot")
def r_ErrorBarPlotter_doPairErrorBarPlot(self, fishers, n_bins1, n_bins2, legend=True):
    side_x_inches = self.figure_opts['side_x_cm'] / 2.54
    side_y_inches = self.figure_opts['side_y_cm'] / 2.54
    fig, axs = plt.subplots(nrows=2, ncols=1, figsize=(side_x_inches, side_y_inches), sharex=True, dpi=self.figure_opts['dpi'])
    plt.subplots_adjust(hspace=self.subplots_opts['hspace'], wspace=self.subplots_opts['wspace'])
    axs = axs.ravel()
    for ax, n_bins in zip(axs, [n_bins1, n_bins2]):
        do_legend = legend and n_bins == n_bins1
        self.doSingleErrorBarPlot(fishers, n_bins, ax=ax, do_legend=do_legend)
    return (fig, axs)


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.doGridErrorBarPlot")
def r_ErrorBarPlotter_doGridErrorBarPlot(self, fishers):
    side_x_inches = self.figure_opts['side_x_cm'] / 2.54
    side_y_inches = self.figure_opts['side_y_cm'] / 2.54
    fig, axs = plt.subplots(nrows=2, ncols=2, figsize=(side_x_inches, side_y_inches), sharex=True, dpi=self.figure_opts['dpi'])
    plt.subplots_adjust(hspace=self.subplots_opts['hspace'], wspace=self.subplots_opts['wspace'])
    axs = axs.ravel()
    for ax, n_bins in zip(axs, [4, 12, 24, 40]):
        do_legend = n_bins == 12
        self.doSingleErrorBarPlot(fishers, n_bins, ax=ax, do_legend=do_legend)
    axs[1].tick_params(labelleft=False)
    axs[3].tick_params(labelleft=False)
    return (fig, axs)


@of("seyfert.notebook_helpers.barplots.ErrorBarPlotter.setSinglePlotOpts", ret=False)
def r_ErrorBarPlotter_setSinglePlotOpts(self):
    self.axes_opts['label_size'] = 20
    self.ticks_opts['label_size'] = 20
    self.legend_opts.update({'fontsize': 20, 'title_fontsize': 22, 'bbox_to_anchor': (1.0, 1.025)})
    self.text_box_opts.update({'coords': (0.62, 0.6), 'fontsize': 14})

