"""Reference definitions for seyfert.notebook_helpers.fom_gain_plots."""
from seyfert.notebook_helpers.fom_gain_plots import single_plot_fom_gain
from seyfert.utils.tex_utils import TeXTranslator
import matplotlib.pyplot as plt

transl = TeXTranslator()

constants("seyfert.notebook_helpers.fom_gain_plots", 'transl')


@of("seyfert.notebook_helpers.fom_gain_plots.single_plot_fom_gain")
def r_single_plot_fom_gain(diff, minuend_str, shotnoise_red, ax, label=None, add_ylabel=True, **kwargs):
    fom_gain = diff.xs(minuend_str, level=0).xs(shotnoise_red, level=0)['FoM']
    if label is None:
        label = '$%s$' % transl.toTeX(minuend_str)
    ax.plot(fom_gain.index, fom_gain.values, label=label, **kwargs)
    ax.set_xlabel('$\\mathrm{GC_{sp}}$ bins')
    ax.set_xticks(fom_gain.index)
    if add_ylabel:
        ax.set_ylabel('FoM % gain')
    return (fom_gain, ax)


@of("seyfert.notebook_helpers.fom_gain_plots.comparison_plot_fom_gain")
def r_comparison_plot_fom_gain(diff, ref, minuends, logscale=True, legend_kwargs=None, legend=True, **kwargs):
    if logscale:
        fig, axs = plt.subplots(figsize=(13, 6), nrows=1, ncols=2, sharey=True)
        plt.subplots_adjust(wspace=0.04)
        plt.yscale('log')
    else:
        fig, axs = plt.subplots(figsize=(13, 6), nrows=1, ncols=2)
        plt.subplots_adjust(wspace=0.2)
    for minuend_str in minuends:
        axs[0].set_title('$\\mathrm{GC_{sp}}$ shotnoise normal', fontsize=16)
        single_plot_fom_gain(diff, minuend_str=minuend_str, shotnoise_red=False, ax=axs[0], **kwargs)
        axs[1].set_title('$\\mathrm{GC_{sp}}$ shotnoise reduced', fontsize=16)
        single_plot_fom_gain(diff, minuend_str=minuend_str, shotnoise_red=True, ax=axs[1], add_ylabel=False, **kwargs)
    if legend:
        legend_kwds = dict(bbox_to_anchor=[1.0, 0.61])
        if isinstance(legend_kwargs, dict):
            legend_kwds.update(legend_kwargs)
        plt.legend(**legend_kwds)
    plt.suptitle('FoM percentage gain relative to $%s$' % transl.toTeX(ref), fontsize=22, va='bottom')
    return (fig, axs)

