"""Reference definitions for seyfert.gui.interface_window."""
from seyfert.gui.gui_core import Ui_SeyfertConfigGUI
from PyQt5 import QtCore, QtWidgets
from PyQt5.QtWidgets import QStackedWidget, QWidget, QDialog
from functools import partial
from pathlib import Path
from seyfert import VERSION
from seyfert.file_io.json_io import JSONForecastConfig
from seyfert.gui.interface_window import ConfigGUIWindow
from seyfert.gui.interface_window import GUIFileInterface
from seyfert.utils.formatters import str_to_bool, datetime_str_format
from seyfert.utils.shortcuts import ProbeName
import datetime
import re
import sys



@shape("seyfert.gui.interface_window.ConfigGUIWindow")
class s_ConfigGUIWindow(QtWidgets.QMainWindow):
    pass


@shape("seyfert.gui.interface_window.GUIFileInterface")
class s_GUIFileInterface:
    PROBES_MAP = {'Lensing': 'Lensing', 'GCph': 'PhotometricGalaxy', 'GCsp': 'SpectroscopicGalaxy', 'Void': 'Void'}
    INV_PROBES_MAP = {value: key for key, value in PROBES_MAP.items()}


@of("seyfert.gui.interface_window.ConfigGUIWindow.__init__", ret=False)
def r_ConfigGUIWindow_init(self, args):
    super(ConfigGUIWindow, self).__init__()
    self.ui = Ui_SeyfertConfigGUI()
    self.ui.setupUi(self)
    self.ui.json_save_button.pressed.connect(partial(self.openDialog, file_format='JSON'))
    self.dialog = None
    self.outfile_line_edit = None
    self.close_btn = None
    self.args = args


@of("seyfert.gui.interface_window.ConfigGUIWindow.openDialog", ret=False)
def r_ConfigGUIWindow_openDialog(self, file_format):
    self.dialog = QDialog()
    self.dialog.resize(500, 250)
    self.dialog.setModal(True)
    self.dialog.setWindowTitle('Enter file name')
    self.outfile_line_edit = QtWidgets.QLineEdit(self.dialog)
    self.outfile_line_edit.setGeometry(QtCore.QRect(150, 100, 150, 30))
    self.close_btn = QtWidgets.QPushButton(self.dialog)
    self.close_btn.setGeometry(QtCore.QRect(400, 200, 100, 30))
    self.close_btn.setText('Save')
    if file_format == 'JSON':
        self.close_btn.pressed.connect(self.dumpToJSONAndExit)
    else:
        raise ValueError()
    self.dialog.exec_()


@of("seyfert.gui.interface_window.ConfigGUIWindow.dumpToJSONAndExit", ret=False)
def r_ConfigGUIWindow_dumpToJSONAndExit(self):
    gui_interface = GUIFileInterface(self.ui)
    json_data = gui_interface.dumpGUIToJSON()
    gui_interface.fc_json = JSONForecastConfig(data=json_data)
    filename = Path(self.outfile_line_edit.text()).name
    if not self.args.no_datetime:
        filename += f'_{VERSION}_{datetime_str_format(datetime.datetime.now())}'
    if '.json' not in Path(filename).suffixes:
        filename += '.json'
    gui_interface.fc_json.toJSON(filename)
    sys.exit(0)


@of("seyfert.gui.interface_window.GUIFileInterface.__init__", ret=False)
def r_GUIFileInterface_init(self, ui):
    self.ui = ui
    self.xml_gen = None
    self.fc_json = None


@of("seyfert.gui.interface_window.GUIFileInterface.dumpGUIToJSON")
def r_GUIFileInterface_dumpGUIToJSON(self):
    json_data = {'metadata': {}, 'synthetic_opts': {}, 'survey': {'f_sky': self.readSurveyFSkyFromUI(), 'shot_noise_file': None}, 'cosmology': dict(zip(['model', 'flat', 'parameters'], self.readCosmologyInfoFromUI())), 'probes': self.buildJSONProbeOpts(), 'derivative_settings': {'base_stem_disps': self.readSteMDispsFromUI()}}
    return json_data


@of("seyfert.gui.interface_window.GUIFileInterface.readCosmoParsFromUI")
def r_GUIFileInterface_readCosmoParsFromUI(self):
    params = []
    cosmo_table = self.ui.cosmo_pars
    for i in range(cosmo_table.rowCount()):
        row = tuple((cosmo_table.item(i, j).text() for j in range(cosmo_table.columnCount())))
        name = cosmo_table.verticalHeaderItem(i).text()
        params_data = {'name': name, 'fiducial': float(row[0]), 'current_value': float(row[0]), 'kind': 'CosmologicalParameter', 'is_free_parameter': str_to_bool(row[1]), 'units': row[2], 'stem_factor': float(row[3]), 'derivative_method': str(row[4])}
        params.append(params_data)
    return params


@of("seyfert.gui.interface_window.GUIFileInterface.readSurveyFSkyFromUI")
def r_GUIFileInterface_readSurveyFSkyFromUI(self):
    return float(self.ui.f_sky.text())


@of("seyfert.gui.interface_window.GUIFileInterface.readCosmologyInfoFromUI")
def r_GUIFileInterface_readCosmologyInfoFromUI(self):
    model = self.ui.cosmological_model.currentText()
    is_flat = bool(self.ui.is_universe_flat.checkState())
    cosmo_pars = self.readCosmoParsFromUI()
    return (model, is_flat, cosmo_pars)


@of("seyfert.gui.interface_window.GUIFileInterface.readSteMDispsFromUI")
def r_GUIFileInterface_readSteMDispsFromUI(self):
    stem_table = self.ui.stem_disps
    disps = [stem_table.item(i, 0).text() for i in range(stem_table.rowCount())]
    return disps


@of("seyfert.gui.interface_window.GUIFileInterface.readProbesInfoFromUI")
def r_GUIFileInterface_readProbesInfoFromUI(self):
    main = self.ui.centralwidget
    stack_w = main.findChildren(QStackedWidget)[0]
    probes = list(filter(lambda x: isinstance(x, QWidget) and x.whatsThis() == 'probe', stack_w.children()))
    probe_opts = {ProbeName(p.objectName()).toAlias().name: {x.whatsThis(): x for x in p.findChildren(QWidget) if x.whatsThis()} for p in probes}
    return probe_opts


@of("seyfert.gui.interface_window.GUIFileInterface.buildJSONProbeOpts")
def r_GUIFileInterface_buildJSONProbeOpts(self):
    probe_opts = self.readProbesInfoFromUI()
    return {name: self.buildGenericProbeJSONOpts(name=name, opts=probe_opts[name]) for name in ['WL', 'GCph', 'GCsp', 'V']}


@of("seyfert.gui.interface_window.GUIFileInterface.buildGenericProbeJSONOpts")
def r_GUIFileInterface_buildGenericProbeJSONOpts(self, name, opts):
    probe_name = ProbeName(name)
    alias_name = probe_name.toAlias().name
    json_opts = {'long_name': probe_name.toLong().name, 'presence_flag': bool(opts['presence_flag'].checkState())}
    ell_input_file = opts['ell_external_filename'].text()
    if ell_input_file:
        json_opts['ell_external_filename'] = ell_input_file
    else:
        json_opts.update({'l_min': opts['l_min'].value(), 'l_max': opts['l_max'].value(), 'ell_log_selection': bool(opts['ell_log_selection'].checkState())})
        if json_opts['ell_log_selection']:
            json_opts['log_l_number'] = opts['log_l_number'].value()
    json_opts['density_file'] = opts['density_file'].text()
    if 'bias_file' in opts:
        json_opts['bias_file'] = opts['bias_file'].text()
    if 'bias_derivative_method' in opts:
        json_opts['bias_derivative_method'] = opts['bias_derivative_method'].currentText()
    if 'marginalize_bias_flag' in opts:
        json_opts['marginalize_bias_flag'] = bool(opts['marginalize_bias_flag'].checkState())
    json_opts['specific_settings'] = self.buildProbeJSONSpecificSettings(name=alias_name, opts=opts)
    json_opts['extra_nuisance_parameters'] = self.buildProbeJSONExtraNuisanceParameters(probe_name=alias_name, opts=opts)
    return json_opts


@of("seyfert.gui.interface_window.GUIFileInterface.buildProbeJSONSpecificSettings", kind='static')
def r_GUIFileInterface_buildProbeJSONSpecificSettings(name, opts):
    spec_settings = {}
    if name == 'WL':
        spec_settings['include_IA'] = bool(opts['include_IA'].checkState())
    elif name == 'V':
        spec_settings['void_kcut_invMpc'] = opts['void_kcut_invMpc'].value()
        spec_settings['void_kcut_width_invMpc'] = opts['void_kcut_width_invMpc'].value()
    elif name == 'GCsp':
        spec_settings['compute_gcsp_cl_offdiag'] = bool(opts['compute_gcsp_cl_offdiag'].checkState())
    return spec_settings


@of("seyfert.gui.interface_window.GUIFileInterface.buildProbeJSONExtraNuisanceParameters", kind='static')
def r_GUIFileInterface_buildProbeJSONExtraNuisanceParameters(probe_name, opts):
    extra_nuis_params = []
    nuis_par_key_regex = re.compile('^nuis_param_([a-zA-Z0-9]+)$')
    if probe_name == 'WL':
        include_IA = bool(opts['include_IA'].checkState())
        for key, value in opts.items():
            match = nuis_par_key_regex.match(key)
            if match:
                par_name = match.groups()[0]
                fiducial = float(opts[key].text())
                is_free_parameter = par_name != 'cIA' and include_IA
                par_dict = dict(name=par_name, fiducial=fiducial, kind='NuisanceParameter', units='None', probe=probe_name, is_free_parameter=is_free_parameter)
                extra_nuis_params.append(par_dict)
    return extra_nuis_params

