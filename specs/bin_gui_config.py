"""Reference definitions for bin.gui_config."""
from PyQt5 import QtWidgets
from bin.gui_config import main
from bin.gui_config import program_options
from seyfert.gui.interface_window import ConfigGUIWindow
import argparse
import sys



@of("bin.gui_config.program_options")
def r_program_options():
    parser = argparse.ArgumentParser()
    parser.add_argument('--no_datetime', nargs='?', default=False, const=True, help='Flag to prevent usage of datetime in config filename')
    return parser


@of("bin.gui_config.main", ret=False)
def r_main(args):
    app = QtWidgets.QApplication(sys.argv)
    window = ConfigGUIWindow(args)
    window.show()
    sys.exit(app.exec_())


@of("bin.gui_config.__main__", ret=False)
def r_main():
    main(program_options().parse_args())

