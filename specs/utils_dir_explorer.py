"""Reference definitions for seyfert.utils.dir_explorer."""
from pathlib import Path
from seyfert.utils.workspace import WorkSpace
import logging
import os
import re

logger = logging.getLogger(__name__)


@shape("seyfert.utils.dir_explorer.DirectoryExplorer")
class s_DirectoryExplorer:
    pass


@of("seyfert.utils.dir_explorer.DirectoryExplorer.__init__", ret=False)
def r_DirectoryExplorer_init(self, root_path):
    self.root_path = Path(root_path)
    self.base_regexps = [re.compile('run_(?P<scenario>optimistic|pessimistic)'), re.compile('^(?P<scenario>optimistic|pessimistic)_(?P<nbins>[0-9]+)_sp_bins_'), re.compile('^scenario_(?P<scenario>optimistic|pessimistic)__n_sp_bins_(?P<nbins>[0-9]+)')]


@of("seyfert.utils.dir_explorer.DirectoryExplorer.getMandatoryDirectoryMatches")
def r_DirectoryExplorer_getMandatoryDirectoryMatches(self, direc):
    matches = []
    for regex in self.base_regexps:
        match = regex.match(direc.name)
        if match:
            matches.append(match)
            break
        else:
            pass
    return matches


@of("seyfert.utils.dir_explorer.DirectoryExplorer.getDirMatches")
def r_DirectoryExplorer_getDirMatches(self, direc, add_patterns=None):
    matches = self.getMandatoryDirectoryMatches(direc)
    if add_patterns is not None:
        matches += [re.search(pattern, direc.name) for pattern in add_patterns]
    return matches


@of("seyfert.utils.dir_explorer.DirectoryExplorer.directoryFilter", kind='static')
def r_DirectoryExplorer_directoryFilter(direc, matches, add_filters=None, containing=None, not_containing=None):
    if matches:
        conds = [bool(m) for m in matches]
        if add_filters is not None:
            conds += [sel_func(direc.name) for sel_func in add_filters]
        if containing is not None:
            conds += [content in direc.name for content in containing]
        if not_containing is not None:
            conds += [content not in direc.name for content in not_containing]
        filter_passed = all(conds)
    else:
        filter_passed = False
    return filter_passed


@of("seyfert.utils.dir_explorer.DirectoryExplorer.getMatchesGroupsDictionary", kind='static')
def r_DirectoryExplorer_getMatchesGroupsDictionary(matches):
    return {k: v for m in matches for k, v in m.groupdict().items()}


@of("seyfert.utils.dir_explorer.DirectoryExplorer.selectDirectories")
def r_DirectoryExplorer_selectDirectories(self, recursive=False, add_patterns=None, add_filters=None, containing=None, not_containing=None):
    dirs_map = {}
    if recursive:
        for root, dirs, files in os.walk(self.root_path):
            for direc in dirs:
                direc = Path(root).resolve() / direc
                matches = self.getDirMatches(direc, add_patterns=add_patterns)
                filter_passed = self.directoryFilter(direc, matches, add_filters=add_filters, containing=containing, not_containing=not_containing)
                if filter_passed:
                    dirs_map[str(direc)] = self.getMatchesGroupsDictionary(matches)
    else:
        for direc in filter(lambda x: x.is_dir(), self.root_path.iterdir()):
            matches = self.getDirMatches(direc.resolve(), add_patterns=add_patterns)
            filter_passed = self.directoryFilter(direc, matches, add_filters=add_filters, containing=containing, not_containing=not_containing)
            if filter_passed:
                dirs_map[str(direc)] = self.getMatchesGroupsDictionary(matches)
    return dirs_map


@of("seyfert.utils.dir_explorer.DirectoryExplorer.selectWorkspaces")
def r_DirectoryExplorer_selectWorkspaces(self, **kwargs):
    direcs = self.selectDirectories(**kwargs)
    ws_list = []
    for direc in direcs:
        ws = WorkSpace(direc)
        ws.loadRunMetadata()
        ws_list.append(ws)
    return ws_list

