"""Reference definitions for seyfert.file_io.hdf5_io."""
from abc import ABC, abstractmethod
from functools import partial
from pathlib import Path
from seyfert import VERSION
from seyfert.file_io.hdf5_io import H5FileModeError
from seyfert.utils import general_utils as gu
from typing import Union
import datetime
import h5py
import logging
import numpy as np
import os

logger = logging.getLogger(__name__)


@shape("seyfert.file_io.hdf5_io.H5FileModeError")
class s_H5FileModeError(Exception):
    pass


@shape("seyfert.file_io.hdf5_io.H5KeyError")
class s_H5KeyError(Exception):
    pass


@shape("seyfert.file_io.hdf5_io.AbstractH5FileIO")
class s_AbstractH5FileIO(ABC):
    HDF5_ARRAY_OPTS = {'dtype': 'f8', 'compression': 'gzip', 'compression_opts': 9}
    DATASET_DTYPES = (int, float, str, np.ndarray, np.bool_, np.int64, np.float64)
    _h5file: 'h5py.File'
    _root_group: 'h5py.Group'
    file_path: 'Path'
    builder_func: 'Callable'
    build_data: 'Dict'
    root: 'h5py.Group'


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.__init__", ret=False)
def r_AbstractH5FileIO_init(self, root=None):
    self._h5file = None
    self.file_path = None
    self.file_mode = None
    self._root_group = None
    self._root_path = root
    self.out_group_name = None
    self.builder_func = None
    self.build_data = {}
    self._attrs_excluded_from_equality = {'_h5file', '_root_group', '_root_path'}


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.root", kind='property')
def r_AbstractH5FileIO_root(self):
    return self._root_group


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.root_path", kind='property')
def r_AbstractH5FileIO_root_path(self):
    return self.root.name


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.attrs", kind='property')
def r_AbstractH5FileIO_attrs(self):
    return self.root.attrs


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.__getitem__")
def r_AbstractH5FileIO_getitem(self, item):
    return self.root[item]


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.keys")
def r_AbstractH5FileIO_keys(self):
    return self.root.keys()


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.openFile", ret=False)
def r_AbstractH5FileIO_openFile(self, file, mode, root='/'):
    if not isinstance(file, (str, Path)):
        raise TypeError()
    if mode not in {'r', 'r+', 'w', 'w-', 'x', 'a'}:
        raise ValueError()
    if not isinstance(root, str):
        raise TypeError()
    self.file_path = Path(file)
    self.file_mode = mode
    if self._root_path is not None and self._root_path != '/':
        pass
    self._root_path = root
    base_metadata = {}
    tc_iso = datetime.datetime.now().isoformat()
    if self.file_path.exists():
        if mode == 'w':
            raise FileExistsError()
        elif mode != 'r' and root == '/':
            base_metadata['LastUpdate'] = tc_iso
    elif root == '/':
        base_metadata.update({'CreationDate': tc_iso, 'LastUpdate': tc_iso, 'Description': '', 'Author': os.getenv('USER', default=''), 'CodeVersion': VERSION})
    self._h5file = h5py.File(self.file_path, mode=mode)
    try:
        try:
            self._root_group = self._h5file[self._root_path]
        except KeyError:
            if mode != 'r':
                self._root_group = self._h5file.create_group(name=self._root_path)
            else:
                raise H5FileModeError()
        if mode != 'r':
            self.root.attrs.update(base_metadata)
    except Exception:
        self.closeFile()
        raise


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.closeFile", ret=False)
def r_AbstractH5FileIO_closeFile(self):
    self._h5file.close()


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.readBuildingData", ret=False)
def r_AbstractH5FileIO_readBuildingData(self):
    pass


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.load")
def r_AbstractH5FileIO_load(self, file, root='/'):
    self.openFile(file, mode='r', root=root)
    try:
        self.readBuildingData()
        obj = self.builder_func(**self.build_data)
        self.writeToObject(obj)
    finally:
        self.closeFile()
    return obj


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.save", ret=False)
def r_AbstractH5FileIO_save(self, obj, file, root='/'):
    mode = 'w' if not Path(file).exists() else 'a'
    self.openFile(file, mode=mode, root=root)
    try:
        self.writeObjectToFile(obj)
    finally:
        self.closeFile()


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.writeToObject", ret=False)
def r_AbstractH5FileIO_writeToObject(self, obj):
    if self.file_path is None:
        raise RuntimeError()
    if self.file_mode not in {'r', 'r+'}:
        raise RuntimeError()


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.populateObject", ret=False)
def r_AbstractH5FileIO_populateObject(self, obj, base_grp_path=None):
    base = self.root[base_grp_path] if isinstance(base_grp_path, str) else self.root
    for key, item in base.items():
        if isinstance(item, h5py.Dataset):
            setattr(obj, key, item[()])


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.findDataset")
def r_AbstractH5FileIO_findDataset(self, name_wanted):

    def visitor_func(name, node, wanted):
        if isinstance(node, h5py.Dataset) and name.endswith(wanted):
            return (name, node)
    return self._h5file.visititems(partial(visitor_func, wanted=name_wanted))


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.findGroup")
def r_AbstractH5FileIO_findGroup(self, name_wanted):

    def visitor_func(name, node, wanted):
        if isinstance(node, h5py.Group) and (name == wanted or name.endswith(wanted)):
            return (name, node)
    return self._h5file.visititems(partial(visitor_func, wanted=name_wanted))


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.createGroup")
def r_AbstractH5FileIO_createGroup(self, name, base_grp=None, try_link_first=False):
    base = base_grp if base_grp is not None else self.root
    if try_link_first:
        found = self.findGroup(name)
        if found is not None:
            grp_name, grp = found
            entry = h5py.SoftLink(grp_name)
            base[name] = entry
        else:
            entry = self._create_group(name=name, base_grp=base_grp)
    else:
        entry = self._create_group(name=name, base_grp=base_grp)
    return entry


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.createDataset")
def r_AbstractH5FileIO_createDataset(self, name, data, attrs=None, base_grp=None, try_link_first=False):
    base = base_grp if base_grp is not None else self.root
    if try_link_first:
        found = self.findDataset(name)
        if found is not None:
            found_name, _ = found
            base[name] = h5py.SoftLink(found_name)
            entry = base[name]
        else:
            entry = self._create_dataset(name=name, data=data, attrs=attrs, base_grp=base_grp)
    else:
        entry = self._create_dataset(name=name, data=data, attrs=attrs, base_grp=base_grp)
    return entry


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO._create_group")
def r_AbstractH5FileIO_create_group(self, name, base_grp=None):
    base = base_grp if base_grp is not None else self.root
    return base.create_group(name)


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO._create_dataset")
def r_AbstractH5FileIO_create_dataset(self, name, data, attrs=None, base_grp=None):
    base = base_grp if base_grp is not None else self.root
    if not isinstance(name, str):
        raise TypeError()
    if not isinstance(data, self.DATASET_DTYPES):
        raise TypeError()
    if isinstance(data, np.ndarray):
        dataset = base.create_dataset(name=name, data=data, **self.HDF5_ARRAY_OPTS)
    else:
        dataset = base.create_dataset(name=name, data=data)
    if attrs is not None:
        dataset.attrs.update(attrs)
    return dataset


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.createDatasets", ret=False)
def r_AbstractH5FileIO_createDatasets(self, data_dict, base_grp=None):
    base = base_grp if base_grp is not None else self.root
    for name, data in data_dict.items():
        self.createDataset(name=name, data=data, base_grp=base)


@of("seyfert.file_io.hdf5_io.AbstractH5FileIO.__eq__")
def r_AbstractH5FileIO_eq(self, other):
    return gu.compare_objects(self, other, self._attrs_excluded_from_equality)

