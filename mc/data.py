"""Rasters and metadata the checks build for themselves, and what can be read back out of an encoded tile."""

import itertools
import os
import re

import numpy as np
from osgeo import gdal

from .core import REPO

TEST_DATA = os.path.join(REPO, "test/data")
_count = itertools.count()

NP = {
    "Byte": np.uint8,
    "UInt16": np.uint16,
    "Int16": np.int16,
    "UInt32": np.uint32,
    "Int32": np.int32,
    "UInt64": np.uint64,
    "Int64": np.int64,
    "Float32": np.float32,
    "Float64": np.float64,
}
GDT = {
    "Byte": gdal.GDT_Byte,
    "UInt16": gdal.GDT_UInt16,
    "Int16": gdal.GDT_Int16,
    "UInt32": gdal.GDT_UInt32,
    "Int32": gdal.GDT_Int32,
    "UInt64": gdal.GDT_UInt64,
    "Int64": gdal.GDT_Int64,
    "Float32": gdal.GDT_Float32,
    "Float64": gdal.GDT_Float64,
}


def limits(dtype):
    t = np.dtype(NP[dtype])
    info = np.finfo(t) if t.kind == "f" else np.iinfo(t)
    return info.min, info.max


def pattern(dtype, width, height, bands):
    """All pixels differ (where the type allows it), and the extreme values of the type are among them."""
    t = np.dtype(NP[dtype])
    lo, hi = limits(dtype)
    n = width * height * bands
    if t.kind == "f":
        special = [lo, hi, 0.0, -1.5, 1.5, 1e-3, -1e-3, 12345.678, 1e20, -1e20]
        values = [float(i) * 1.25 - 100.0 for i in range(n)]
        special = [float(t.type(v)) for v in special]
    else:
        special = [lo, hi, 0, 1, int(hi) - 1, int(lo) + 1, int(hi) // 2]
        span = int(hi) - int(lo)
        values = [int(lo) + (i * 7919 + (i * i) % 13) % (span + 1) for i in range(n)]
    for i, v in enumerate(special):
        if i * 3 < n:
            values[i * 3] = v
    return np.array(values, dtype=t).reshape(bands, height, width)


def fresh(suffix=""):
    return f"/vsimem/verif_{os.getpid()}_{next(_count)}{suffix}"


def mem_dataset(array, dtype):
    bands, height, width = array.shape
    ds = gdal.GetDriverByName("MEM").Create("", width, height, bands, GDT[dtype])
    for b in range(bands):
        ds.GetRasterBand(b + 1).WriteArray(array[b])
    return ds


def file_dataset(array, dtype, driver, options=()):
    name = fresh({"NITF": ".ntf", "GTiff": ".tif"}[driver])
    source = mem_dataset(array, dtype)
    out = gdal.Translate(name, source, format=driver, creationOptions=list(options))
    del out
    return name


def pixels(ds):
    """[band][row][col] as a numpy array, for any number of bands."""
    return np.stack([ds.GetRasterBand(b + 1).ReadAsArray() for b in range(ds.RasterCount)])


def same_pixels(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))


class Tile:
    """An encoded tile opened as a dataset; close() removes it."""

    def __init__(self, data, suffix=""):
        self.name = fresh(suffix)
        gdal.FileFromMemBuffer(self.name, bytes(data))
        self.ds = gdal.Open(self.name)

    def close(self):
        self.ds = None
        gdal.Unlink(self.name)


VOLATILE = {"NITF_FDT", "NITF_IDATIM", "NITF_FL", "NITF_OSTAID"}


def describe(ds):
    """Everything a consumer of an encoded tile sees, except for the time it was made."""
    band = ds.GetRasterBand(1)
    return {
        "driver": ds.GetDriver().ShortName,
        "size": (ds.RasterXSize, ds.RasterYSize, ds.RasterCount),
        "types": [ds.GetRasterBand(b + 1).DataType for b in range(ds.RasterCount)],
        "pixels": pixels(ds).tobytes(),
        "geo_transform": ds.GetGeoTransform(can_return_null=True),
        "gcps": [(g.GCPPixel, g.GCPLine, g.GCPX, g.GCPY, g.GCPZ) for g in ds.GetGCPs() or []],
        "metadata": {k: v for k, v in sorted((ds.GetMetadata() or {}).items()) if k not in VOLATILE},
        "rpc": dict(sorted((ds.GetMetadata("RPC") or {}).items())),
        "tre": dict(sorted((ds.GetMetadata("TRE") or {}).items())),
        "des": ds.GetMetadata("xml:DES") or None,
        "compression": (ds.GetMetadata("IMAGE_STRUCTURE") or {}).get("COMPRESSION"),
        "block": band.GetBlockSize(),
    }


def vsimem_files():
    return sorted(gdal.ReadDirRecursive("/vsimem/") or [])


# -- SAR metadata ----------------------------------------------------------------------------------------------------
DES_FIELDS = [
    ("DESVER", 2, "01"),
    ("DECLAS", 1, "U"),
    ("DESCLSY", 2, "US"),
    ("DESCODE", 11, "AB"),
    ("DESCTLH", 2, ""),
    ("DESREL", 20, "USA GBR"),
    ("DESDCTP", 2, "DD"),
    ("DESDCDT", 8, "20200101"),
    ("DESDCXM", 4, "X1"),
    ("DESDG", 1, ""),
    ("DESDGDT", 8, ""),
    ("DESCLTX", 43, " lead text"),
    ("DESCATP", 1, ""),
    ("DESCAUT", 40, "auth"),
    ("DESCRSN", 1, ""),
    ("DESSRDT", 8, ""),
    ("DESCTLN", 15, "ctl"),
]


def des_header(shf="", **values):
    s = "".join(str(values.get(n, v)).ljust(w) for n, w, v in DES_FIELDS)
    return s + "%04d" % len(shf) + shf


SAR_FILES = {
    "capella": "sicd/example.sicd121.capella.xml",
    "pfa": "sicd/example.sicd121.pfa.xml",
    "rma": "sicd/example.sicd121.rma.xml",
    "sidd": "sidd/example.sidd.xml",
    "sidd-chip": "sidd/example.sidd-chip.xml",
}


def sar_xml(kind):
    with open(os.path.join(TEST_DATA, SAR_FILES[kind])) as f:
        return f.read()


def _set_element(xml, name, value, count=1):
    new, n = re.subn(rf"(<(?:\w+:)?{name}>)[^<]*(</(?:\w+:)?{name}>)", rf"\g<1>{value}\g<2>", xml, count=count)
    assert n >= 1, name
    return new


def sicd_xml(kind, first_row=0, first_col=0, rows=None, cols=None):
    """The sample metadata of a SICD image as if it covered the given part of the full image."""
    xml = sar_xml(kind)
    start, end = xml.index("<ImageData>"), xml.index("<FullImage>")
    part = xml[start:end]
    for name, value in (("FirstRow", first_row), ("FirstCol", first_col), ("NumRows", rows), ("NumCols", cols)):
        if value is not None:
            part = _set_element(part, name, value)
    return xml[:start] + part + xml[end:]


def sar_dataset(array, dtype, xmls, extra_des=(), options=()):
    """A NITF file with one XML_DATA_CONTENT segment per document."""
    creation = list(options) + [f"DES=XML_DATA_CONTENT={des_header()}{x}" for x in xmls] + list(extra_des)
    return file_dataset(array, dtype, "NITF", creation)
