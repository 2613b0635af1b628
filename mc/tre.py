"""TREs in the XML form GDAL gives them, from plain Python values."""

import os
from xml.etree import ElementTree as ET

from .data import TEST_DATA

RPC_FIELDS = [
    "ERR_BIAS",
    "ERR_RAND",
    "LINE_OFF",
    "SAMP_OFF",
    "LAT_OFF",
    "LONG_OFF",
    "HEIGHT_OFF",
    "LINE_SCALE",
    "SAMP_SCALE",
    "LAT_SCALE",
    "LONG_SCALE",
    "HEIGHT_SCALE",
]
RPC_POLYNOMIALS = ["LINE_NUM_COEFF", "LINE_DEN_COEFF", "SAMP_NUM_COEFF", "SAMP_DEN_COEFF"]


def tre(name, fields, repeated=None):
    element = ET.Element("tre", {"name": name, "location": "image"})
    for field, value in fields.items():
        ET.SubElement(element, "field", {"name": field, "value": value if isinstance(value, str) else repr(value)})
    for field, values in (repeated or {}).items():
        group = ET.SubElement(element, "repeated", {"name": field, "number": str(len(values))})
        for i, value in enumerate(values):
            ET.SubElement(ET.SubElement(group, "group", {"index": str(i)}), "field", {"name": field, "value": repr(value)})
    return element


def tres(*elements):
    root = ET.Element("tres")
    root.extend(elements)
    return root


def sample(name):
    return ET.parse(os.path.join(TEST_DATA, name)).getroot()


# -- RPC00B ----------------------------------------------------------------------------------------------------------
def rpc_tre(norm, polynomials, success="1"):
    """norm: the 12 values of RPC_FIELDS by name, polynomials: 20 coefficients by name."""
    return tre("RPC00B", {"SUCCESS": success, **{f: float(norm[f]) for f in RPC_FIELDS}}, polynomials)


RPC_POWERS = [
    (0, 0, 0),
    (1, 0, 0),
    (0, 1, 0),
    (0, 0, 1),
    (1, 1, 0),
    (1, 0, 1),
    (0, 1, 1),
    (2, 0, 0),
    (0, 2, 0),
    (0, 0, 2),
    (1, 1, 1),
    (3, 0, 0),
    (1, 2, 0),
    (1, 0, 2),
    (2, 1, 0),
    (0, 3, 0),
    (0, 1, 2),
    (2, 0, 1),
    (0, 2, 1),
    (0, 0, 3),
]


def polynomial(powers, coefficients, x, y, z):
    return sum(c * x**i * y**j * z**k for c, (i, j, k) in zip(coefficients, powers))


def rpc_reference(norm, polynomials, lon, lat, h):
    """Where RPC00B puts a location given in degrees and metres: (column, row)."""
    x = (lon - norm["LONG_OFF"]) / norm["LONG_SCALE"]
    y = (lat - norm["LAT_OFF"]) / norm["LAT_SCALE"]
    z = (h - norm["HEIGHT_OFF"]) / norm["HEIGHT_SCALE"]
    line, line_den, samp, samp_den = (polynomial(RPC_POWERS, polynomials[p], x, y, z) for p in RPC_POLYNOMIALS)
    return samp / samp_den * norm["SAMP_SCALE"] + norm["SAMP_OFF"], line / line_den * norm["LINE_SCALE"] + norm["LINE_OFF"]


# -- RSM -------------------------------------------------------------------------------------------------------------
def rsm_powers(px, py, pz):
    """The order RSMPCA gives its coefficients in: the power of x varies fastest, that of z slowest."""
    return [(i, j, k) for k in range(pz + 1) for j in range(py + 1) for i in range(px + 1)]


LOW_ORDER = ["0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"]
LOW_POWERS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (1, 1, 0), (1, 0, 1), (0, 2, 0), (0, 1, 1), (0, 0, 2)]


def rsmid_tre(form, vertices, domain, origin=None, vectors=None, reference=None):
    fields = {"GRNDD": form}
    if origin is not None:
        fields.update({f"{a}UOR": float(v) for a, v in zip("XYZ", origin)})
        # row r of the matrix is the unit vector of axis r: XUXR YUXR ZUXR
        fields.update({f"{c}U{r}R": float(vectors[i][j]) for i, r in enumerate("XYZ") for j, c in enumerate("XYZ")})
    for n, v in enumerate(vertices, 1):
        fields.update({f"V{n}{a}": float(c) for a, c in zip("XYZ", v)})
    fields.update({f"GRP{a}": "" if reference is None else float(reference[i]) for i, a in enumerate("XYZ")})
    fields.update({n: int(v) for n, v in zip(("MINR", "MAXR", "MINC", "MAXC"), domain)})
    return tre("RSMIDA", fields)


def rsmpc_tre(section, norm, polynomials):
    """norm: offsets and scales of row, column, x, y, z by the names of the TRE; polynomials: name -> (powers, coefficients)."""
    fields = {"RSN": "%03d" % section[0], "CSN": "%03d" % section[1], **{n: float(v) for n, v in norm.items()}}
    repeated = {}
    for name, (powers, coefficients) in polynomials.items():
        fields.update({f"{name}PWR{a}": p for a, p in zip("XYZ", powers)})
        fields[f"{name}TRMS"] = len(coefficients)
        repeated[f"{name}PCF"] = list(coefficients)
    return tre("RSMPCA", fields, repeated)


def rsmpi_tre(sections, sizes, row, column):
    fields = {"RNIS": sections[0], "CNIS": sections[1], "TNIS": sections[0] * sections[1]}
    fields.update({"RSSIZ": float(sizes[0]), "CSSIZ": float(sizes[1])})
    fields.update({f"R{s}": float(v) for s, v in zip(LOW_ORDER, row)})
    fields.update({f"C{s}": float(v) for s, v in zip(LOW_ORDER, column)})
    return tre("RSMPIA", fields)


def rsm_reference(norm, polynomials, x, y, z):
    """Where one RSM polynomial puts a location of its ground domain: (column, row)."""
    x, y, z = ((v - norm[f"{a}NRMO"]) / norm[f"{a}NRMSF"] for v, a in zip((x, y, z), "XYZ"))
    rn, rd, cn, cd = (polynomial(rsm_powers(*polynomials[n][0]), polynomials[n][1], x, y, z) for n in ("RN", "RD", "CN", "CD"))
    return cn / cd * norm["CNRMSF"] + norm["CNRMO"], rn / rd * norm["RNRMSF"] + norm["RNRMO"]


# -- the other TREs --------------------------------------------------------------------------------------------------
CORNERS = {"UL": (0, 0), "UR": (1, 0), "LR": (1, 1), "LL": (0, 1)}


def cscrna_tre(corners):
    """corners: UL, UR, LR, LL -> (lat, lon, height) degrees, metres"""
    fields = {"PREDICT_CORNERS": "Y"}
    for name, (lat, lon, h) in corners.items():
        fields.update({f"{name}CNR_LAT": float(lat), f"{name}CNR_LONG": float(lon), f"{name}CNR_HT": float(h)})
    return tre("CSCRNA", fields)


def ichipb_tre(full, size, chip):
    """full: 4 corners of the chip in the full image (col, row) in the order 11 12 21 22, chip: the same in the chip."""
    fields = {"XFRM_FLAG": "0", "SCALE_FACTOR": 1.0, "ANAMRPH_CORR": "0", "SCANBLK_NUM": "0"}
    for name, (c, r) in zip(("11", "12", "21", "22"), chip):
        fields.update({f"OP_ROW_{name}": float(r), f"OP_COL_{name}": float(c)})
    for name, (c, r) in zip(("11", "12", "21", "22"), full):
        fields.update({f"FI_ROW_{name}": float(r), f"FI_COL_{name}": float(c)})
    fields.update({"FI_ROW": int(size[1]), "FI_COL": int(size[0])})
    return tre("ICHIPB", fields)
