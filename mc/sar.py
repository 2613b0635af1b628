"""SICD and SIDD metadata read a second time, and the range and range rate of a pixel computed from it."""

import math
from xml.etree import ElementTree as ET

import numpy as np

A, E2 = 6378137.0, 6.69437999014131699614e-3


def ecef(lon, lat, h):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return np.array(
        [(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + h) * math.sin(lat)]
    )


def local(tag):
    return tag.rsplit("}", 1)[-1]


def find(element, path):
    for name in path.split("/"):
        element = next((c for c in element if local(c.tag) == name), None)
        if element is None:
            return None
    return element


def number(element, path):
    return float(find(element, path).text)


def vector(element, path):
    e = find(element, path)
    return np.array([number(e, a) for a in "XYZ"])


def poly1(element):
    terms = [(int(c.get("exponent1")), float(c.text)) for c in element if local(c.tag) == "Coef"]
    return lambda t: sum(v * t**n for n, v in terms)


def poly1d(element):
    """The derivative of a polynomial."""
    terms = [(int(c.get("exponent1")), float(c.text)) for c in element if local(c.tag) == "Coef"]
    return lambda t: sum(v * n * t ** (n - 1) for n, v in terms if n > 0)


def poly2(element):
    terms = [(int(c.get("exponent1")), int(c.get("exponent2")), float(c.text)) for c in element if local(c.tag) == "Coef"]
    return lambda x, y: sum(v * x**i * y**j for i, j, v in terms)


def xyz(element, path, derivative=False):
    e = find(element, path)
    make = poly1d if derivative else poly1
    parts = [make(find(e, a)) for a in "XYZ"]
    return lambda t: np.array([p(t) for p in parts])


class Sar:
    """What the standards say about an image, from its XML."""

    def __init__(self, text):
        root = ET.fromstring(text)
        self.sidd = local(root.tag) == "SIDD"
        if self.sidd:
            m = find(root, "Measurement")
            p = find(m, "PlaneProjection")
            self.scp = vector(p, "ReferencePoint/ECEF")
            self.scp_pixel = (number(p, "ReferencePoint/Point/Row"), number(p, "ReferencePoint/Point/Col"))
            self.ss = (number(p, "SampleSpacing/Row"), number(p, "SampleSpacing/Col"))
            self.u_row, self.u_col = vector(p, "ProductPlane/RowUnitVector"), vector(p, "ProductPlane/ColUnitVector")
            self.coa = poly2(find(p, "TimeCOAPoly"))
            self.arp, self.varp = xyz(m, "ARPPoly"), xyz(m, "ARPPoly", True)
            self.first = (0.0, 0.0)
            self.size = (number(m, "PixelFootprint/Row"), number(m, "PixelFootprint/Col"))
            self.form = "PLANE"
        else:
            self.scp = vector(root, "GeoData/SCP/ECF")
            i = find(root, "ImageData")
            self.scp_pixel = (number(i, "SCPPixel/Row"), number(i, "SCPPixel/Col"))
            self.first = (number(i, "FirstRow"), number(i, "FirstCol"))
            self.size = (number(i, "NumRows"), number(i, "NumCols"))
            g = find(root, "Grid")
            self.ss = (number(g, "Row/SS"), number(g, "Col/SS"))
            self.u_row, self.u_col = vector(g, "Row/UVectECF"), vector(g, "Col/UVectECF")
            self.coa = poly2(find(g, "TimeCOAPoly"))
            self.arp, self.varp = xyz(root, "Position/ARPPoly"), xyz(root, "Position/ARPPoly", True)
            grid, algorithm = find(g, "Type").text, find(root, "ImageFormation/ImageFormAlgo").text
            self.form = {"RGAZIM": algorithm, "RGZERO": "INCA"}.get(grid, "PLANE")
            if self.form == "PFA":
                pfa = find(root, "PFA")
                self.polar, self.polar_d = poly1(find(pfa, "PolarAngPoly")), poly1d(find(pfa, "PolarAngPoly"))
                self.ksf, self.ksf_d = poly1(find(pfa, "SpatialFreqSFPoly")), poly1d(find(pfa, "SpatialFreqSFPoly"))
                self.fpn = vector(pfa, "FPN")
            elif self.form == "RGAZCOMP":
                self.az_sf = number(root, "RgAzComp/AzSF")
            elif self.form == "INCA":
                inca = find(root, "RMA/INCA")
                self.r_ca = number(inca, "R_CA_SCP")
                self.time_ca, self.drsf = poly1(find(inca, "TimeCAPoly")), poly2(find(inca, "DRateSFPoly"))

    def contour(self, x, y):
        """Position and velocity of the antenna, range and range rate of the pixel (x, y)."""
        row = (y + self.first[0] - self.scp_pixel[0]) * self.ss[0]
        col = (x + self.first[1] - self.scp_pixel[1]) * self.ss[1]
        t = self.coa(row, col)
        arp, varp = self.arp(t), self.varp(t)
        d = arp - self.scp
        r_scp = np.linalg.norm(d)
        rdot_scp = float(np.dot(varp, d)) / r_scp
        if self.form == "PLANE":
            d = arp - self.plane_point(x, y)
            r = np.linalg.norm(d)
            return arp, varp, r, float(np.dot(varp, d)) / r
        if self.form == "PFA":
            theta = self.polar(t)
            k = self.ksf(theta)
            ka = row * math.cos(theta) + col * math.sin(theta)
            kc = -row * math.sin(theta) + col * math.cos(theta)
            return arp, varp, r_scp + k * ka, rdot_scp + (self.ksf_d(theta) * ka + k * kc) * self.polar_d(t)
        if self.form == "RGAZCOMP":
            return arp, varp, r_scp + row, rdot_scp - np.linalg.norm(varp) * self.az_sf * col
        tca = self.time_ca(col)
        v2 = float(np.sum(self.varp(tca) ** 2)) * self.drsf(row, col)
        r = math.sqrt((self.r_ca + row) ** 2 + v2 * (t - tca) ** 2)
        return arp, varp, r, v2 * (t - tca) / r

    def plane_point(self, x, y):
        row = (y + self.first[0] - self.scp_pixel[0]) * self.ss[0]
        col = (x + self.first[1] - self.scp_pixel[1]) * self.ss[1]
        return self.scp + row * self.u_row + col * self.u_col

    def side(self):
        """+1 for left, -1 for right."""
        t = self.coa(0.0, 0.0)
        return math.copysign(1.0, float(np.dot(np.cross(self.arp(t) - self.scp, self.varp(t)), self.scp)))


def mirrored(text):
    """The same scene in the other hemisphere: every Z is negated, left becomes right."""
    root = ET.fromstring(text)
    for e in root.iter():
        z = find(e, "Z")
        if z is None or find(e, "X") is None:
            continue
        if len(z):
            for c in z:
                c.text = repr(-float(c.text))
        else:
            z.text = repr(-float(z.text))
    for e in root.iter():
        if local(e.tag) == "SideOfTrack":
            e.text = {"L": "R", "R": "L"}[e.text]
        elif local(e.tag) == "Lat":
            e.text = repr(-float(e.text))
    return ET.tostring(root, encoding="unicode")


def local_frame(lon, lat):
    """East, north and up, as columns."""
    cl, sl, cp, sp = math.cos(lon), math.sin(lon), math.cos(lat), math.sin(lat)
    return np.array([[-sl, -sp * cl, cp * cl], [cl, -sp * sl, cp * sl], [0.0, cp, sp]])


def geodetic(p):
    r = math.hypot(p[0], p[1])
    lat = math.atan2(p[2], r * (1 - E2))
    for _ in range(12):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        h = r * math.cos(lat) + p[2] * math.sin(lat) - A * math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(p[2], r * (1 - E2 * n / (n + h)))
    return math.atan2(p[1], p[0]), lat, h


def moved(text, lon, lat):
    """The same scene at another place (degrees): all positions and directions are moved as one rigid body."""
    scp = Sar(text).scp
    lon0, lat0, h = geodetic(scp)
    lon, lat = math.radians(lon), math.radians(lat)
    turn = local_frame(lon, lat) @ local_frame(lon0, lat0).T
    new = ecef(lon, lat, h)
    root = ET.fromstring(text)
    for e in root.iter():
        parts = [find(e, a) for a in "XYZ"]
        if any(p is None for p in parts):
            continue
        if len(parts[0]):
            terms = [{int(c.get("exponent1")): c for c in p if local(c.tag) == "Coef"} for p in parts]
            if len({tuple(sorted(t)) for t in terms}) != 1:
                raise ValueError("polynomials of different orders")
            for n in terms[0]:
                v = np.array([float(t[n].text) for t in terms])
                v = turn @ (v - scp) + new if np.linalg.norm(v) > 5e6 else turn @ v
                for t, x in zip(terms, v):
                    t[n].text = repr(float(x))
        else:
            v = np.array([float(p.text) for p in parts])
            v = turn @ (v - scp) + new if np.linalg.norm(v) > 5e6 else turn @ v
            for p, x in zip(parts, v):
                p.text = repr(float(x))
    for e in root.iter():
        if local(e.tag) == "LLH":
            find(e, "Lat").text, find(e, "Lon").text = repr(math.degrees(lat)), repr(math.degrees(lon))
    return ET.tostring(root, encoding="unicode")


def des_list(documents, style="base64", name="XML_DATA_CONTENT"):
    """The xml:DES metadata GDAL (before 3.9: base64, since 3.9: expanded) gives for a NITF with these XML documents."""
    import base64

    out = ["<des_list>"]
    for d in documents:
        out.append(f'<des name="{name}">')
        if style == "base64":
            out.append('<field name="DESDATA" value="%s" />' % base64.b64encode(d.encode()).decode())
        else:
            out.append(f'<field name="DESDATA"><xml_content>{d}</xml_content></field>')
        out.append("</des>")
    return ["".join(out) + "</des_list>"]
