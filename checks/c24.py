"""C24: the NITF data extension segments of an image are found and carried over field by field."""

import base64
import itertools
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

import numpy as np
from osgeo import gdal

from mc import data
from mc.core import Space, product, sequences

from aws.osml.gdal.nitf_des_accessor import NITFDESAccessor

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

NOTES = {"assumptions": ["the xml:DES metadata has the form GDAL gives it (base64 DESDATA before 3.9, expanded since)"]}

WIDTHS = {n: w for n, w, _ in data.DES_FIELDS}
ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -/&<>'\"abcdefghijklmnopqrstuvwxyz"


def text(length, shift=0):
    """No blanks at either end, so that padding can be told from the value; with a negative shift blanks lead the value."""
    s = "".join(ALPHABET[(i * 7 + shift) % len(ALPHABET)] for i in range(length))
    if s:
        s = "Q" + s[1:-1] + "Z" if length > 1 else "Q"
    if shift < 0:
        s = (" " * -shift + s)[:length] if length > -shift else s
    return s


def des_xml(values, shf="", name="XML_DATA_CONTENT", drop=(), extra="", shl=None):
    out = [f"<des name={quoteattr(name)}>"]
    fields = [("DESVER", values.get("DESVER", "01"))] + [(n, values.get(n, "")) for n in list(WIDTHS)[1:]]
    fields += [("DESSHL", "%04d" % (len(shf) if shl is None else shl))]
    if shf:
        fields += [("DESSHF", shf)]
    for n, v in fields:
        if n not in drop:
            out.append(f"<field name={quoteattr(n)} value={quoteattr(v)} />")
    return "".join(out) + extra + "</des>"


def parse(ctx, header):
    result, at = {}, 0
    for n, w in WIDTHS.items():
        result[n] = header[at : at + w]
        at += w
    ctx.check(header[at : at + 4].isdigit(), "no subheader length where it belongs", header=header)
    length = int(header[at : at + 4])
    at += 4
    ctx.check(len(header) == at + length, "the header does not have the length it states", header=header, length=len(header))
    return result, header[at:]


def check_header(ctx, header, values, shf):
    got, got_shf = parse(ctx, header)
    ctx.check(got_shf == shf, "the user defined subheader was changed", got=got_shf, want=shf)
    for n, w in WIDTHS.items():
        want = values.get(n, "01" if n == "DESVER" else "")
        if n == "DESVER":
            ctx.check(got[n] == "%02d" % int(want), "wrong version", got=got[n], want=want)
        else:
            ctx.check(got[n] == want.ljust(w), f"field {n} does not hold its value", got=got[n], want=want)


def run_header(ctx, case):
    values = {n: text(l, shift) for n, l, shift in case["fields"]}
    if case["version"] is not None:
        values["DESVER"] = case["version"]
    shf = text(case["shf"], case.get("shift", 3))
    # blanks at the end of the user defined subheader may be left out in the metadata
    shl = case["shf"] + case.get("blanks", 0)
    accessor = ctx.call(NITFDESAccessor, ["<des_list>" + des_xml(values, shf, shl=shl) + "</des_list>"])
    segments = ctx.call(accessor.get_segments_by_name, "XML_DATA_CONTENT")
    ctx.check(len(segments) == 1, "not the one segment", got=len(segments))
    header = ctx.call(accessor.extract_des_header, segments[0])
    check_header(ctx, header, values, shf.ljust(shl))
    for n, v in values.items():
        ctx.check(ctx.call(accessor.parse_field_value, segments[0], n, str) == v, "a field has another value", field=n)
    ctx.state(header)


def header_cases(quick):
    def gen():
        names = [n for n in WIDTHS if n != "DESVER"]
        full = [[n, WIDTHS[n], i] for i, n in enumerate(names)]
        for version in (None, "01", "00", "99", "2"):
            yield {"fields": [], "version": version, "shf": 0}
            yield {"fields": full, "version": version, "shf": 773}
        # every field alone at every length; every field alone missing from full ones
        for n in names:
            for length in range(0, WIDTHS[n] + 1):
                yield {"fields": [[n, length, length]], "version": None, "shf": 0}
                yield {"fields": [f for f in full if f[0] != n] + [[n, length, 5]], "version": None, "shf": 12}
        for a, b in itertools.combinations(names, 2):
            for la, lb in product2(WIDTHS[a], WIDTHS[b], quick):
                yield {"fields": [[a, la, 1], [b, lb, 2]], "version": None, "shf": 3}
        # values that begin with blanks
        for n in names:
            for length in range(2, WIDTHS[n] + 1):
                for shift in (-1, -3):
                    yield {"fields": [[n, length, shift]], "version": None, "shf": 0}
        for shf in (2, 5, 700, 773):
            for shift in (-1, -2, -4):
                yield {"fields": full, "version": None, "shf": shf, "shift": shift}
        for shf in list(range(0, 40)) + [99, 100, 101, 773, 774, 999, 1000, 4000, 9999]:
            yield {"fields": full, "version": None, "shf": shf}
        for shf in (1, 5, 700, 773, 2000):
            for blanks in (1, 2, 73, 773, 2000):
                yield {"fields": full, "version": None, "shf": shf, "blanks": blanks}

    return gen


def product2(wa, wb, quick):
    la = sorted({0, 1, wa // 2, wa} if quick else set(range(0, wa + 1)) if wa < 12 else {0, 1, 2, wa // 2, wa - 1, wa})
    lb = sorted({0, 1, wb // 2, wb} if quick else set(range(0, wb + 1)) if wb < 12 else {0, 1, 2, wb // 2, wb - 1, wb})
    return [(a, b) for a in la for b in lb]


def run_missing(ctx, case):
    element = ET.fromstring(des_xml({"DECLAS": "U"}, "abc", drop=[case["field"]]))
    ctx.call_raises(ValueError, NITFDESAccessor.extract_des_header, element)
    ctx.call_raises(ValueError, NITFDESAccessor.parse_field_value, element, case["field"], str)
    # a field of the document in the segment is not one of the segment
    document = f'<field name="DESDATA"><xml_content><SICD><field name="{case["field"]}" value="7" /></SICD></xml_content></field>'
    nested = ET.fromstring(des_xml({"DECLAS": "U"}, "abc", drop=[case["field"]], extra=document))
    ctx.call_raises(ValueError, NITFDESAccessor.extract_des_header, nested)
    ctx.call_raises(ValueError, NITFDESAccessor.parse_field_value, nested, case["field"], str)
    bare = ET.fromstring(des_xml({"DECLAS": "U"}, "abc", drop=[case["field"]], extra=f'<field name="{case["field"]}" />'))
    ctx.call_raises(ValueError, NITFDESAccessor.parse_field_value, bare, case["field"], str)


# -- documents ---------------------------------------------------------------------------------------------------------
DOCUMENTS = {
    "tiny": "<SICD/>",
    "text": "<SICD><a>1</a></SICD>",
    "mixed": '<SICD xmlns="urn:SICD:1.2.1"><a x="1&amp;2">text &lt; more<b/>tail</a><a>two</a></SICD>',
    "prefixed": '<s:SIDD xmlns:s="urn:SIDD:2.0.0" xmlns:n="urn:other"><n:b n:c="d">é – 文</n:b></s:SIDD>',
    "spaced": "<SICD>\n  <a>\n    1\n  </a>\n</SICD>\n",
    "commented": "<SICD><!-- a comment --><a>1</a></SICD>",
}
DOCUMENTS["character-data"] = "<SICD><![CDATA[1 < 2 & 3]]><a><![CDATA[<b/>]]></a></SICD>"
DOCUMENTS["long"] = "<SICD>" + "".join(f'<a n="{i}">value é {i * i}</a>' for i in range(6000)) + "</SICD>"
PROLOGS = ["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"]


def content(element_or_text):
    return ET.canonicalize(element_or_text, strip_text=True, rewrite_prefixes=True)


def desdata(document, style):
    if style == "base64":
        return '<field name="DESDATA" value="%s" />' % base64.b64encode(document.encode("utf-8")).decode()
    if style == "expanded":
        return f'<field name="DESDATA"><xml_content>{document}</xml_content></field>'
    if style == "empty":
        return '<field name="DESDATA" value="" />'
    if style == "bare":
        return '<field name="DESDATA" />'
    if style == "hollow":
        return '<field name="DESDATA"><xml_content></xml_content></field>'
    return ""


def run_segments(ctx, case):
    """Lists of segments over one or two metadata entries."""
    parts = []
    for i, (name, document, prolog, style) in enumerate(case["segments"]):
        body = PROLOGS[prolog] + DOCUMENTS[document]
        parts.append(des_xml({"DECLAS": "U", "DESCLSY": "%02d" % i}, "", name, extra=desdata(body, style)))
    cut = case["cut"]
    lists = ["<des_list>" + "".join(p) + "</des_list>" for p in ([parts] if cut is None else [parts[:cut], parts[cut:]])]
    given = list(lists)
    accessor = ctx.call(NITFDESAccessor, lists)
    ctx.check(lists == given, "the metadata was changed")
    names = {s[0] for s in case["segments"]} | {"XML_DATA_CONTENT", "OTHER", "XML_DATA"}
    for name in sorted(names):
        want = [i for i, s in enumerate(case["segments"]) if s[0] == name]
        for repeat in (0, 1):
            found = ctx.call(accessor.get_segments_by_name, name)
            got = [int(ctx.call(accessor.parse_field_value, e, "DESCLSY", str)) for e in found]
            ctx.check(got == want, "not the segments of that name", name=name, got=got, want=want)
        for i, element in zip(want, found):
            _, document, prolog, style = case["segments"][i]
            got = ctx.call(accessor.extract_desdata_xml, element)
            if style == "base64":
                ctx.check(got == PROLOGS[prolog] + DOCUMENTS[document] or decl_free(got) == decl_free(PROLOGS[prolog] + DOCUMENTS[document]), "not the document of the segment", got=got)
                ctx.check(got is not None and content(got) == content(PROLOGS[prolog] + DOCUMENTS[document]), "not the document of the segment", got=got)
            elif style == "expanded":
                ctx.check(got is not None and content(got) == content(DOCUMENTS[document]), "not the document of the segment", got=got)
            else:
                ctx.check(got is None, "a document was made up", got=got)
            ctx.state(name, document, prolog, style, got)


def decl_free(s):
    return None if s is None else s.split("?>", 1)[-1].strip()


def segment_cases(length):
    def gen():
        for style in ("base64", "expanded"):
            for d in DOCUMENTS:
                for p in range(len(PROLOGS)):
                    yield {"segments": [["XML_DATA_CONTENT", d, p, style]], "cut": None}
        alphabet = [
            ["XML_DATA_CONTENT", "text", 1, "base64"],
            ["XML_DATA_CONTENT", "mixed", 1, "expanded"],
            ["XML_DATA_CONTENT", "spaced", 0, "expanded"],
            ["XML_DATA_CONTENT", "tiny", 0, "empty"],
            ["XML_DATA_CONTENT", "tiny", 0, "hollow"],
            ["XML_DATA_CONTENT", "tiny", 0, "none"],
            ["OTHER", "prefixed", 2, "base64"],
            ["OTHER", "commented", 1, "expanded"],
            ["CSATTA DES", "tiny", 0, "bare"],
        ]
        # other names, and many segments
        for name in ("xml_data_content", "Xml_Data_Content", "TRE_OVERFLOW", "ABCDEFGHIJKLMNOPQRSTUVWXY", "X", "XML_DATA_CONTENT 2", "A<B&C'"):
            for other in ("XML_DATA_CONTENT", "TRE_OVERFLOW", name + "Z", name[:-1] or "Y"):
                for cut in (None, 1):
                    yield {"segments": [[name, "text", 1, "base64"], [other, "mixed", 0, "expanded"], [name, "tiny", 0, "expanded"]], "cut": cut}
        for count in (5, 20, 99):
            for cut in (None, 1, count // 2, count):
                yield {"segments": [[["XML_DATA_CONTENT", "OTHER", "X"][i * i % 3], "text", i % 4, "base64"] for i in range(count)], "cut": cut}
        for segments in sequences(alphabet, length):
            for cut in [None] + list(range(0, len(segments) + 1)):
                if cut is None or len(segments) > 1:
                    yield {"segments": segments, "cut": cut}

    return gen


def run_nothing(ctx, case):
    metadata = {"none": None, "empty": [], "list": ["<des_list></des_list>"]}[case["metadata"]]
    accessor = ctx.call(NITFDESAccessor, metadata)
    got = ctx.call(accessor.get_segments_by_name, "XML_DATA_CONTENT")
    ctx.check(list(got) == [], "segments were made up", got=got)


def run_file(ctx, case):
    """Through a real NITF file: what GDAL wrote from a header is extracted as that header again."""
    values = {n: text(l, shift) for n, l, shift in case["fields"]}
    for k in list(values):
        values[k] = values[k].replace("&", "A").replace("<", "B").replace(">", "C").replace("'", "D").replace('"', "E")
    values["DECLAS"] = "U"
    shf = text(case["shf"], 3).replace("&", "A").replace("<", "B").replace(">", "C").replace("'", "D").replace('"', "E")
    header = data.des_header(shf, **{**{n: "" for n in WIDTHS}, **values, "DESVER": "01"})
    documents = [PROLOGS[p] + DOCUMENTS[d] for d, p in case["documents"]]
    options = [f"DES=XML_DATA_CONTENT={header}{d}" for d in documents]
    name = data.file_dataset(np.zeros((1, 2, 2), dtype=np.uint8), "Byte", "NITF", options)
    ds = gdal.Open(name)
    accessor = ctx.call(NITFDESAccessor, ds.GetMetadata("xml:DES"))
    segments = ctx.call(accessor.get_segments_by_name, "XML_DATA_CONTENT")
    ctx.check(len(segments) == len(documents), "not one segment per document", got=len(segments))
    for element, document in zip(segments, documents):
        got = ctx.call(accessor.extract_des_header, element)
        ctx.check(got == header, "the header is not the one in the file", got=got, want=header)
        xml = ctx.call(accessor.extract_desdata_xml, element)
        ctx.check(xml is not None and content(xml) == content(document), "not the document in the file", got=xml, want=document)
    ctx.state(header, case["documents"])
    ds = None
    gdal.Unlink(name)


def file_cases():
    names = [n for n in WIDTHS if n not in ("DESVER", "DECLAS")]
    full = [[n, WIDTHS[n], i] for i, n in enumerate(names)]
    for d in DOCUMENTS:
        for p in range(len(PROLOGS)):
            yield {"fields": [], "shf": 0, "documents": [[d, p]]}
            yield {"fields": full, "shf": 773, "documents": [[d, p]]}
    for n in names:
        for length in sorted({0, 1, WIDTHS[n] // 2, WIDTHS[n] - 1, WIDTHS[n]}):
            yield {"fields": [[n, length, 2]], "shf": 0, "documents": [["text", 1]]}
            yield {"fields": [f for f in full if f[0] != n] + [[n, length, 4]], "shf": 5, "documents": [["text", 1], ["mixed", 2]]}
    for shf in (0, 1, 2, 10, 100, 773, 1000, 5000):
        yield {"fields": full, "shf": shf, "documents": [["mixed", 1], ["prefixed", 2], ["text", 0]]}


def spaces(tier):
    quick = tier == "quick"
    fields = list(WIDTHS) + ["DESSHL", "DESSHF"]
    return [
        Space("headers", header_cases(quick), run_header, bound="every field at every length, all pairs of fields at 4 (all short) lengths, subheaders up to 9999"),
        Space("missing", [{"field": f} for f in fields], run_missing, bound="every field missing"),
        Space("segments", segment_cases(2 if quick else 4), run_segments, bound="all lists of up to 2 (4) of 9 segments in one or two metadata entries; 7 other names; up to 99 segments"),
        Space("nothing", [{"metadata": m} for m in ("none", "empty", "list")], run_nothing, bound="no metadata"),
        Space("files", lambda: file_cases(), run_file, bound="NITF files written and read by GDAL"),
    ]
