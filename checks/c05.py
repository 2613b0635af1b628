"""C05: text forms of a location agree with the location."""

import math
import re

from mc.core import Space, sequences

from aws.osml.photogrammetry import GeodeticWorldCoordinate


def dms(axis, tenths):
    """Expected degrees, minutes, seconds and hemisphere of an angle given in tenths of an arc second."""
    seconds = abs(tenths) // 10
    d, m, s = seconds // 3600, seconds // 60 % 60, seconds % 60
    return d, m, s, ("NS" if axis == "lat" else "EW")[1 if tenths < 0 else 0]


def coordinate(lat_tenths, lon_tenths, elevation=0.0):
    return GeodeticWorldCoordinate([math.radians(lon_tenths / 36000), math.radians(lat_tenths / 36000), elevation])


DMS_RE = re.compile(r"(\d{2})(\d{2})(\d{2})([NS])(\d{3})(\d{2})(\d{2})([EW])")


def check_dms(ctx, text, lat_tenths, lon_tenths):
    m = DMS_RE.fullmatch(text)
    ctx.check(m is not None, "not in the form ddmmssXdddmmssY", text=text)
    got = [(int(m[1]), int(m[2]), int(m[3]), m[4]), (int(m[5]), int(m[6]), int(m[7]), m[8])]
    for g, axis, tenths in ((got[0], "lat", lat_tenths), (got[1], "lon", lon_tenths)):
        want = dms(axis, tenths)
        # the hemisphere of an angle that is written as zero does not matter
        ok = g[:3] == want[:3] and (g[3] == want[3] or want[:3] == (0, 0, 0))
        ctx.check(ok, "the text is a different location", text=text, axis=axis, arc_seconds=tenths / 10)


def run_angle(ctx, case):
    """Every angle of one degree, in steps of step tenths of an arc second, along one axis; the other axis varies too."""
    axis, degree, sign, step = case["axis"], case["degree"], case["sign"], case["step"]
    limit = 90 if axis == "lat" else 180
    for t in range(degree * 36000 + case["phase"], (degree + 1) * 36000, step):
        if t > limit * 36000:
            break
        tenths = sign * t
        other = (t * 37 + degree * 11) % (180 * 36000) - 90 * 36000
        other -= other % 5
        if other % 10 == 5 and other < 0:
            other += 5
        lat, lon = (tenths, other) if axis == "lat" else (other, tenths)
        text = ctx.call(coordinate(lat, lon).to_dms_string)
        check_dms(ctx, text, lat, lon)
        if t % 3600 == 0:
            ctx.state(axis, tenths)


def run_edge(ctx, case):
    """A hair before and after the whole degrees, minutes and seconds of one degree."""
    axis, degree, sign = case["axis"], case["degree"], case["sign"]
    limit = 90 if axis == "lat" else 180
    for second in range(degree * 3600, degree * 3600 + 3600, case["step"]):
        for hair in (-1e-4, 1e-4):
            at = second + hair
            if not 0 < at < limit * 3600:
                continue
            angle = math.radians(sign * at / 3600)
            c = GeodeticWorldCoordinate([0.0, angle, 0.0] if axis == "lat" else [angle, 0.0, 0.0])
            tenths = sign * 10 * math.floor(at)
            lat, lon = (tenths, 0) if axis == "lat" else (0, tenths)
            check_dms(ctx, ctx.call(c.to_dms_string), lat, lon)
    ctx.state("edge", axis, sign * degree)


def angles(step, phases):
    def gen():
        for axis, limit in (("lat", 90), ("lon", 180)):
            for degree in range(0, limit + 1):
                for sign in (1, -1):
                    for phase in phases:
                        yield {"axis": axis, "degree": degree, "sign": sign, "step": step, "phase": phase}

    return gen


TOKENS = ["%L", "%O", "%l", "%o", "%ld", "%lm", "%ls", "%lh", "%lH", "%od", "%om", "%os", "%oh", "%oH", "%E", "%%"]
LITERALS = ["x", "d", " ", "m/", "%q", "é"]
# (latitude, longitude) in tenths of an arc second and elevation
PLACES = [
    (0, 0, 0.0),
    (378450, 4374450, 12.5),
    (-378450, -4374450, -31.25),
    (3240000, 6480000, 8848.0),
    (-3240000, -6480000, 1.0),
    (35995, -35990, 0.125),
    (-5, 5, 1e-3),
    (1799995, -3599990, 100.0),
]


def token_value(ctx, c, place, token):
    """What one directive stands for, checked against the location."""
    lat_t, lon_t, elevation = place
    text = ctx.call(format, c, token)
    lat, lon = dms("lat", lat_t), dms("lon", lon_t)
    zero = {"%lh": lat[:3] == (0, 0, 0), "%lH": lat[:3] == (0, 0, 0), "%oh": lon[:3] == (0, 0, 0), "%oH": lon[:3] == (0, 0, 0)}
    exact = {
        "%ld": f"{lat[0]:02d}",
        "%lm": f"{lat[1]:02d}",
        "%ls": f"{lat[2]:02d}",
        "%lh": lat[3].lower(),
        "%lH": lat[3],
        "%od": f"{lon[0]:03d}",
        "%om": f"{lon[1]:02d}",
        "%os": f"{lon[2]:02d}",
        "%oh": lon[3].lower(),
        "%oH": lon[3],
        "%%": "%",
        "%q": "",
    }
    number = {
        "%L": math.radians(lat_t / 36000),
        "%O": math.radians(lon_t / 36000),
        "%l": abs(lat_t / 36000),
        "%o": abs(lon_t / 36000),
        "%E": elevation,
    }
    if token in number:
        value = float(text)
        if token in ("%l", "%o"):
            value = abs(value)
        ctx.check(abs(value - number[token]) <= 1e-9 * max(1, abs(number[token])), "wrong value", token=token, text=text)
    elif token in exact:
        ctx.check(text == exact[token] or zero.get(token), "wrong text", token=token, text=text, want=exact[token])
    else:
        ctx.check(text == token, "literal text has to be kept", token=token, text=text)
    return text


def tokenize(spec):
    """Splits a format into directives and characters, by the documented table."""
    out, i = [], 0
    while i < len(spec):
        if spec[i] == "%" and i + 1 < len(spec):
            n = 2
            if spec[i + 1] in "lo" and i + 2 < len(spec) and spec[i + 2] in "dmshH":
                n = 3
            out.append(spec[i : i + n])
            i += n
        else:
            out.append(spec[i])
            i += 1
    return out


def run_format(ctx, case):
    spec = "".join(case["tokens"])
    if spec.endswith("%") and not spec.endswith("%%"):
        return
    for place in PLACES:
        c = coordinate(*place)
        want = "".join(token_value(ctx, c, place, t) for t in tokenize(spec))
        got = ctx.call(format, c, spec)
        ctx.check(got == want, "the parts of a format do not add up", spec=spec, got=got, want=want)
        ctx.state(spec, got)


def run_default(ctx, case):
    place = PLACES[case["place"]]
    c = coordinate(*place)
    got = ctx.call(format, c, "")
    want = "".join(
        token_value(ctx, c, place, t) for t in ("%ld", "%lm", "%ls", "%lH", " ", "%od", "%om", "%os", "%oH", " ", "%E")
    )
    ctx.check(got == want == f"{c}", "default format", got=got, want=want)
    ctx.state("default", got)


def spaces(tier):
    quick = tier == "quick"
    return [
        Space(
            "dms",
            angles(10, (0, 5)) if quick else angles(1, (0,)),
            run_angle,
            bound="every half arc second (thorough: every tenth) of latitude and of longitude",
        ),
        Space(
            "edges",
            lambda: ({"axis": a, "degree": d, "sign": g, "step": 60 if quick else 1} for a, n in (("lat", 90), ("lon", 180)) for d in range(n) for g in (1, -1)),
            run_edge,
            bound="a ten thousandth of an arc second before and after every minute (thorough: second)",
        ),
        Space(
            "format",
            lambda: ({"tokens": s} for s in sequences(TOKENS + LITERALS, 2 if quick else 3, 1)),
            run_format,
            bound="all sequences of 2 (thorough 3) directives and literals at 8 places",
        ),
        Space("default", [{"place": i} for i in range(len(PLACES))], run_default, bound="8 places"),
    ]
