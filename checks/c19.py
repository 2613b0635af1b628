"""C19: complex SAR pixels become power and 8-bit values as the SICD and display standards define, for every pixel."""

import itertools

import numpy as np

from mc.core import Space

from aws.osml.image_processing.sar_complex_imageop import (
    complex_to_power_value,
    get_value_bounds,
    histogram_stretch,
    histogram_stretch_mag_values,
    image_pixels_to_complex,
    linear_mapping,
    power_value_in_decibels,
    quarter_power_image,
    quarter_power_mag_values,
)

NOTES = {"assumptions": ["values are compared with a relative tolerance of 1e-5 (some steps are single precision)"]}

np.seterr(all="ignore")
TYPES = {
    "int16": [0, 1, -1, 100, -300, 32767, -32768],
    "int8": [0, 1, -1, 127, -128],
    "uint8": [0, 1, 16, 255],
    "uint16": [0, 1, 256, 65535],
    "int32": [0, -3, 46341, -2147483648],
    "float32": [0.0, 0.5, -1.5, 1e-8, 3e15],
    "float64": [0.0, -0.25, 1e-12, 1e15],
}


def near(a, b, scale=None):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    tolerance = 1e-5 * np.abs(b) + 1e-9 * (1.0 if scale is None else scale)
    return bool(np.all((a == b) | (np.abs(a - b) <= tolerance)))


def table(kind):
    if kind is None:
        return None
    if kind == "integers":
        return [3 * i + 1 for i in range(256)]
    # tables of another length than 256 serve pixels that are within them
    values = np.arange({"short": 200, "long": 300}.get(kind, 256)) ** 1.5 * 0.75 + 1.0
    return values.tolist() if kind == "list" else values


# -- AMP8I_PHS8I -------------------------------------------------------------------------------------------------------
def run_amp_phase(ctx, case):
    amplitude = case["amplitude"]
    pixels = np.array([[np.full(256, amplitude)], [np.arange(256)]], dtype=case["dtype"])
    given = pixels.copy()
    lut = table(case["table"])
    got = ctx.call(image_pixels_to_complex, pixels, pixel_type="AMP8I_PHS8I", amplitude_table=lut)
    a = amplitude if lut is None else lut[amplitude]
    angle = 2 * np.pi * np.arange(256) / 256.0
    want = np.array([[a * np.cos(angle)], [a * np.sin(angle)]])
    ctx.check(near(got, want, max(a, 1)), "not the complex value of the amplitude and phase", got=got, want=want)
    ctx.check(np.array_equal(pixels, given), "the pixels were changed")
    power = ctx.call(complex_to_power_value, got)
    ctx.check(near(power, np.full((1, 256), float(a) ** 2), max(a * a, 1)), "the power is not the square of the amplitude", got=power)
    ctx.state(case["table"], amplitude)


# -- sequences of pixels -----------------------------------------------------------------------------------------------
def complex_pixels(case):
    parts = np.array(case["pixels"], dtype=case["dtype"])  # [n, 2]
    return np.ascontiguousarray(parts.T).reshape(2, *case["shape"])


def stretch(power, factor):
    finite = power[np.isfinite(power)]
    mean = finite.mean()
    return np.zeros(power.shape) if mean == 0 else np.clip(255 * power / (factor * mean), 0, 255)


def quarter(power, factor, mean=None):
    root = np.sqrt(np.abs(power))
    if mean is None:
        mean = root[np.isfinite(root)].mean()
    return np.zeros(power.shape) if mean == 0 else np.clip(255 * root / (factor * mean), 0, 255)


def run_pixels(ctx, case):
    pixels = complex_pixels(case)
    given = pixels.copy()
    exact = np.array([[float(v) ** 2 for v in p] for p in case["pixels"]]).sum(axis=1).reshape(case["shape"])
    for pixel_type in (None, "RE32F_IM32F", "RE16I_IM16I"):
        got = ctx.call(image_pixels_to_complex, pixels, pixel_type)
        ctx.check(np.array_equal(got, given), "stored complex values were changed", got=got)
    power = ctx.call(complex_to_power_value, pixels)
    ctx.check(near(power, exact), "not the power of the complex values", got=power, want=exact)
    ctx.state(case["dtype"], case["pixels"])
    for factor in (None, 2.0, 5.0):
        kwargs = {} if factor is None else {"scale_factor": factor}
        got = ctx.call(histogram_stretch, pixels, **kwargs)
        check_display(ctx, got, stretch(exact, factor or 8.0), exact)
        got = ctx.call(quarter_power_image, pixels, pixel_type=None, **kwargs)
        check_display(ctx, got, quarter(exact, factor or 3.0), exact)
        for mean in (0.5, 40.0):
            got = ctx.call(quarter_power_image, pixels, precomputed_mean=mean, **kwargs)
            check_display(ctx, got, quarter(exact, factor or 3.0, mean), exact)
    ctx.check(np.array_equal(pixels, given), "the pixels were changed")


def check_display(ctx, got, want, power):
    got = np.asarray(got, dtype=np.float64)
    ctx.check(got.shape == want.shape, "not one value per pixel", got=got.shape)
    if np.any(np.isnan(power)):
        # what is shown for no number at all is open
        known = ~np.isnan(power)
        got, want, power = got[known], want[known], power[known]
    ctx.check(bool(np.all((got >= 0) & (got <= 255))), "a value is not between 0 and 255", got=got)
    ctx.check(bool(np.all(np.abs(got - want) <= 0.3)), "wrong brightness", got=got, want=want)
    order = np.argsort(power.ravel(), kind="stable")
    ctx.check(bool(np.all(np.diff(got.ravel()[order]) >= -0.3)), "a stronger signal is darker", got=got, power=power)


def pixel_cases(length, types):
    def gen():
        for dtype in types:
            values = TYPES[dtype]
            pairs = list(itertools.product(values, repeat=2))
            for n in range(1, length + 1):
                for i, pixels in enumerate(itertools.combinations_with_replacement(pairs, n)):
                    shapes = [[1, n], [n, 1]] if n > 1 else [[1, 1]]
                    if n == 4:
                        shapes = [[2, 2]]
                    yield {"dtype": dtype, "pixels": [list(p) for p in pixels], "shape": shapes[i % len(shapes)]}

    return gen


# -- magnitudes --------------------------------------------------------------------------------------------------------
MAGNITUDES = [0.0, 1e-6, 0.5, 1.0, 3.0, 250.0, 1e9, 1e21]


def run_magnitudes(ctx, case):
    values = np.array(case["values"], dtype=case["dtype"])
    if case.get("repeat"):
        values = np.resize(values, case["repeat"])
    given = values.copy()
    exact = values.astype(np.float64)
    lo, hi = exact.min(), exact.max()
    bounds = ctx.call(get_value_bounds, values)
    ctx.check(tuple(float(b) for b in bounds) == (lo, hi), "wrong bounds", got=bounds)
    got = np.asarray(ctx.call(linear_mapping, values), dtype=np.float64)
    ctx.check(got.shape == values.shape, "not one value per pixel", got=got.shape)
    ctx.check(bool(np.all((got >= 0) & (got <= 1))), "a value is not between 0 and 1", got=got)
    want = np.full(values.shape, 0.5) if hi == lo else (exact - lo) / (hi - lo)
    ctx.check(bool(np.all(np.abs(got - want) <= 1e-5)), "not a linear mapping", got=got, want=want)
    if np.all(exact >= 0):
        got = ctx.call(histogram_stretch_mag_values, values, scale_factor=case["factor"])
        check_display(ctx, got, stretch(exact, case["factor"]), exact)
    got = ctx.call(quarter_power_mag_values, values, scale_factor=case["factor"])
    check_display(ctx, got, quarter(exact, case["factor"]), np.abs(exact))
    if case["factor"] == 8.0:
        # the documented defaults, and a mean that the caller has from more pixels
        if np.all(exact >= 0):
            check_display(ctx, ctx.call(histogram_stretch_mag_values, values), stretch(exact, 8.0), exact)
        check_display(ctx, ctx.call(quarter_power_mag_values, values), quarter(exact, 3.0), np.abs(exact))
        for mean in (0.25, 17.0):
            got = ctx.call(quarter_power_mag_values, values, precomputed_mean=mean)
            check_display(ctx, got, quarter(exact, 3.0, mean), np.abs(exact))
            got = ctx.call(quarter_power_mag_values, values, 5.0, mean)
            check_display(ctx, got, quarter(exact, 5.0, mean), np.abs(exact))
    positive = exact > 0
    db = np.asarray(ctx.call(power_value_in_decibels, np.where(positive, values, 1).astype(case["dtype"])), dtype=np.float64)
    want = 10 * np.log10(np.where(positive, exact, 1))
    ctx.check(bool(np.all(np.abs(db - want) <= 1e-2)), "wrong decibels", got=db, want=want)
    ctx.check(np.array_equal(values, given), "the values were changed")
    ctx.state(case["dtype"], case["values"], case["factor"])


def magnitude_cases(length):
    def gen():
        for dtype, alphabet in (
            ("float64", MAGNITUDES),
            ("float32", MAGNITUDES),
            ("uint16", [0, 1, 2, 300, 65535]),
            ("int16", [-500, -4, 0, 9, 32767]),
            ("uint8", [0, 1, 128, 255]),
        ):
            for n in range(1, length + 1):
                for values in itertools.product(alphabet, repeat=n):
                    for factor in (8.0, 3.0):
                        yield {"dtype": dtype, "values": [list(values)], "factor": factor}
            # more pixels, in other shapes
            for values in itertools.product(alphabet, repeat=2):
                for shape in ([7], [3, 2, 4], [130, 120]):
                    yield {"dtype": dtype, "values": [list(values)], "factor": 8.0, "repeat": shape}

    return gen


def run_nonfinite(ctx, case):
    """Samples that are not finite do not take part in the mean."""
    values = np.array(case["values"], dtype=np.float64)
    for fn, ref in ((histogram_stretch_mag_values, stretch), (quarter_power_mag_values, quarter)):
        got = ctx.call(fn, values, scale_factor=case["factor"])
        check_display(ctx, got, ref(values, case["factor"]), values)
    ctx.state(case["values"])


def nonfinite_cases():
    for values in itertools.product([1.0, 4.0, 100.0, float("inf"), float("nan")], repeat=4):
        if any(np.isfinite(values)):
            for factor in (8.0, 3.0):
                yield {"values": list(values), "factor": factor}


def run_large(ctx, case):
    """Images of many pixels, of which no part has the mean of the whole."""
    h, w = case["shape"]
    n = np.arange(h * w, dtype=np.float64).reshape(h, w)
    base = {
        "ramp": n / (h * w) * 300,
        "corner": np.where(n < h * w / 7, 400.0, 1.0),
        "last": np.where(n == h * w - 1, 30000.0, 1.0),
        "stripes": np.where(n.astype(int) % 16 == 0, 500.0, 2.0),
    }[case["pattern"]]
    pixels = np.stack([base, -base / 2]).astype(case["dtype"])
    given = pixels.copy()
    exact = (pixels.astype(np.float64) ** 2).sum(axis=0)
    for pixel_type in (None, "RE32F_IM32F", "RE16I_IM16I"):
        got = ctx.call(image_pixels_to_complex, pixels, pixel_type)
        ctx.check(np.array_equal(got, given), "stored complex values were changed")
    if case["dtype"] == "int16":
        amp = (np.stack([n, n // 256]) % 256).astype(np.uint8)
        for kind in (None, "array"):
            lut = table(kind)
            amplitude = amp[0].astype(np.float64) if lut is None else lut[amp[0]]
            angle = 2 * np.pi * amp[1].astype(np.float64) / 256
            got = ctx.call(image_pixels_to_complex, amp, "AMP8I_PHS8I", lut)
            ctx.check(near(got, np.array([amplitude * np.cos(angle), amplitude * np.sin(angle)]), 3000), "not the complex value of the amplitude and phase")
            check_display(ctx, ctx.call(histogram_stretch, amp, "AMP8I_PHS8I", lut), stretch(amplitude**2, 8.0), amplitude**2)
    got = ctx.call(complex_to_power_value, pixels)
    ctx.check(near(got, exact), "not the power of the complex values")
    check_display(ctx, ctx.call(histogram_stretch, pixels), stretch(exact, 8.0), exact)
    check_display(ctx, ctx.call(quarter_power_image, pixels), quarter(exact, 3.0), exact)
    check_display(ctx, ctx.call(quarter_power_image, pixels, precomputed_mean=11.0), quarter(exact, 3.0, 11.0), exact)
    ctx.check(np.array_equal(pixels, given), "the pixels were changed")
    ctx.state(case["shape"], case["pattern"], case["dtype"])


def run_layout(ctx, case):
    """Pixels as a line, as a stack, and as views of arrays that are stored in another order or reversed."""
    n = 24
    i = np.arange(2 * n)
    values = ((i * 37 + i * i) % 200).reshape(2, n)
    if not case["dtype"].startswith("u"):
        values = values - 90
    if case["extreme"] is not None:
        values = values.astype(np.float64)
        values[0, 3], values[1, 17] = case["extreme"]
    values = values.astype(case["dtype"])
    plain = values.reshape(2, 4, 6)
    pixels = {
        "line": lambda: values,
        "stack": lambda: values.reshape(2, 2, 3, 4),
        "transposed": lambda: np.array(plain.transpose(0, 2, 1)).transpose(0, 2, 1),
        "band last": lambda: np.array(plain.transpose(1, 2, 0)).transpose(2, 0, 1),
        "every other": lambda: np.repeat(plain, 2, axis=2)[:, :, ::2],
        "reversed": lambda: np.array(plain[:, ::-1, ::-1])[:, ::-1, ::-1],
        "read only": lambda: plain,
        "big endian": lambda: plain.astype(plain.dtype.newbyteorder(">")),
    }[case["layout"]]()
    if case["layout"] == "read only":
        pixels.flags.writeable = False
    given = pixels.copy()
    for pixel_type in (None, "RE32F_IM32F", "RE16I_IM16I"):
        got = ctx.call(image_pixels_to_complex, pixels, pixel_type)
        ctx.check(np.array_equal(got, given, equal_nan=case["dtype"].startswith("float")), "stored complex values were changed", got=got)
    exact = (pixels.astype(np.float64) ** 2).sum(axis=0)
    got = ctx.call(complex_to_power_value, pixels)
    finite = np.isfinite(exact)
    ctx.check(near(np.asarray(got)[finite], exact[finite]), "not the power of the complex values", got=got, want=exact)
    check_display(ctx, ctx.call(histogram_stretch, pixels), stretch(exact, 8.0), exact)
    check_display(ctx, ctx.call(quarter_power_image, pixels), quarter(exact, 3.0), exact)
    check_display(ctx, ctx.call(quarter_power_image, pixels, precomputed_mean=11.0), quarter(exact, 3.0, 11.0), exact)
    if case["dtype"] == "uint8":
        for kind in (None, "array"):
            lut = table(kind)
            amplitude = pixels[0].astype(np.float64) if lut is None else np.asarray(lut)[pixels[0]]
            angle = 2 * np.pi * pixels[1].astype(np.float64) / 256
            got = ctx.call(image_pixels_to_complex, pixels, "AMP8I_PHS8I", lut)
            ctx.check(near(got, np.array([amplitude * np.cos(angle), amplitude * np.sin(angle)]), 300), "not the complex value of the amplitude and phase")
            check_display(ctx, ctx.call(quarter_power_image, pixels, "AMP8I_PHS8I", lut), quarter(amplitude**2, 3.0), amplitude**2)
    ctx.check(np.array_equal(pixels, given, equal_nan=case["dtype"].startswith("float")), "the pixels were changed")
    ctx.state(case["layout"], case["dtype"], case["extreme"])


def layout_cases():
    inf, nan = float("inf"), float("nan")
    for layout in ("line", "stack", "transposed", "band last", "every other", "reversed", "read only", "big endian"):
        for dtype in TYPES:
            extremes = [None]
            if dtype.startswith("float"):
                extremes += [(inf, 5.0), (-inf, inf), (nan, 3.0), (nan, inf), (-0.0, 1e-30)]
            for extreme in extremes:
                yield {"layout": layout, "dtype": dtype, "extreme": extreme}


def large_cases():
    for shape in ([1, 1000], [37, 5], [64, 64], [300, 517], [1100, 1050]):
        for pattern in ("ramp", "corner", "last", "stripes"):
            for dtype in ("int16", "float32", "float64"):
                yield {"shape": shape, "pattern": pattern, "dtype": dtype}


def run_unknown(ctx, case):
    pixels = np.zeros((2, 1, 1), dtype=np.uint8)
    ctx.call_raises(ValueError, image_pixels_to_complex, pixels, case["type"])
    ctx.call_raises(ValueError, histogram_stretch, pixels, pixel_type=case["type"])
    ctx.call_raises(ValueError, quarter_power_image, pixels, pixel_type=case["type"])


def run_amp_display(ctx, case):
    """The display functions convert amplitude and phase pixels first."""
    pixels = np.array(case["pixels"], dtype=np.uint8).T.reshape(2, 1, -1)
    lut = table(case["table"])
    amplitude = pixels[0].astype(np.float64) if lut is None else np.asarray(lut)[pixels[0]]
    power = amplitude**2
    got = ctx.call(histogram_stretch, pixels, "AMP8I_PHS8I", lut)
    check_display(ctx, got, stretch(power, 8.0), power)
    got = ctx.call(quarter_power_image, pixels, "AMP8I_PHS8I", lut)
    check_display(ctx, got, quarter(power, 3.0), power)
    got = ctx.call(quarter_power_image, pixels, "AMP8I_PHS8I", lut, precomputed_mean=7.0)
    check_display(ctx, got, quarter(power, 3.0, 7.0), power)
    ctx.state(case["table"], case["pixels"])


def amp_display_cases():
    pairs = list(itertools.product([0, 1, 17, 200, 255], [0, 1, 64, 200, 255]))
    for kind in (None, "array", "list"):
        for n in (1, 2):
            for pixels in itertools.product(pairs, repeat=n):
                yield {"table": kind, "pixels": [list(p) for p in pixels]}


def spaces(tier):
    quick = tier == "quick"
    amps = [{"amplitude": a, "table": t, "dtype": d} for a in range(256) for t in (None, "array", "list") for d in ("uint8", "int32")]
    amps += [{"amplitude": a, "table": t, "dtype": "uint8"} for t in ("short", "long", "integers") for a in range(256) if t != "short" or a < 200]
    small = [t for t in TYPES if t in ("uint8", "uint16", "int32", "float64")]
    return [
        Space("amplitude-phase", amps, run_amp_phase, bound="all 65536 pixels, with and without amplitude table"),
        Space("amplitude-display", lambda: amp_display_cases(), run_amp_display, bound="all images of up to 2 pixels over 25 pixels"),
        Space("pixels", pixel_cases(2 if quick else 3, TYPES), run_pixels, bound="7 sample types, all images of up to 2 (3) pixels over the extreme samples"),
        Space("more-pixels", pixel_cases(3 if quick else 4, small), run_pixels, bound="4 sample types, all images of up to 3 (4) pixels"),
        Space("magnitudes", magnitude_cases(3 if quick else 5), run_magnitudes, bound="all images of up to 3 (5) magnitudes"),
        Space("non-finite", lambda: nonfinite_cases(), run_nonfinite, bound="all images of 4 values with infinite ones"),
        Space("layouts", lambda: layout_cases(), run_layout, bound="8 layouts of the pixels in memory, 7 sample types, samples that are not finite"),
        Space("large", large_cases, run_large, bound="5 image sizes up to 1100x1050, 4 patterns, 3 sample types"),
        Space("unknown", [{"type": t} for t in ("", "RE32F", "amp8i_phs8i", "AMP8I_PHS8I ", "MONO8I")], run_unknown, bound="5 unknown pixel types"),
    ]
