"""C13: a sectioned RSM sensor model always asks the section the coordinate lies in, or the nearest one."""

import itertools
import math

from mc import tre
from mc.core import Space, product

from aws.osml.gdal import SensorModelFactory
from aws.osml.photogrammetry import (
    ConstantElevationModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    RSMContext,
    RSMGroundDomain,
    RSMGroundDomainForm,
    RSMImageDomain,
    RSMLowOrderPolynomial,
    RSMSectionedPolynomialSensorModel,
    SensorModel,
    WorldCoordinate,
)

from checks.c10 import RSM_PLACES, SIZE, UNIT, near, rsm, to_domain


class Section(SensorModel):
    def __init__(self, row, col):
        super().__init__()
        self.row, self.col, self.calls = row, col, []

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.calls.append((tuple(image_coordinate.coordinate), elevation_model, options))
        return GeodeticWorldCoordinate([self.row * 0.1, self.col * 0.1, 7.0])

    def world_to_image(self, world_coordinate):
        self.calls.append(tuple(world_coordinate.coordinate))
        return ImageCoordinate([self.col, self.row])


def section_of(value, start, size, count):
    """The section of a coordinate, counted from 0: sections are half open and the first and last extend to infinity."""
    index = 0
    while index + 1 < count and value >= start + (index + 1) * size:
        index += 1
    return index


def positions(start, size, count):
    """On, just before, just after and between all the boundaries, and far outside."""
    edges = [start + i * size for i in range(count + 1)]
    out = [start - 1e6, start - size - 0.5, start + count * size + 1e6, start + (count + 1.5) * size]
    for e in edges:
        out.extend([e - 1e-6 * max(1, abs(e)), float(e), e + 1e-6 * max(1, abs(e)), e + size / 2])
    return out


def sectioned(rows, cols, origin, sizes, row_poly, col_poly, form="G"):
    vertices = [WorldCoordinate([0.1 * (i & 1), 0.1 * (i >> 1 & 1), 100.0 * (i >> 2)]) for i in range(8)]
    domain = RSMGroundDomain(RSMGroundDomainForm(form), vertices)
    image = RSMImageDomain(origin[0], origin[0] + int(rows * sizes[0]), origin[1], origin[1] + int(cols * sizes[1]))
    sections = [[Section(r, c) for c in range(cols)] for r in range(rows)]
    model = RSMSectionedPolynomialSensorModel(
        RSMContext(domain, image),
        rows,
        cols,
        sizes[0],
        sizes[1],
        RSMLowOrderPolynomial(row_poly),
        RSMLowOrderPolynomial(col_poly),
        sections,
    )
    return model, sections


def run_image(ctx, case):
    rows, cols, origin, sizes = case["rows"], case["cols"], case["origin"], case["sizes"]
    unit = [0.0] * 10
    model, sections = ctx.call(sectioned, rows, cols, origin, sizes, list(unit), list(unit))
    em, options = ConstantElevationModel(1.0), {"initial_guess": [0.1, 0.2]}
    for y in positions(origin[0], sizes[0], rows):
        for x in positions(origin[1], sizes[1], cols):
            w = ctx.call(model.image_to_world, ImageCoordinate([x, y]), em, options)
            r, c = section_of(y, origin[0], sizes[0], rows), section_of(x, origin[1], sizes[1], cols)
            got = (round(float(w.longitude) * 10), round(float(w.latitude) * 10))
            ctx.check(got == (r, c), "another section was asked", pixel=(x, y), got=got, want=(r, c))
            at, e, o = sections[r][c].calls[-1]
            ctx.check(at == (x, y) and e is em and o == {"initial_guess": [0.1, 0.2]}, "the question was changed", at=at, e=e, o=o)
            ctx.check(float(w.elevation) == 7.0, "the answer was changed")
            ctx.state("image", rows, cols, origin, sizes, x, y)
    w = ctx.call(model.image_to_world, ImageCoordinate([0.0, 0.0]))
    total = sum(len(s.calls) for line in sections for s in line)
    ctx.check(total == 1 + len(positions(0, 1, rows)) * len(positions(0, 1, cols)), "more than one section was asked")


def run_world(ctx, case):
    """world_to_image goes by the low order polynomials, whatever terms they have."""
    rows, cols, origin, sizes = case["rows"], case["cols"], case["origin"], case["sizes"]
    # the coarse row depends on one term only; the coarse column on another
    at = [(0.03, 0.05, 40.0), (0.07, 0.02, -30.0), (-0.06, 0.09, 90.0), (0.0, 0.0, 0.0), (-0.4, 1.45, 5200.0), (2.9, -1.5, -250.0)]
    for k, (x, y, z) in enumerate(at):
        i, j, l = tre.LOW_POWERS[case["term"]]
        factor = x**i * y**j * z**l
        for want_row in positions(origin[0], sizes[0], rows):
            row_poly, col_poly = [0.0] * 10, [0.0] * 10
            if factor == 0.0:
                row_poly[case["term"]] = 123.0  # does not matter
                row_poly[0] = want_row if case["term"] != 0 else want_row
            else:
                row_poly[case["term"]] = want_row / factor
            col_poly[9 - case["term"]] = 31.0
            col_poly[0] += 17.0
            model, sections = ctx.call(sectioned, rows, cols, origin, sizes, row_poly, col_poly, case["form"])
            row = tre.polynomial(tre.LOW_POWERS, row_poly, x, y, z)
            col = tre.polynomial(tre.LOW_POWERS, col_poly, x, y, z)
            want = (section_of(row, origin[0], sizes[0], rows), section_of(col, origin[1], sizes[1], cols))
            edges = [origin[0] + n * sizes[0] for n in range(rows + 1)]
            if min(abs(row - e) for e in edges) < 1e-9 * max(1.0, abs(row)):
                continue  # the last bit of a sum decides
            c = GeodeticWorldCoordinate([x, y, z])
            if case["form"] == "H" and x < 0:
                row = tre.polynomial(tre.LOW_POWERS, row_poly, x + 2 * math.pi, y, z)
                col = tre.polynomial(tre.LOW_POWERS, col_poly, x + 2 * math.pi, y, z)
                want = (section_of(row, origin[0], sizes[0], rows), section_of(col, origin[1], sizes[1], cols))
            p = ctx.call(model.world_to_image, c)
            ctx.check((int(p.y), int(p.x)) == want, "another section was asked", got=(p.y, p.x), want=want, coarse=(row, col))
            ctx.check(sections[want[0]][want[1]].calls == [(x, y, z)], "the question was changed", calls=sections[want[0]][want[1]].calls)
            ctx.state("world", case["term"], rows, cols, k, want_row)


# -- from metadata ---------------------------------------------------------------------------------------------------
def metadata(form, rows, cols, order, missing=(), pi=True, base=(0, 0), coarse=None):
    """Sections that only differ in their constant column term, so that it tells which one answered."""
    _, info = rsm(form, 0, (1, 1, 1))
    corners = [(x, y, z) for z in (-0.5, 0.5) for y in (-1.6, 1.6) for x in (-1.6, 1.6)]
    vertices = [tuple(c + s * f for c, s, f in zip(info["centre"], info["scale"], corner)) for corner in corners]
    elements = []
    for r, c in order:
        if (r, c) in missing:
            continue
        polynomials = {n: (p, list(k)) for n, (p, k) in info["polynomials"].items()}
        polynomials["CN"][1][0] += 0.001 * (10 * r + c)
        elements.append(tre.rsmpc_tre((r, c), info["norm"], polynomials))
    # coarse row and column: the linear part of the camera, over the un-normalised ground coordinates
    n = info["norm"]
    row = [n["RNRMO"] + n["YNRMO"] / n["YNRMSF"] * n["RNRMSF"], 0, -n["RNRMSF"] / n["YNRMSF"], 0] + [0.0] * 6
    col = [n["CNRMO"] - n["XNRMO"] / n["XNRMSF"] * n["CNRMSF"], n["CNRMSF"] / n["XNRMSF"], 0, 0] + [0.0] * 6
    if coarse is not None:
        row, col = coarse(info)
    if pi:
        elements.append(tre.rsmpi_tre((rows, cols), (SIZE[1] / rows, SIZE[0] / cols), row, col))
    domain = (base[0], base[0] + SIZE[1], base[1], base[1] + SIZE[0])
    elements.append(tre.rsmid_tre(form, vertices, domain, info["origin"], info["vectors"], None))
    return tre.tres(*elements), info, row, col


def run_metadata(ctx, case):
    rows, cols, form = case["rows"], case["cols"], case["form"]
    base = tuple(case["base"])
    root, info, row, col = metadata(form, rows, cols, [tuple(o) for o in case["order"]], base=base)
    model = ctx.call(SensorModelFactory(*SIZE, xml_tres=root).build)
    ctx.check(model is not None, "no sensor model from valid sectioned RSM metadata")

    def reference(r, c, d):
        polynomials = {n: (p, list(k)) for n, (p, k) in info["polynomials"].items()}
        polynomials["CN"][1][0] += 0.001 * (10 * (r + 1) + c + 1)
        return tre.rsm_reference(info["norm"], polynomials, *d)

    for u, v, w in UNIT + [(-0.95, -0.9, 0.1), (0.2, -0.2, 0.0), (2.5, 2.5, 0.0), (-2.5, -2.5, 0.0), (0.9, -0.95, 0.3)]:
        lon, lat, h = near(form, 0, u, v, w)
        d = to_domain(form, info, lon, lat, h)
        r = section_of(tre.polynomial(tre.LOW_POWERS, row, *d), base[0], SIZE[1] / rows, rows)
        c = section_of(tre.polynomial(tre.LOW_POWERS, col, *d), base[1], SIZE[0] / cols, cols)
        want = reference(r, c, d)
        got = ctx.call(model.world_to_image, GeodeticWorldCoordinate([lon, lat, h]))
        ctx.check(abs(got.x - want[0]) < 1e-3 and abs(got.y - want[1]) < 1e-3, "not the answer of the section", got=got.coordinate, want=want, section=(r, c))
        ctx.state("metadata", form, rows, cols, base, u, v, w)
    for fx, fy in ((0.1, 0.2), (0.6, 0.3), (0.45, 0.95), (0.85, 0.7)):
        x, y = base[1] + fx * SIZE[0], base[0] + fy * SIZE[1]
        r = section_of(y, base[0], SIZE[1] / rows, rows)
        c = section_of(x, base[1], SIZE[0] / cols, cols)
        g = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
        back = reference(r, c, to_domain(form, info, g.longitude, g.latitude, g.elevation))
        ctx.check(math.hypot(back[0] - x, back[1] - y) <= 0.5, "not the location of the section", pixel=(x, y), got=back, section=(r, c))


def run_terms(ctx, case):
    """Each coefficient of the coarse polynomials in the metadata is applied to its own term."""
    rows, cols, form, axis = 3, 4, case["form"], case["axis"]
    places = [(u / 2, v / 2, w) for u in (-2, -1, 0, 1, 2) for v in (-2, -1, 0, 1, 2) for w in (-0.4, 0.1, 0.4)]
    ground = [near(form, 0, *p) for p in places]
    powers = tre.LOW_POWERS[case["term"]]
    count, size = (rows, SIZE[1] / rows) if axis == "row" else (cols, SIZE[0] / cols)

    def coarse(info):
        values = [math.prod(v**e for v, e in zip(to_domain(form, info, *g), powers)) for g in ground]
        low, high = min(values), max(values)
        factor = count * size / (high - low) if high > low else 0.0
        one = [0.0] * 10
        one[case["term"]] = factor
        one[0] += 0.5 * size - factor * low if factor else 1.5 * size
        other = [0.5] + [0.0] * 9
        return (one, other) if axis == "row" else (other, one)

    every = [(r, c) for r in range(1, rows + 1) for c in range(1, cols + 1)]
    root, info, row, col = metadata(form, rows, cols, every, coarse=coarse)
    model = ctx.call(SensorModelFactory(*SIZE, xml_tres=root).build)
    ctx.check(model is not None, "no sensor model from valid sectioned RSM metadata")
    seen = set()
    for g in ground:
        d = to_domain(form, info, *g)
        at = tre.polynomial(tre.LOW_POWERS, row if axis == "row" else col, *d)
        if abs(at / size - round(at / size)) < 1e-3:
            continue  # next to a boundary
        index = section_of(at, 0, size, count)
        r, c = (index, 0) if axis == "row" else (0, index)
        polynomials = {n: (p, list(k)) for n, (p, k) in info["polynomials"].items()}
        polynomials["CN"][1][0] += 0.001 * (10 * (r + 1) + c + 1)
        want = tre.rsm_reference(info["norm"], polynomials, *d)
        got = ctx.call(model.world_to_image, GeodeticWorldCoordinate(list(g)))
        ctx.check(abs(got.x - want[0]) < 1e-3 and abs(got.y - want[1]) < 1e-3, "not the answer of the section", got=got.coordinate, want=want, section=(r, c))
        seen.add(index)
        ctx.state("terms", form, axis, case["term"], g)
    assert len(seen) > 1 or case["term"] == 0, (case, seen)


def run_incomplete(ctx, case):
    rows, cols = case["rows"], case["cols"]
    every = [(r, c) for r in range(1, rows + 1) for c in range(1, cols + 1)]
    root, info, _, _ = metadata("R", rows, cols, every, missing={tuple(m) for m in case["missing"]}, pi=case["pi"])
    model = ctx.call(SensorModelFactory(*SIZE, xml_tres=root).build)
    present = rows * cols - len(case["missing"])
    ctx.state("incomplete", rows, cols, case["missing"], case["pi"])
    if present == 1:
        ctx.check(model is not None, "one section stands for the whole image")
    elif case["missing"] or not case["pi"]:
        ctx.check(model is None, "a sensor model with holes in it")
    else:
        ctx.check(model is not None, "no sensor model")


def spaces(tier):
    quick = tier == "quick"
    top = 3 if quick else 5
    origins = [(0, 0), (100, 2000), (0, 700)]
    sizes = [(512.0, 256.0), (1000.5, 333.25), (1.0, 7.0)]

    def metadata_cases():
        for form in RSM_PLACES:
            for rows, cols in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
                every = [(r, c) for r in range(1, rows + 1) for c in range(1, cols + 1)]
                orders = list(itertools.permutations(every)) if len(every) <= 4 else [every, every[::-1], every[3:] + every[:3]]
                for order in orders:
                    for base in ([0, 0], [500, 300]):
                        yield dict(form=form, rows=rows, cols=cols, order=[list(o) for o in order], base=base)

    def incomplete_cases():
        for rows, cols in ((1, 2), (2, 1), (2, 2), (2, 3)):
            every = [[r, c] for r in range(1, rows + 1) for c in range(1, cols + 1)]
            for n in range(0, len(every)):
                for missing in itertools.combinations(every, n):
                    for pi in (True, False):
                        yield dict(rows=rows, cols=cols, missing=list(missing), pi=pi)

    return [
        Space(
            "image",
            lambda: product(rows=range(1, top + 1), cols=range(1, top + 1), origin=origins, sizes=sizes),
            run_image,
            bound=f"up to {top}x{top} sections, every boundary from both sides, outside in all directions",
        ),
        Space(
            "world",
            lambda: product(term=range(10), rows=range(1, top + 1), cols=[1, 2] if quick else range(1, top + 1), origin=origins, sizes=sizes[:2], form=["G", "H"]),
            run_world,
            bound="each of the 10 low order terms",
        ),
        Space("metadata", metadata_cases, run_metadata, bound="up to 2x3 sections, all orders of up to 4 TREs, 3 ground domain forms"),
        Space("terms", lambda: product(form=list(RSM_PLACES), axis=["row", "col"], term=range(10)), run_terms, bound="each coefficient of RSMPIA, 3 ground domain forms"),
        Space("incomplete", incomplete_cases, run_incomplete, bound="all subsets of up to 6 sections, with and without RSMPIA"),
    ]
