"""Writes properties.jsonl and MANIFEST.json (run it after editing the tables below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aws/osml/"
IP, GD, PH, FE = S + "image_processing/", S + "gdal/", S + "photogrammetry/", S + "features/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop(
    "C01",
    "A tile holds exactly the pixels of the window it was requested for",
    "For every window inside the image, every source format, pixel type and band count, a tile encoded losslessly (NITF, GeoTIFF, PNG; no compression or LZW) decodes to the requested format with exactly the size, bands, pixel type and pixel values of that window. "
    "With an output size the tile has that size and shows the pixels of that window and no others, and lossy encodings (JPEG, JPEG2000) stay close to the window.",
    ["inputs", "configurations"],
    "all windows, output sizes, formats, compressions, pixel types, band counts and source drivers",
    "The tests cut a handful of windows from two images (most of which need Git LFS data) and compare sizes rather than pixels.",
    [IP + "gdal_tile_factory.py"],
    [("GDALTileFactory.create_encoded_tile", IP + "gdal_tile_factory.py"), ("creation options per format", IP + "gdal_tile_factory.py")],
    "exhaustive enumeration of tile requests on the real factory against a window oracle",
    "Every case within the bounds is executed on the real code through GDAL; GDAL is trusted as encoder's counterpart (decoder).",
)
prop(
    "C02",
    "What a tile request returns does not depend on earlier requests",
    "The answer to a tile or orthophoto request on a tile factory is the same whatever requests (valid, resized, refused or failing) were made before it on that factory or on another factory of the same or of another dataset, or are made meanwhile by another thread on a dataset and factory of its own, with GDAL exceptions enabled or disabled. A tile whose pixels cannot be read is refused or empty, never returned in part. "
    "No request changes the source dataset, its metadata, the viewpoint request or GDAL's configuration, nor leaves temporary files behind in GDAL's virtual file system.",
    ["histories", "schedules", "configurations"],
    "all histories of tile requests up to a depth, for plain, SICD and SIDD sources and all kinds of requests",
    "The tests make one request per factory; state carried from request to request (metadata templates, temporary files, updater trees) is never exercised.",
    [IP + "gdal_tile_factory.py", IP + "sicd_updater.py", IP + "sidd_updater.py"],
    [("per request metadata copy and unlink of the temporary file", IP + "gdal_tile_factory.py"), ("SICDUpdater / SIDDUpdater XML trees", IP + "sidd_updater.py")],
    "explicit-state exploration of all request histories on the real factory (replay from a fresh factory as the oracle)",
    "All histories within the bound are executed; the oracle is the answer of a fresh factory, whose correctness C01/C03/C04/C25 decide.",
)
prop(
    "C03",
    "The metadata of a tile locates its pixels where the source image has them",
    "A tile of a SICD, SIDD, geo-referenced or RPC image, opened as an image of its own, places each of its pixels at the location where the source image places that pixel, for tiles of tiles too and, for SIDD, for tiles of a different resolution. "
    "SICD and SIDD metadata of a tile stays complete: it keeps everything but the chip's size, position and chip parameters, and the segment header of the XML is carried over; the tile's header declares a SAR image, with I and Q bands for SICD. A SICD tile at another resolution than its window is refused.",
    ["inputs", "histories", "configurations"],
    "all chains of windows (chips of chips) up to a depth, output sizes, and kinds of source metadata",
    "The tests compare one chip's XML fields for one SICD and one SIDD document; no test re-opens a tile and compares locations.",
    [IP + "gdal_tile_factory.py", IP + "sicd_updater.py", IP + "sidd_updater.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py", GD + "gdal_utils.py"],
    [("SICDUpdater.update_image_data_for_chip", IP + "sicd_updater.py"), ("SIDDUpdater.update_image_data_for_chip", IP + "sidd_updater.py"), ("chip handling of the builders", GD + "sicd_sensor_model_builder.py")],
    "exhaustive enumeration of chip chains on the real code; locations of the re-opened tile against those of the source",
    "Two known findings (NITF tiles of RPC00B sources) are listed in known_findings.json; everything else within the bounds is decided on the real code.",
)
prop(
    "C04",
    "The header of a NITF tile gives the corners of the tile's window",
    "When a sensor model is known, the header of a NITF tile gives the geographic positions of the corners of the requested window (upper left, upper right, lower right, lower left) to within one arc second, in every hemisphere and whatever requests came before. "
    "Without a sensor model the header states no corners.",
    ["inputs", "histories"],
    "all windows of an image under sensor models in all quadrants and orientations",
    "The tests look at one tile of one image north of the equator.",
    [IP + "gdal_tile_factory.py", PH + "coordinates.py"],
    [("NITF IGEOLO creation option", IP + "gdal_tile_factory.py"), ("GeodeticWorldCoordinate.to_dms_string", PH + "coordinates.py")],
    "exhaustive enumeration of windows and models on the real factory against an independent IGEOLO decoder",
    "Every window of a 6x5 image under 15 models is executed.",
)
prop(
    "C05",
    "The text forms of a location agree with the location",
    "The degrees-minutes-seconds text of every location is in the form ddmmssXdddmmssY, with minutes and seconds below 60, and is the location truncated to a whole arc second with the right hemispheres. "
    "Every combination of format directives yields exactly the fields those directives name, in order, with all other text unchanged.",
    ["inputs", "programs"],
    "all angles in steps of tenths of arc seconds on both axes; all format strings of up to several directives",
    "The tests format three locations; carries, signs, small negative angles and directive combinations are unreached.",
    [PH + "coordinates.py"],
    [("GeodeticWorldCoordinate.__format__ / to_dms_string", PH + "coordinates.py")],
    "exhaustive enumeration of angles and format strings against an integer-arithmetic oracle",
    "Every angle of the stated step and all directive sequences up to the stated length are executed on the real code.",
)
prop(
    "C06",
    "The elevation tile of a location is the one degree cell that contains it",
    "For every location on earth the SRTM and the generic DEM tile sets name the file of the one degree cell (south-west corner) that contains the location, under every naming convention, and two locations get the same name only if they share the cell. "
    "Locations outside the coverage of SRTM (latitudes of -56 to below 60 degrees) get no tile.",
    ["inputs", "configurations"],
    "all 64800 one degree cells, places at their corners and centres, naming conventions",
    "The tests ask for one or two cells of the north-western hemisphere.",
    [PH + "srtm_dem_tile_set.py", PH + "generic_dem_tile_set.py"],
    [("SRTMTileSet.find_tile_id", PH + "srtm_dem_tile_set.py"), ("GenericDEMTileSet.find_tile_id", PH + "generic_dem_tile_set.py")],
    "exhaustive enumeration of every one degree cell against a naming oracle",
    "All cells are executed.",
)
prop(
    "C07",
    "The cache of an elevation model cannot be observed in its answers",
    "Whatever the history of queries and however threads interleave, a digital elevation model answers as if every query read its tile anew: right elevation and region summary where there is a tile, coordinates untouched and no summary where there is none. "
    "No more tiles than the cache size are kept, tiles within it are not loaded again, and a tile that could not be loaded is a missing one without spoiling other queries.",
    ["histories", "schedules", "fault_sequences"],
    "all query histories up to a depth for several cache sizes with missing and failing tiles, all two- and three-thread schedules up to a preemption bound",
    "The tests ask twice for one tile in one thread; no eviction, no failure, no concurrency.",
    [PH + "digital_elevation_model.py"],
    [("DigitalElevationModel.get_interpolation_grid (LRU cache and lock)", PH + "digital_elevation_model.py")],
    "explicit-state exploration of query histories plus stateless exploration of all thread schedules (preemption bounded) under a controlled scheduler",
    "The real code runs under a scheduler that can preempt at every line of the toolkit and of cachetools; the GIL's line granularity is assumed.",
)
prop(
    "C08",
    "Elevations are the posts of the right raster, and exact where there is one",
    "A digital elevation model over raster files gives at every location the bilinear interpolation of the nearest posts (which lie in the middle of their pixels) of the file that covers it, for every pixel type and file layout, and its region summary gives the exact minimum and maximum, the no-data value and the post spacing of that file. "
    "A no-data post is never taken for an elevation. Where there is no file, or it cannot be read, or the posts needed are no-data, it leaves the location untouched whether or not GDAL exceptions are enabled.",
    ["inputs", "configurations", "fault_sequences"],
    "all small elevation arrays, geo transforms, locations, pixel types, missing and unreadable files",
    "The one test reads a fixture that needs Git LFS and samples a few posts.",
    [GD + "gdal_dem_tile_factory.py", PH + "digital_elevation_model.py"],
    [("GDALDigitalElevationModelTileFactory.get_tile", GD + "gdal_dem_tile_factory.py"), ("bilinear grid", PH + "digital_elevation_model.py")],
    "exhaustive enumeration of elevation rasters and query points on the real code against an independent bilinear oracle",
    "All arrays within the bounds are written, read and queried.",
)
prop(
    "C09",
    "Transform based sensor models map as defined and invert each other",
    "Affine models place pixels where the geo transform and the map projection place them, in WGS 84 radians; projective models fit their tie points; chipped models are the full image's model seen through the chip's corner points; composite models answer as their precise part does, which gets the approximate part's answer as initial guess. "
    "Both directions of each model are inverse to each other for every pixel, and an elevation model, if given, decides the elevation; a geo transform without an inverse is refused.",
    ["inputs", "configurations"],
    "all shapes of geo transforms, map projections, tie point orders, chip layouts and pixels of the bounds",
    "The tests take one geo transform, one projective quadrilateral and one chip.",
    [PH + "gdal_sensor_model.py", PH + "projective_sensor_model.py", PH + "chipped_image_sensor_model.py", PH + "composite_sensor_model.py", PH + "transforms.py"],
    [("GDALAffineSensorModel", PH + "gdal_sensor_model.py"), ("ProjectiveTransform", PH + "transforms.py"), ("CompositeSensorModel", PH + "composite_sensor_model.py")],
    "exhaustive enumeration of models and pixels on the real code against independent transforms (pyproj, closed form)",
    "All cases of the bounds are executed.",
)
prop(
    "C10",
    "RPC and RSM sensor models are the polynomials of their metadata",
    "The pixel of every location is the ratio of the polynomials given by the RPC00B or RSM metadata, with every coefficient in its place and every normalisation applied, whichever way the model is built and across the antimeridian. "
    "For every pixel the ground point found lies on the given elevation (or, failing one, the model's reference height) and maps back to the pixel within half a pixel, for all search options.",
    ["inputs", "configurations"],
    "every coefficient and normalisation field, RSM powers, ground domain forms, cameras, pixels, elevation models and options",
    "The tests evaluate one RPC and one RSM example at a few pixels; most coefficients are zero or their order cannot be told.",
    [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", GD + "rpc_sensor_model_builder.py", GD + "rsm_sensor_model_builder.py"],
    [("RPCPolynomial / RSMPolynomial", PH + "rpc_sensor_model.py"), ("image_to_world search", PH + "replacement_sensor_model.py"), ("TRE builders", GD + "rsm_sensor_model_builder.py")],
    "exhaustive enumeration of coefficients, forms, cameras and pixels on the real code against reference polynomials",
    "All cases of the bounds are executed; cameras are near-affine as real ones are.",
)
prop(
    "C11",
    "SAR sensor models satisfy range, range rate and terrain for every pixel",
    "The ground point of a SICD or SIDD pixel has the range and range rate that the metadata defines for that pixel and lies on the terrain (given, or else, and where it has no elevation, the reference surface; where the range/Doppler contour meets the terrain several times, the lowest meeting point), for every image formation, grid type, look side, hemisphere and schema version, also for chips. "
    "Going back to the image gives the pixel to a tenth of a pixel, and ground points stay on the looked-at side of the track.",
    ["inputs", "configurations"],
    "all grid types, look sides, hemispheres, schema versions, chips, pixels and terrains of the bounds",
    "The tests take two SICD files and one SIDD with fixed points; right-looking, mirrored and chipped geometries are not reached.",
    [PH + "sicd_sensor_model.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py"],
    [("COA projection sets", PH + "sicd_sensor_model.py"), ("R/Rdot contour intersections", PH + "sicd_sensor_model.py"), ("builders", GD + "sicd_sensor_model_builder.py")],
    "exhaustive enumeration of SAR geometries and pixels on the real code against an independent range/Doppler evaluator",
    "One known finding (SIDD locations off the reference plane) is listed; everything else in the bounds is decided.",
)
prop(
    "C12",
    "A sensor model's answer depends on the question only",
    "Whatever was asked before, of this model or another, in this thread or concurrently in another thread, a sensor model gives the same answer to the same question, and does not modify the coordinates or options it is given.",
    ["histories", "schedules"],
    "all question sequences up to a depth over all kinds of sensor models, all pairs of models, all two-thread schedules up to a preemption bound",
    "The tests ask each model a fixed sequence in one thread.",
    [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", PH + "sicd_sensor_model.py", PH + "projective_sensor_model.py", PH + "gdal_sensor_model.py", PH + "chipped_image_sensor_model.py", PH + "composite_sensor_model.py"],
    [("stateless sensor models", PH + "sensor_model.py")],
    "explicit-state exploration of question histories plus stateless exploration of thread schedules (preemption bounded)",
    "Real code under a controlled scheduler; the oracle is a fresh model asked the one question.",
)
prop(
    "C13",
    "A sectioned RSM model asks the section a coordinate lies in, or the nearest",
    "For every section layout and every coordinate the sectioned RSM model passes the question, unchanged, to the section that contains the coordinate (sections are half open; the first and last extend outwards), in both directions. "
    "Sections read from metadata are placed by their row and column numbers whatever the order of the metadata, and a layout with a missing section gives no RSM model.",
    ["inputs", "histories"],
    "all section layouts up to a size, coordinates on, before, after and between all boundaries, all orders of the metadata",
    "The tests have one layout and one coordinate per section.",
    [PH + "replacement_sensor_model.py", GD + "rsm_sensor_model_builder.py"],
    [("RSMSectionedPolynomialSensorModel", PH + "replacement_sensor_model.py"), ("RSMSensorModelBuilder", GD + "rsm_sensor_model_builder.py")],
    "exhaustive enumeration of section layouts, boundary positions and metadata orders on the real code",
    "All layouts of the bounds are executed with recording sections and with sections built from TREs.",
)
prop(
    "C14",
    "The best usable metadata decides the sensor model; the rest is ignored",
    "For every combination of metadata the sensor model factory uses SICD/SIDD before RSM before RPC as the precise model and CSCRNA corners before ground control points before the geo transform as the approximate one, combines precise and approximate ones, honours the selected types, and applies ICHIPB chips to whatever was chosen. "
    "Metadata that is absent, incomplete or malformed is treated as absent: it never prevents the use of other metadata, and no usable metadata means no model.",
    ["configurations", "inputs", "fault_sequences"],
    "all subsets of metadata sources, selected types, with and without chips, each source intact or damaged in every field",
    "The tests build a model from one image at a time, with all metadata intact.",
    [GD + "sensor_model_factory.py", GD + "rsm_sensor_model_builder.py", GD + "rpc_sensor_model_builder.py", GD + "projective_sensor_model_builder.py", GD + "gdal_sensor_model_builder.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py", GD + "xmltre_utils.py"],
    [("SensorModelFactory.build", GD + "sensor_model_factory.py"), ("builders returning None", GD + "rsm_sensor_model_builder.py")],
    "exhaustive enumeration of metadata subsets and single-field damage on the real factory, where the location reveals the source used",
    "All subsets and all single-field damages of the bounds are executed.",
)
prop(
    "C15",
    "A temporary GDAL configuration is in effect only inside its block",
    "After leaving a GDAL configuration block, normally or by an exception, every GDAL option has the value it had on entry, including options that were unset; inside the block the requested options and AWS credentials are in effect. "
    "This holds for every nesting, re-entry and reuse of configuration objects; exceptions of the body are passed on.",
    ["histories", "fault_sequences"],
    "all well-formed enter / exit / raise / modify histories up to a depth over several configuration objects",
    "The tests enter one block once.",
    [GD + "gdal_config.py"],
    [("GDALConfigEnv.__enter__ / __exit__", GD + "gdal_config.py")],
    "explicit-state exploration of enter/exit/raise histories on the real code against a stack model",
    "All histories within the bound are executed and compared with the model after every step.",
)
prop(
    "C16",
    "The tiles of a web map tile set partition the world at every zoom level",
    "Every tile of the WebMercatorQuad sets (256 and 512 pixels; rows counted from the south) has the web mercator bounding box of its zoom level, row and column, adjacent tiles share edges without gap or overlap, and the four tiles of the next level fill a tile. "
    "The tile found for a location contains it and exists at that zoom level (locations on or beyond the border get the nearest tile), and the limits found for an area are the smallest that contain all its locations. Unknown tile set names give no tile set.",
    ["inputs", "configurations"],
    "every tile of the lower zoom levels and the border and middle tiles of the deep ones, all subsets of locations",
    "The tests check a few tiles at two zoom levels.",
    [IP + "map_tileset_wmq.py", IP + "map_tileset_factory.py", IP + "map_tileset.py"],
    [("WellKnownMapTileSet / tile math", IP + "map_tileset_wmq.py")],
    "exhaustive enumeration of tiles and areas on the real code against the OGC formulas",
    "All tiles of the bounded zoom levels are executed.",
)
prop(
    "C17",
    "The display range follows from the pixels of the image and is a range",
    "For every histogram the dynamic range parameters hold the smallest and largest used values and a suggested range inside them with min <= max, chosen by the documented percentiles and stretch weights. "
    "For every image the scale parameters per band (none, min-max, dynamic range) follow from the pixels of that band alone and the output type, and full-range byte data needs no change.",
    ["inputs", "configurations"],
    "all small histograms over several counts and bucket ranges, peaks on long ones, all small images, pixel types and band counts",
    "The tests compute one histogram of one shape; constant bands, outliers, single pixels and multi-band images are not reached.",
    [GD + "dynamic_range_adjustment.py", GD + "gdal_utils.py"],
    [("DRAParameters.from_counts", GD + "dynamic_range_adjustment.py"), ("get_type_and_scales", GD + "gdal_utils.py")],
    "exhaustive enumeration of histograms and images on the real code against an independent reference",
    "All histograms and images of the bounds are executed; images of one block, because GDAL may approximate statistics of larger ones.",
)
prop(
    "C18",
    "Equal pixels look equal, and brighter pixels brighter, in all adjusted tiles",
    "In range-adjusted tiles and orthophotos, the output value of a pixel depends only on its source value, band and the statistics of the whole image, not on the tile it is seen in; larger values never become darker, and the chosen range covers the whole 8-bit output range.",
    ["inputs", "histories"],
    "all windows of small images, pixel types, kinds of images, band counts and adjustment types",
    "The tests create single tiles and compare nothing across tiles.",
    [IP + "gdal_tile_factory.py", GD + "gdal_utils.py", GD + "dynamic_range_adjustment.py"],
    [("scale parameters fixed at construction", IP + "gdal_tile_factory.py"), ("orthophoto range adjustment", IP + "gdal_tile_factory.py")],
    "exhaustive enumeration of windows; every tile against the single brightness function of the image",
    "All windows of the bounds are executed.",
)
prop(
    "C19",
    "Complex SAR pixels become power and display values as defined",
    "Every complex pixel (stored as real and imaginary part, or as 8-bit amplitude and phase with or without amplitude table) has the complex value, power and decibels of the SICD definition, without overflow for any sample type; unknown pixel types are refused. "
    "Quarter power images and histogram stretches are between 0 and 255 and proportional to the root of the power, or to the power, over a multiple of the mean of the finite pixels (or a mean given by the caller), zero for images without signal; inputs are not modified.",
    ["inputs"],
    "all 65536 amplitude/phase pixels; all small images over the extreme samples of each type",
    "The tests use a few hand-picked pixels.",
    [IP + "sar_complex_imageop.py"],
    [("image_pixels_to_complex / complex_to_power / quarter power", IP + "sar_complex_imageop.py")],
    "exhaustive enumeration of pixels and small images on the real code against double precision references",
    "All pixels of AMP8I_PHS8I and all small images of the bounds are executed.",
)
prop(
    "C20",
    "A spatial query returns exactly what a scan of the collection would find",
    "For every collection of features and every query geometry, the index returns exactly the features whose image geometry (or geographic geometry, if so selected) intersects the query, each once and as the same object; nearest queries return all the features at the least distance if that is within the maximum distance (50 pixels or 1 degree by default). "
    "Features without such a geometry are never returned and never hide others; features are not modified.",
    ["inputs", "configurations"],
    "all collections of up to several features in all encodings, query geometries and maximum distances",
    "The tests query one collection of two features.",
    [FE + "feature_index.py"],
    [("STRFeature2DSpatialIndex", FE + "feature_index.py")],
    "exhaustive enumeration of collections and queries on the real index against a linear scan",
    "All collections within the bounds are executed.",
)
prop(
    "C21",
    "Geolocated features are where the sensor model places their image geometry",
    "For every list of features the geolocator gives each one the geographic geometry, of the same type and with as many points, in degrees, that the sensor model and elevation model give for its image geometry, interpolated to no more than the error of a linear grid over the features, plus the centre; an image bounding box becomes a geographic bounding box. "
    "This holds for every encoding of the image geometry, across the antimeridian and outside the image; features without image geometry, and all other properties, are left alone.",
    ["inputs", "configurations"],
    "cameras, elevation models, grid sizes, geometry types and encodings, all feature lists up to a length",
    "The tests geolocate one point and one polygon with a mock.",
    [FE + "geolocation.py", FE + "imaged_feature_property_accessor.py"],
    [("Geolocator.geolocate_features", FE + "geolocation.py"), ("LocationGridInterpolator", FE + "geolocation.py")],
    "exhaustive enumeration of feature lists and cameras on the real code against direct evaluation of the camera",
    "All lists within the bounds are executed.",
)
prop(
    "C22",
    "Reading and updating a feature's image geometry follows one precedence",
    "For every combination of image geometry properties of a feature, the accessor finds the geometry by one fixed precedence (image geometry, image bounding box, then, if allowed, the deprecated coordinates, detection and bounds), whatever the order of the properties, and finds none if none is present. "
    "After any history of updates what was last set is read back; updating existing geometries changes exactly those geometry properties that are present (and allowed), setting one changes only that one, and nothing else of the feature is touched.",
    ["histories", "inputs"],
    "all subsets and orders of the properties, all histories of operations up to a depth",
    "The tests read one property at a time.",
    [FE + "imaged_feature_property_accessor.py"],
    [("ImagedFeaturePropertyAccessor", FE + "imaged_feature_property_accessor.py")],
    "explicit-state exploration of operation histories on the real accessor against a property-map model",
    "All histories within the bounds are executed and compared with the model after every step.",
)
prop(
    "C23",
    "Geodetic and geocentric coordinates are WGS 84 and inverse to each other",
    "Conversion from geodetic to geocentric coordinates is that of the WGS 84 ellipsoid everywhere on, above and below the earth, and the conversion back is its inverse. "
    "Coordinates are plain values: each component is read and written by name without effect on others, on copies or on the arrays they were built from, and wrong numbers of components are refused.",
    ["inputs", "histories"],
    "a grid over the whole earth and elevations; all assignment histories up to a depth",
    "The tests convert four points.",
    [PH + "coordinates.py"],
    [("geodetic_to_geocentric / geocentric_to_geodetic", PH + "coordinates.py")],
    "exhaustive enumeration of a global grid and of assignment histories on the real code against closed formulas",
    "All grid points and histories of the bounds are executed.",
)
prop(
    "C24",
    "NITF data extension segments are found and carried over field by field",
    "For every list of data extension segments of an image the accessor finds exactly the segments of the wanted name, in order, with the field values and the XML document each one holds (stored as base64 or expanded), and none where there is none. "
    "The header built for an output file has every field at its defined position and width whatever its length, so that reading it back gives the same fields; a missing field is reported (ValueError) and never shifts the others.",
    ["inputs", "configurations"],
    "every field at every length, pairs of fields, subheader lengths, all lists of segments up to a length, files",
    "The tests need Git LFS data and read one file.",
    [GD + "nitf_des_accessor.py"],
    [("NITFDESAccessor.extract_des_header / get_segments_by_name", GD + "nitf_des_accessor.py")],
    "exhaustive enumeration of segment lists and header fields on the real accessor against the NITF layout",
    "All combinations of the bounds are executed, some through NITF files written and read by GDAL.",
)
prop(
    "C25",
    "An orthophoto shows at each pixel the image at the place of that pixel",
    "An orthophoto or map tile has the requested size and shows at each pixel the source pixel (same band order, at the resolution of the chosen overview) that the sensor model and elevation model assign to the pixel's geographic position, and is transparent where there is no image. "
    "An area that does not meet the image gives no tile.",
    ["inputs", "configurations"],
    "orientations of the image, all bounding boxes over a set of edges, tile sizes, bands, overviews, curvatures",
    "The tests create orthophotos of one image without comparing pixels.",
    [IP + "gdal_tile_factory.py"],
    [("GDALTileFactory.create_orthophoto_tile", IP + "gdal_tile_factory.py")],
    "exhaustive enumeration of areas and cameras on the real factory against a per-pixel oracle",
    "All cases of the bounds are executed; the oracle allows the interpolation error of the factory's 3x3 location grid.",
)
prop(
    "C26",
    "An image file opens with its own pixels and sensor model, or is refused",
    "load_gdal_dataset gives the pixels, size and bands of the file and the sensor model its own metadata defines (geo transform in its coordinate system, ground control points, TREs, SICD/SIDD segments), and no sensor model where the metadata defines none, for all formats, with GDAL exceptions on or off and under the toolkit's own GDAL defaults. "
    "A file GDAL cannot open is refused with a ValueError naming it; damaged metadata never keeps the image from being opened. get_image_extension names the format of the file's content whatever the file is called.",
    ["inputs", "configurations", "crash_points"],
    "all formats, georeferences, subsets of NITF metadata segments, every prefix of small files, kinds of paths and file names",
    "The tests that load files need Git LFS data and do not run; damaged files, other coordinate systems and combinations of segments are never opened.",
    [GD + "gdal_utils.py", GD + "sensor_model_factory.py", GD + "gdal_sensor_model_builder.py", GD + "gdal_config.py"],
    [("load_gdal_dataset", GD + "gdal_utils.py"), ("get_image_extension", GD + "gdal_utils.py"), ("set_gdal_default_configuration", GD + "gdal_config.py")],
    "exhaustive enumeration of image files (formats, metadata subsets, truncation points) on the real loader",
    "Every file of the bounds is written through GDAL and opened by the real code; GDAL is trusted as reader and writer.",
)

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
                    }
                )
                + "\n"
            )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, osgeo.gdal, scipy, shapely, pyproj, cv2'",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed: the checks import /repo/src and control GDAL data, elevation models and the thread scheduler from outside.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
