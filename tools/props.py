VG = "static value-graph extraction from compiler IR + algebraic canonical forms"
VGN = ("Every obligation is decided on the gated value graph of clang-18 IR of /repo's headers instantiated by a witness unit: equal canonical forms discharge it for all inputs; "
       "different forms are reported only when the two extracted formulas really differ (confirmed at a point with 60 digits); anything else is counted undecided in the evidence, never reported. "
       "Trusts clang/LLVM, the term algebra, real-number semantics up to the stated relative tolerance.")
COORD = "coordinate/"

prop("C01", "Two-component sky coordinates keep each component in its own unit",
     "For every horizon, ecliptic, galactic, equatorial (hour angle) and equatorial (right ascension) coordinate, reading a component or the pair returns exactly the value last given for that component, in the unit it was given in. "
     "Setting one component leaves the other unchanged, copies are complete and independent, and the make functions give an object of the requested component types holding the given values.",
     ["inputs", "configurations"], "all component values x every combination of angle units (degree/radian) and scalar type",
     "The unit tests sample a few values, mostly with both components in the same unit; the components are stored in one unit and converted on the way in and out, so a wrong conversion or swapped index shows only for mixed units.",
     [COORD + "coord_sys/" + f for f in ("coord_sys.hpp", "horizon_coord.hpp", "ecliptic_coord.hpp", "galactic_coord.hpp", "equatorial_ha_coord.hpp", "equatorial_ra_coord.hpp")],
     [("component setters/getters converting to and from radians", I + "coordinate/coord_sys/*_coord.hpp")], ["get_*/set_*/make_*_coord"], VG, VGN)

prop("C02", "Representations and differentials keep all three components exactly",
     "For cartesian, spherical and spherical-equatorial representations and cartesian, spherical, spherical-equatorial and spherical-coslat differentials, every component getter, the tuple getter and the underlying point return the value last supplied for that component, in its unit (angles of the point in radians). "
     "Setting one component changes no other, copying and assigning copy all three independently, and the make functions taking components or an object of the same type preserve them.",
     ["inputs", "configurations"], "all component values x per-component units x float/double",
     "Tests use a few constants in a few unit combinations; a component mix-up or missing conversion for another unit combination is not sampled.",
     [COORD + "rep/" + f for f in ("cartesian_representation.hpp", "spherical_representation.hpp", "spherical_equatorial_representation.hpp", "base_representation.hpp")] +
     [COORD + "diff/" + f for f in ("cartesian_differential.hpp", "spherical_differential.hpp", "spherical_equatorial_differential.hpp", "spherical_coslat_differential.hpp", "base_differential.hpp")],
     [("per-component get/set with unit conversion", I + "coordinate/rep/*.hpp, diff/*.hpp")], ["get_*/set_*/make_*"], VG, VGN)

prop("C04", "Changing the units of a representation or differential keeps its physical value",
     "Constructing a representation or differential from one of the same kind with other units (by converting constructor or by make function with explicit target quantities) multiplies every component by exactly the ratio of the two units. "
     "Converting there and back returns the original components, and a change of scalar type from float to double keeps them up to float precision.",
     ["inputs", "configurations"], "all component values x pairs of unit configurations of equal dimension",
     "Tests convert single values between one or two units; a factor applied to the wrong component or skipped for one unit pair is not reached.",
     [COORD + "rep/cartesian_representation.hpp", COORD + "rep/spherical_representation.hpp", COORD + "rep/spherical_equatorial_representation.hpp",
      COORD + "diff/cartesian_differential.hpp", COORD + "diff/spherical_differential.hpp", COORD + "diff/spherical_equatorial_differential.hpp", COORD + "diff/spherical_coslat_differential.hpp"],
     [("converting constructors and make_*<Return...>(other)", I + "coordinate/rep, diff")], ["component getters of the converted object"], VG, VGN)

prop("C05", "Vector arithmetic gives the physical result for mixed units and systems",
     "For representations, sum, mean, operator+, dot, cross, magnitude and unit_vector, and for differentials operator+, multiplication by a time, magnitude and unit_vector, return the textbook vector result on the physical (SI) values of the operands. "
     "This holds whichever coordinate systems (cartesian, spherical, spherical-equatorial, coslat) and length/angle units the operands use, and the result is expressed in the first operand's type where the operation returns one.",
     ["inputs", "configurations"], "all operand values (angles in principal ranges, non-zero results) x pairs of classes x mixed units",
     "There is no test of arithmetic.hpp and the operator tests use equal units; the unit factors cancel in what the tests sample.",
     [COORD + "arithmetic.hpp", COORD + "rep/cartesian_representation.hpp", COORD + "rep/spherical_representation.hpp", COORD + "rep/spherical_equatorial_representation.hpp",
      COORD + "diff/cartesian_differential.hpp", COORD + "diff/spherical_differential.hpp", COORD + "diff/spherical_equatorial_differential.hpp", COORD + "diff/spherical_coslat_differential.hpp", COORD + "diff/base_differential.hpp"],
     [("cross/dot/sum/mean/magnitude/unit_vector", I + "coordinate/arithmetic.hpp"), ("operator+ / operator*", I + "coordinate/rep, diff")], ["components of the result"], VG, VGN)

prop("C06", "Cartesian/spherical conversions denote the same point and invert each other",
     "Converting any representation (or differential) to any other kind, by make function, converting constructor or to_representation/to_differential, gives the same physical point: x=d sin(t)cos(p), y=d sin(t)sin(p), z=d cos(t) for spherical (first angle p, second t), latitude from the equator for spherical-equatorial, second angle divided by the cosine of the first for coslat. "
     "Converting to another kind and back gives the original within the principal angle ranges, and the origin converts to distance zero with defined (zero) angles.",
     ["inputs", "configurations"], "all component values in the principal ranges and the origin x ordered pairs of kinds x units",
     "Tests check a few sample points with tolerance; they never convert the origin, mixed-unit cartesians, or most pairs of kinds.",
     [COORD + "rep/cartesian_representation.hpp", COORD + "rep/spherical_representation.hpp", COORD + "rep/spherical_equatorial_representation.hpp", COORD + "rep/base_representation.hpp",
      COORD + "diff/cartesian_differential.hpp", COORD + "diff/spherical_differential.hpp", COORD + "diff/spherical_equatorial_differential.hpp", COORD + "diff/spherical_coslat_differential.hpp", COORD + "diff/base_differential.hpp"],
     [("make_* conversion factories and converting constructors", I + "coordinate/rep, diff")], ["component getters of the converted object"], VG, VGN)

FR = [COORD + "coord_sys/" + f for f in ("alt_az.hpp", "galactic.hpp", "supergalactic.hpp", "geocentric.hpp", "heliocentric.hpp")] + \
     [COORD + "ref_frame/" + f for f in ("base_frame.hpp", "base_equatorial_frame.hpp", "base_ecliptic_frame.hpp", "icrs.hpp", "cirs.hpp")] + [COORD + "sky_point.hpp"]
prop("C03", "Frames and sky points keep position, motion and frame attributes",
     "For the icrs, cirs, galactic, supergalactic, geocentric, heliocentric and alt_az frames, and for a sky_point holding one, every getter returns the position component, motion component or frame attribute (equinox, observation time, location, pressure, temperature, humidity) last supplied, in its unit, whether it came from a constructor, a single or combined setter, a spherical representation and coslat differential in other units, or a copy or assignment. "
     "A setter changes nothing else. Angular separation is the angle between the two position vectors of the data (a number also when rounding takes their cosine past 1), positional_angle is atan2(sin(dl)cos(b2), sin(b2)cos(b1)-cos(b2)sin(b1)cos(dl)) with b the first and l the second component, and is_equivalent_system tells exactly whether the frame types are the same.",
     ["inputs", "configurations"], "all component values x 7 frames x unit configurations",
     "The repository has no test of frames or sky_point at all; members of the templates are not even instantiated.",
     FR, [("frame accessors over spherical_representation/spherical_coslat_differential", I + "coordinate/coord_sys, ref_frame"), ("sky_point", I + "coordinate/sky_point.hpp")],
     ["frame getters", "separation", "positional_angle"], VG, VGN)

prop("C07", "Coordinate rotation matrices are the textbook ones and mutually inverse",
     "ha_dec_horizon, ha_dec_ra_dec, ecliptic_to_ra_dec, ra_dec_to_ecliptic, galactic_to_ra_dec and ra_dec_to_galactic hold the textbook rotation for the given angle, in degrees or radians and for float or double types. "
     "Each angle-dependent matrix is orthogonal for every angle, the matrix of the reverse conversion is its inverse, and the two galactic matrices are transposes of each other.",
     ["inputs", "configurations"], "all angles x angle units x scalar types",
     "Tests multiply a handful of sample directions; they never check the reverse galactic conversion, other angle units, or single elements.",
     [COORD + "utility/utility.hpp"], [("conversion matrices", I + "coordinate/utility/utility.hpp")], ["matrix elements returned by get()"], VG, VGN)

prop("C08", "Direction vectors and extracted coordinates are inverse to each other",
     "column_vector(u,v) is (cos u cos v, sin u cos v, sin v) and extract_coordinates of a 3x1 matrix returns (atan2(y,x), asin(z)) in radians, so extracting a column vector gives back both angles in their principal ranges. "
     "Converting a direction with one of the conversion matrices and back with its reverse returns the original angles, and the angles are numbers also where rounding takes z past 1.",
     ["inputs", "configurations"], "all angles in the principal ranges x angle units x scalar types",
     "Tests use a few positive sample directions; quadrants, negative angles and the round trip are not sampled.",
     [COORD + "utility/utility.hpp"], [("column_vector, extract_coordinates", I + "coordinate/utility/utility.hpp")], ["get_coordinates()"], VG, VGN)

prop("C09", "Sidereal times follow the standard formulas and lie in [0,24)",
     "For every time t that is not a special value, GST(t) is 6.697374558 + 2400.051336 T + 0.000025862 T^2 (T julian centuries from J2000 of julian_date(t)) plus 1.002737909 times the time of day in hours including fractions of a second, reduced to [0,24) by whole days. "
     "LST(longitude, direction, t) is GST(t) plus (east) or minus (west) longitude/15, reduced to [0,24), for every longitude including zero, negative ones and those beyond 180.",
     ["inputs"], "all times representable by posix_time x all longitudes x both directions",
     "The test evaluates three instants with 1% tolerance; wrap-around, fractional seconds and negative sums are not sampled.",
     ["time/time_conversions.hpp", "time/parser.hpp"], [("GST/LST", I + "time/time_conversions.hpp")], ["GST(t).get()", "LST(...).get()"], VG, VGN)

prop("C10", "A decimal hour and its hour/minute/second parts agree",
     "A decimal_hour built from d returns d, its truncated hours, the truncated whole minutes of the remaining fraction and the remaining seconds; one built from (h,m,s) has the value h + m/60 + s/3600 and the parts of that value. "
     "In both cases hours + minutes/60 + seconds/3600 equals the value, and copies keep all of it.",
     ["inputs"], "all decimal values, and all (h,m,s) triples",
     "Tests only call get() on a few triples; the parts are never read.",
     ["time/parser.hpp"], [("decimal_hour", I + "time/parser.hpp")], ["get/get_hours/get_minutes/get_seconds"], VG, VGN)

prop("C11", "Julian date and obliquity of the ecliptic follow the calendar formulas",
     "julian_date(t) is the standard calendar formula at 0h of t's date: January and February count as months 13 and 14 of the previous year, and the Gregorian correction 2 - A + floor(A/4) applies from 1582 October 15 on. "
     "obliquity_of_ecliptic(date) is 23.439292 - (46.815 T + 0.0006 T^2 - 0.00181 T^3)/3600 degrees, in radians, with T the julian centuries of the date from J2000.",
     ["inputs"], "all dates representable by Boost.Date_Time",
     "Tests see a few recent dates; January/February, the calendar switch and far epochs are not sampled.",
     ["time/time_conversions.hpp", COORD + "utility/utility.hpp"], [("julian_date", I + "time/time_conversions.hpp"), ("obliquity_of_ecliptic", I + "coordinate/utility/utility.hpp")],
     ["julian_date(t)", "obliquity_of_ecliptic(d).get()"], VG, VGN)

prop("C12", "Programs that mix up dimensions or kinds of object do not compile",
     "Instantiating a coordinate class with a non-angle where an angle belongs, mixed dimensions in a cartesian class or a non-floating scalar, passing a quantity of another dimension or a bare number to a constructor or setter, adding or converting objects of different dimensions, converting a representation to a differential or back, and giving a frame or sky point the wrong kind of data are all rejected at compile time. "
     "The well-formed program that differs only in the offending type compiles.",
     ["configurations"], "every coordinate, representation, differential, frame and sky_point class x each position x wrong dimensions and kinds",
     "A passing test suite can only contain programs that compile, so no test observes that a static check still rejects.",
     FR + [COORD + "rep/base_representation.hpp", COORD + "diff/base_differential.hpp", COORD + "coord_sys/horizon_coord.hpp", COORD + "coord_sys/ecliptic_coord.hpp", COORD + "coord_sys/galactic_coord.hpp", COORD + "coord_sys/equatorial_ha_coord.hpp", COORD + "coord_sys/equatorial_ra_coord.hpp",
      COORD + "rep/cartesian_representation.hpp", COORD + "rep/spherical_representation.hpp", COORD + "rep/spherical_equatorial_representation.hpp", COORD + "arithmetic.hpp",
      COORD + "diff/cartesian_differential.hpp", COORD + "diff/spherical_differential.hpp", COORD + "diff/spherical_equatorial_differential.hpp", COORD + "diff/spherical_coslat_differential.hpp"],
     [("static_assert / overload resolution", I + "coordinate")], ["semantic analysis of the witness program"],
     "compile-fail witnesses: pairs of rejected and accepted programs judged by clang's semantic analysis", "Each rejected program has an accepted twin, so a rejection for an unrelated reason is noticed.")

AI = "abstract interpretation with trace partitioning over a string-term / linear-arithmetic domain"
AIN = ("Every obligation is decided on the LLVM IR of /repo's headers instantiated by a witness unit, interpreted over terms: strings are concatenations of segments of symbolic content and length, numbers are terms with ranges, and the "
       "analysis splits the input space wherever the code branches on them. An outcome that is the same normal form as the FITS layout discharges that part of the input space for all inputs in it; a part is reported only when its outcome term and the required term "
       "differ for a valuation of the inputs inside it; anything else is counted undecided in the evidence, never reported. Trusts clang/LLVM, the stand-ins for std::string, streams, lexical_cast and boost::algorithm, and the term algebra.")
IOH = lambda *f: ["io/" + x + ".hpp" for x in f]

prop("C14", "A FITS card is always one well-formed 80-character record",
     "A card made from keyword, value and optional comment is exactly 80 characters: keyword left-justified in columns 1-8, '= ', the value (numbers and logicals right-justified in 20 columns, strings in quotes, complex numbers as two such fields), ' /' and the comment, blanks; a keyword over 8 characters or a value and comment that do not fit are rejected with invalid_card instead of being truncated. "
     "A commentary card has its keyword in columns 1-8 and text from column 10, set_value keeps the record whole with its keyword in place, and a valid record given as text is kept verbatim while one over 80 characters or without value indicator is rejected.",
     ["inputs"], "all keywords, comments and strings of printable characters and all numbers, logicals and complex values",
     "Tests build cards from a few literals; the boundaries (8, 68, 70, 80 characters), negative and wide numbers and set_value are not sampled.",
     IOH("card", "default_card_policy"), [("create_card / set_value / create_commentary_card", I + "io/card.hpp"), ("serialize_to_fits_format", I + "io/default_card_policy.hpp")], ["raw_card()", "keyword()", "exception"], AI, AIN)

prop("C15", "Binary table values follow the big-endian FITS encoding in both directions",
     "binary_data_converter decodes a field of n elements of any supported type (16/32-bit integers, 32/64-bit floats, complex, array descriptors, bytes, characters, logicals, and vectors of these) as the n consecutive big-endian values of the field, real before imaginary part and count before offset. "
     "Encoding a value gives its big-endian bytes, so encoding what was decoded gives back the original bytes exactly, whatever they are.",
     ["inputs"], "every byte content x all element types x element counts up to the bound",
     "Tests decode single elements of a sample file; byte patterns with the sign bit set, later elements of vectors and most types are not sampled.",
     IOH("binary_data_converter"), [("deserialize_to / serialize", I + "io/binary_data_converter.hpp")], ["decoded values", "encoded bytes"], AI, AIN)

prop("C16", "Image pixels are decoded and encoded with the type BITPIX names",
     "For each BITPIX (8, 16, 32, -32, -64) the pixel type has the size and signedness the FITS standard gives it (8 is unsigned), pixel i is the big-endian value of bytes [i*size, (i+1)*size) of the data, and writing the image returns exactly the bytes read. "
     "A primary HDU or image extension holds the image type of its header's BITPIX, and reading again replaces the pixels.",
     ["inputs"], "every byte content x five BITPIX values x pixel counts up to the bound",
     "Tests read a sample image and look at a few statistics; sign, order and width errors for other BITPIX values are not sampled.",
     IOH("image", "bitpix", "primary_hdu", "image_extension", "binary_data_converter"), [("read_image/write_image", I + "io/image.hpp"), ("get_element_size_from_bitpix, bitpix_type", I + "io/bitpix.hpp")], ["get_data<B>()", "write_image()"], AI, AIN)

prop("C17", "A card gives back the value it holds, whatever happened to it before",
     "value<T>() of a card returns the value stored in it by create_card or set_value or read from a record: integers exactly, logicals, strings without their padding (slashes in strings and quotes in comments included), complex numbers, and floating values to the digits written; a value that is not of the requested kind is reported as invalid_cast. "
     "Earlier reads in other types, sets, re-creations, copies and failed operations never make a later read return anything but the card's current value.",
     ["inputs", "histories"], "all values x comments x sequences of reads, sets, re-creations, copies and failures of the listed shapes",
     "Tests read freshly made cards once; the cached value after set_value, re-creation or a read in another type is not sampled.",
     IOH("card", "default_card_policy", "string_conversion_utility"), [("value / value cache", I + "io/card.hpp"), ("extract_value / parse_to", I + "io/default_card_policy.hpp")], ["value<T>()", "value_with_comment()"], AI, AIN,
     state=[("card_cache", "last value parsed or set", I + "io/card.hpp")])

prop("C18", "Reading a header yields exactly the cards of the file and the facts they state",
     "read_header takes the 80-byte cards up to and including the END card and nothing after it: bitpix(), the number and length of the axes, data_size() (the product of the axes, 0 without axes), the card count, value_of<T>(keyword), contains_keyword and the HDU name are those of the cards, for every header length and whatever follows it. "
     "A BITPIX outside the standard's values and an absent keyword are reported as exceptions, and writing the header gives its cards back verbatim and in order.",
     ["inputs"], "all axis lengths, values, comments, commentary texts and following data x header lengths up to the bound",
     "Tests read a few sample headers; header lengths around a record boundary, many axes, keywords that are prefixes of others and invalid BITPIX are not sampled.",
     IOH("header", "card", "fits_stream"), [("read_header / value_of / data_size", I + "io/header.hpp")], ["header accessors"], AI, AIN)

prop("C19", "Missing, truncated and malformed files are reported, never read as complete",
     "fits_stream::read(n) returns exactly the next n bytes of the file or throws file_reading_exception. "
     "A file that does not exist, is not FITS, ends inside a header or inside a data unit that is read, a header without END, a table column of undefined format, and a request for an HDU or column that is not there end in a fits exception: nothing is made up, nothing reads out of bounds and reading always ends.",
     ["inputs"], "every byte content x every length at which the file is cut",
     "Tests read complete sample files; where a file breaks off is not sampled, and a loop that never ends fails no assertion.",
     IOH("fits_stream", "header", "fits_reader", "fits", "hdu_factory", "ascii_table", "binary_table", "column_data", "image", "primary_hdu"), [("read / set_file", I + "io/fits_stream.hpp"), ("read_header", I + "io/header.hpp"), ("fits_io", I + "io/fits_reader.hpp")], ["exception raised"], AI, AIN)

prop("C20", "Headers and data units occupy whole 2880-byte records",
     "For every position the end of its logical record is the next multiple of 2880 at or after it, and going there twice stays there. "
     "Every header, image and table that is written is followed by fill up to exactly that multiple, with the bytes before it unchanged, so the next unit starts where a reader looks for it.",
     ["inputs"], "all positions, header lengths and data lengths around the record boundaries, all contents",
     "Tests use small units only; a unit that ends exactly on, one byte before or after a boundary is not sampled.",
     IOH("fits_stream", "header", "primary_hdu", "ascii_table", "binary_table", "image_extension"), [("find_unit_end / set_unit_end", I + "io/fits_stream.hpp"), ("write_to / write_header", I + "io")], ["file positions", "bytes written"], AI, AIN)

prop("C21", "Table cells are exactly the bytes of their field, columns those of the header",
     "Cell (r,c) of a binary table is exactly the bytes of row r that the TFORM sizes of the columns before c place there; of an ASCII table, the text of the TFORM width starting at TBCOL in row r, without outer blanks. "
     "Every column has the name, form, unit, scale, zero, display format and position of its own keywords (1, 0 or empty when absent), its element count and element size follow from TFORM, and columns are found by exact name.",
     ["inputs", "configurations"], "every data content and metadata text x tables of the listed forms, rows and column counts",
     "Tests look at a few cells of sample files; cells made of blank-like bytes, gaps between ASCII fields, multi-digit column numbers and repeat counts are not sampled.",
     IOH("binary_table", "ascii_table", "column", "column_data", "table_extension"), [("set_table_data / populate_column_data", I + "io/binary_table.hpp, ascii_table.hpp"), ("column", I + "io/column.hpp")], ["get_data()", "column getters"], AI, AIN)

prop("C22", "Column views read and write their table's cells, whatever happened before",
     "Element r of a view of column c is the decoded value of cell (r,c); a value stored through a view is read back by every view of that column, is what write_to writes, and changes no other cell. "
     "This holds in any order of reads, stores, iteration, new views, set_data and copies of the table: a view taken after set_data shows the new data, copies are independent, and asking for a column that is not there is reported.",
     ["inputs", "histories"], "every cell content and stored value x element types x sequences of the listed shapes",
     "Tests read a view once right after construction; stale caches after a store, set_data or a copy need a sequence of operations.",
     IOH("column_data", "binary_table", "ascii_table", "string_conversion_utility", "binary_data_converter"), [("column_view / Proxy cache", I + "io/column_data.hpp"), ("get_column / set_data", I + "io/binary_table.hpp, ascii_table.hpp")], ["view elements", "get_data()", "write_to"], AI, AIN,
     state=[("cached_columns", "views handed out before", I + "io/binary_table.hpp")])

HALL = ["coordinate/arithmetic.hpp", "coordinate/utility/utility.hpp", "time/time_conversions.hpp", "time/parser.hpp", "units/length.hpp", "io/fits.hpp", "io/column.hpp", "io/binary_data_converter.hpp", "io/bitpix.hpp", "exception/fits_exception.hpp"]
prop("C13", "Every header works alone, in any order and in several translation units",
     "Each header under include/boost/astronomy compiles when it is the only one included and together with all others in any order, contributing the same declarations either way. "
     "No header defines a function or variable with external linkage that is not inline, so programs whose translation units all include it still link.",
     ["configurations"], "every header x inclusion alone, with all others in three orders, in any number of translation units",
     "Each test is a single translation unit that includes its headers in one order, so a missing inline, include or a reused include guard passes.",
     HALL, [("include guards, inline definitions", I)], ["compiler verdict", "symbol table"],
     "compiler semantic analysis, symbol-table query and preprocessor-output comparison", "Compiles each header alone and all together and inspects the resulting symbol tables and preprocessed text; nothing is executed. Judges non-template definitions and instantiations the headers make themselves.")

prop("C23", "Files are read HDU by HDU as the headers say and written back unchanged",
     "fits::open gives one HDU per header of the file, in order, of the kind the header names (primary, BINTABLE, TABLE; a placeholder for others) with exactly its header and data, reading only headers finds the same HDUs at the same places, and access by index and by unique name is the same object. "
     "write_to gives a file whose headers and data are those read, at the same offsets, differing only in cells changed through a view; optional EXTEND and EXTNAME may be missing, and a reader initialized for another file holds only that file.",
     ["inputs", "configurations", "histories"], "every data content x files of the listed shapes x read, change, write and re-read sequences",
     "Tests open sample files and count HDUs; where each HDU starts for other header and data lengths, the bytes written back and reuse of a reader are not sampled.",
     IOH("fits_reader", "fits", "default_hdus", "primary_hdu", "extension_hdu", "table_extension", "ascii_table", "binary_table", "header", "fits_stream"), [("read_entire_hdus / read_only_headers / write_to", I + "io/fits_reader.hpp"), ("construct_hdu", I + "io/default_hdus.hpp")], ["get_hdu_list()", "get_control_block_info()", "bytes of the file written"], AI, AIN,
     state=[("hdu_list, hdus_control_block", "HDUs of the current file", I + "io/fits_reader.hpp")])

prop("C24", "Image statistics and pixel access are those of the pixels",
     "max, min and median of an image are the pixels of the last, first and n/2-th rank, mean is the sum over n and std_dev the square root of the squared deviations over n-1, computed in double precision; both are 0 for an image without pixels. "
     "Asking for them changes no pixel, copies are independent, and pixel (x, y) of a buffer is element x*width+y of width*height elements.",
     ["inputs"], "all pixel values and orderings of small images x five pixel types",
     "Tests compare the statistics of one sample image; orderings, negative and repeated pixels, other pixel types and small images are not sampled.",
     IOH("image", "bitpix"), [("image_buffer", I + "io/image.hpp")], ["max/min/mean/median/std_dev/operator()"], AI, AIN)

prop("C25", "Text fields convert to the value they denote or are reported",
     "ascii_converter writes integers in decimal, floating values to six significant digits and text unchanged, and reads such text back as the same value. "
     "Text that is not a value of the requested type - letters, an empty field, a number followed by other characters or outside the type's range - is reported as invalid_cast.",
     ["inputs"], "all integer, floating and text values x the requested types",
     "Tests convert a few literals; range limits, trailing characters and empty fields are not sampled.",
     IOH("string_conversion_utility"), [("serialize / deserialize_to", I + "io/string_conversion_utility.hpp")], ["returned value", "exception"], AI, AIN)

prop("C26", "Printed coordinates and times show every component in order with its unit",
     "Inserting a cartesian, spherical or spherical-equatorial representation, or a horizon, ecliptic, galactic or equatorial coordinate, into a stream writes its name and its components in order, each with its value and unit, and returns the stream. "
     "Inserting a decimal_hour writes exactly the hours, minutes and seconds its getters return.",
     ["inputs", "configurations"], "all component values x unit configurations",
     "The repository has no test of the inserters.",
     ["coordinate/io/io.hpp", "time/parser.hpp"] + [COORD + "coord_sys/" + f for f in ("horizon_coord.hpp", "ecliptic_coord.hpp", "galactic_coord.hpp", "equatorial_ha_coord.hpp", "equatorial_ra_coord.hpp")], [("operator<<", I + "coordinate/io/io.hpp"), ("operator<<(decimal_hour)", I + "time/parser.hpp")], ["text written"], AI, AIN)

prop("C27", "Length units have their astronomical values and convert consistently",
     "Every length unit and its singular, plural and alternative spellings denote the same length: metre, centimetre, astronomical unit, light second, minute, hour, day and (Julian) year, parsec. "
     "Converting a quantity between any two of them multiplies it by the ratio of the two lengths.",
     ["inputs", "configurations"], "all values x all ordered pairs of units x every unit constant",
     "Tests compare a unit with itself through integer quantities; no conversion between units is made.",
     ["units/length.hpp"], [("unit typedefs and constants", I + "units/length.hpp")], ["quantity::value()"], VG, VGN)

prop("C28", "Equality compares the whole value and nothing else",
     "Two representations (or two differentials) compare equal exactly when all three components of their positions agree in the cartesian system, whichever systems, units and scalar types they use, and the answer is the same both ways. "
     "Two cards compare equal exactly when their 80-character records are the same, and two headers, const or not, exactly when they have the same cards in the same order, whatever was asked of them before.",
     ["inputs", "configurations", "histories"], "all component values x ordered pairs of kinds x float/double; all card texts; headers of both kinds and orders of queries",
     "Tests compare two headers read from the same file; objects that differ in one component or card, const objects and headers asked for their name before are not compared.",
     [COORD + "rep/base_representation.hpp", COORD + "diff/base_differential.hpp"] + IOH("card", "header"), [("base_representation::operator==, base_differential::operator==", I + "coordinate/rep, diff"), ("card::operator==, header::operator==", I + "io/card.hpp, io/header.hpp")], ["operator=="], AI, AIN)

prop("C29", "A FITS stream reads and writes exactly the bytes asked for",
     "get and read return the bytes of the file at the reported position and advance it by what they returned, get gives 0 at the end, at_end holds exactly when no byte is left and moves nothing, and after set_reading_pos reading goes on from that position. "
     "Writes put their bytes at the end of what was written before, or at the given position changing no other byte, and return whether they could; create_file starts an empty file, set_file turns to the start of an existing one that writing cannot change, and a stream is open from then until close.",
     ["inputs", "histories"], "all file contents and written data x sequences of stream operations",
     "Tests make one or two calls each on one sample file; bytes above 127, positions reached by mixed calls, the state after the end of the file and overwriting are not sampled.",
     IOH("fits_stream"), [("fits_stream", I + "io/fits_stream.hpp")], ["returned bytes and positions", "file contents"], AI, AIN)
