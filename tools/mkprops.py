#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as source so that the wording stays in one place)."""
import json, os
C = "python/aces/clf/"
L = "python/aces/lutFormats/"
T = "python/aces/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

TESTS = "The tests process one or two fixed colours through a few fixed nodes and compare a handful of numbers; "

p("C01", "Matrix nodes apply exactly the affine map they hold",
  "Processing a pixel through a Matrix node yields, for every row of the array, the sum of that row's coefficients times the pixel's channels, plus the row's last entry when the array has one column more than it has rows (3x3, 3x4, 4x4 and 4x5 arrays). Channels beyond the array's rows come out unchanged, and no bit-depth scaling is added to the result. This holds whether the array was set through the API or read from a file.",
  ["inputs"], "every 3x3/3x4/4x4/4x5 matrix, every pixel with at least as many channels as the matrix has rows, every declared bit-depth pair",
  TESTS + "they cannot cover all matrices, offsets, channel counts and pixels.",
  [C+"Matrix.py", C+"Array.py"], [("row-major affine evaluation", C+"Matrix.py Matrix.process")], ["ProcessList.process on a single Matrix node"])

p("C02", "Range nodes rescale, offset and clamp exactly as specified",
  "A Range node normalises its input from its input bit depth, then: with all four bounds it maps [minIn,maxIn] linearly to [minOut,maxOut]; with only the two minimum (or maximum) bounds it shifts by minOut-minIn (maxOut-maxIn); with none it leaves the value; and finally it scales to its output bit depth, bounds being expressed in the respective bit depths. Unless its style is other than 'clamp', results are limited to every output bound in force; the default-range flag supplies 0 and 1 (normalised) for missing bounds when it is true and nothing when it is false. Every channel of every pixel is treated this way.",
  ["inputs", "configurations"], "every legal bound set, style, default-range flag, bit-depth pair, pixel value and channel count",
  TESTS + "the min-only, max-only, default-range, unclamped and cross-bit-depth combinations are hardly reached.",
  [C+"Range.py", C+"ProcessNode.py"], [("bound normalisation, scaling and clamping", C+"Range.py Range.process"), ("bit depth conversion", C+"ProcessNode.py bitDepthToNormalized/normalizedToBitDepth/bitDepthSize")], ["ProcessList.process on a single Range node"])

p("C03", "ASC CDL nodes compute slope-offset-power-saturation per style",
  "An ASC CDL node computes, on values normalised from its input bit depth and scaled to its output bit depth: forward, slope then offset then power then saturation about Rec.709 luma; reverse, the inverse steps in inverse order. The clamping styles limit to [0,1] where the ASC CDL defines clamping; the no-clamp styles never clamp and apply no power to negative values. The Autodesk style names behave as their plain counterparts, missing parameters mean identity values, channels beyond the third are untouched, and pixels with fewer than three channels pass through unchanged.",
  ["inputs", "configurations"], "all eight style names, all finite slopes/offsets/powers/saturations (positive where inverted), bit depths and pixels, ASC_CDL nodes as well as ColorCorrection elements",
  TESTS + "reverse and no-clamp styles, negative excursions and alpha channels are not sampled.",
  [C+"ASCCDL.py"], [("style dispatch and SOP+saturation arithmetic", C+"ASCCDL.py ASCCDL.process")], ["ProcessList.process on a single ASC CDL node"])

p("C04", "Reverse operators undo forward operators",
  "For every parameter set where the operation is invertible, applying a forward operator and then the matching reverse operator with the same parameters returns the original pixel up to rounding: ASC CDL Fwd/Rev (when no clamping took place) and no-clamp Fwd/Rev (always, also under their Autodesk names), Gamma basic and moncurve Fwd/Rev for non-negative values (moncurve for all values), Log log10/antiLog10, log2/antiLog2 for positive values, and linToLog/logToLin above black. The same holds with the order exchanged on the forward operator's image.",
  ["inputs"], "every invertible parameter set (shared or per channel), every pixel in the stated domains",
  TESTS + "no test composes an operator with its inverse.",
  [C+"ASCCDL.py", C+"ExtensionGamma.py", C+"ExtensionLog.py"], [("paired style branches", C+"ASCCDL.py, ExtensionGamma.py, ExtensionLog.py process")], ["two-node ProcessLists"])

p("C05", "1D LUT nodes interpolate their table linearly",
  "A LUT1D node without half-domain lookup normalises each of the first three channels (by its input bit depth, or through its one shared or its three per-channel index maps divided by table length minus one), and linearly interpolates that channel's column (the single column for one-channel tables) between the two neighbouring entries, holding the end entries outside [0,1]. Index maps interpolate linearly between their points and hold their end values outside. Table values are delivered without output bit-depth scaling, NaN and infinite inputs come back unchanged for float input depths, further channels are copied, and a cubic or unknown interpolation name still returns the entries at the table's grid points and reproduces straight-line tables.",
  ["inputs", "configurations"], "every table length >= 2, 1 or 3 columns, any table values, 0/1/3 index maps, every bit depth, pixels of 1 to 5 channels, values inside, outside and exactly at grid points",
  TESTS + "index maps, multi-column tables, out-of-range and non-finite inputs are not exercised systematically.",
  [C+"LUT1D.py", C+"Array.py", C+"IndexMap.py"], [("linear lookup", C+"Array.py lookup1DLinear"), ("index map evaluation", C+"IndexMap.py process")], ["ProcessList.process on a single LUT1D node"])

p("C06", "Half-domain 1D LUTs index their table by half-float code",
  "A LUT1D node with half-domain lookup (65536 entries, 1 or 3 columns) returns, for an input (divided by its input bit depth's range) exactly representable as a half float, the entry stored at that half float's 16-bit code (including negative values, denormals, signed zeros and infinities). Inputs between two adjacent half floats of the same sign give the linear interpolation of the two entries, inputs beyond the largest finite half that still round to it give that half's entry, inputs beyond that give the entry of the infinity of their sign, and a NaN gives a NaN code's entry. The lookup ignores every other channel's column, further channels are copied, and a half-domain or raw-halfs flag set to false turns the feature off.",
  ["inputs"], "all 65536 half codes, all float32 inputs between and beyond them, 1- and 3-column tables, API-built and file-read tables",
  TESTS + "only a couple of positive half values are ever looked up.",
  [C+"LUT1D.py", C+"Array.py", C+"Common.py"], [("half-domain lookup", C+"Array.py lookup1DHalfDomain*")], ["ProcessList.process on a half-domain LUT1D node"])

p("C07", "3D LUT nodes interpolate their lattice trilinearly or tetrahedrally",
  "A LUT3D node clamps each normalised input to [0,1] (after its input bit depth, or after its one shared or three per-channel index maps divided by that axis' size minus one) and interpolates the surrounding eight lattice entries, blue index varying fastest, for every lattice shape including unequal sizes. 'tetrahedral' uses the standard six-tetrahedra split along the cell diagonal; 'trilinear', an absent name and unknown names use trilinear interpolation; lattice points return their entries exactly. Table values are delivered without output bit-depth scaling and channels beyond the third are copied.",
  ["inputs", "configurations"], "every lattice size >= 2 per axis (equal or not), any table, both interpolations, all orderings and ties of the cell fractions, all bit depths, 0/1/3 index maps, 3 to 5 channels",
  TESTS + "the tests use tiny cubic identity-like lattices and never visit all six tetrahedra.",
  [C+"LUT3D.py", C+"Array.py", C+"IndexMap.py"], [("trilinear and tetrahedral lookup", C+"Array.py lookup3D, lookup3DTrilinear, lookup3DTetrahedral")], ["ProcessList.process on a single LUT3D node"])

p("C08", "Gamma nodes apply basic and moncurve curves per channel",
  "A Gamma node applies, to values normalised from its input bit depth and scaled to its output bit depth, the basic power curve or its reciprocal (negative inputs giving zero), or the monitor curve with linear toe and continuous junction, or that curve's inverse, according to its style. Parameters given without a channel apply to all three channels and parameters given for a channel override that channel, later settings winning; integer-valued parameters mean the same as their float equivalents. Channels beyond the third are unchanged and neighbouring pixels do not influence each other.",
  ["inputs", "configurations"], "all four styles, gamma > 0 (>1 with positive offset for moncurve), shared/per-channel parameters in any order, bit depths, pixels",
  TESTS + "the linear toe, reverse curves and per-channel overrides are not sampled.",
  [C+"ExtensionGamma.py"], [("style dispatch", C+"ExtensionGamma.py Gamma.process")], ["ProcessList.process on a single Gamma node"])

p("C09", "Log nodes apply their log, antilog and Cineon curves per channel",
  "A Log node applies base-10 or base-2 logarithm (inputs limited from below to the smallest positive normal float), the matching antilogarithm, or the Cineon-style lin-to-log / log-to-lin curve defined by gamma, reference white, reference black, highlight and shadow, to values normalised from its input bit depth and scaled to its output bit depth. Parameters without a channel apply to all channels, parameters for a channel override that channel, later settings winning, and missing ones default to 0.6, 685, 95, 1 and 0. Channels beyond the third are unchanged.",
  ["inputs", "configurations"], "all six styles, all legal parameter sets shared or per channel, bit depths, positive/zero/negative pixels",
  TESTS + "parameterised Cineon curves and non-positive inputs are barely sampled.",
  [C+"ExtensionLog.py"], [("style dispatch", C+"ExtensionLog.py Log.process")], ["ProcessList.process on a single Log node"])

p("C10", "ExposureContrast nodes apply the linear, video and log formulas",
  "An ExposureContrast node applies, to the first three channels normalised from its input bit depth and scaled to its output bit depth: linear, pivot*max(0,2^exposure*x/pivot)^contrast; video, the same with pivot and 2^exposure/pivot raised to 1/1.83; log, a shift by exposure*0.6/2.046*log10(2) and a contrast scaling about 0.6/2.046*log10(pivot/0.9)+685/1023. Channels beyond the third of every pixel are that pixel's own, unchanged. The exposure, contrast and pivot used are the ones last set or read, defaulting to 0, 1 and 1.",
  ["inputs", "configurations"], "three styles, any exposure, contrast and positive pivot, bit depths, pixels of 3 to 5 channels, any number of pixels per call",
  TESTS + "only the linear style is run on one pixel.",
  [C+"ExtensionExposureContrast.py"], [("style dispatch", C+"ExtensionExposureContrast.py process")], ["ProcessList.process on a single ExposureContrast node"])

p("C11", "A process list applies each node once, in order; groups are transparent",
  "Processing values through a ProcessList equals feeding them through its active nodes one after the other, each node exactly once, in document (insertion) order, each receiving exactly what its predecessor produced. Wrapping consecutive nodes in a Group, or moving them to another file referred to by a Reference, at any nesting depth, gives the same result as listing them directly; an empty list, an empty group and an unresolvable reference leave the values unchanged. This holds for lists built through the API and for lists read back from a file, for any pixel grouping and for repeated calls.",
  ["inputs", "programs"], "every process list (a small pipeline program) of any length and nesting, every pixel",
  TESTS + "at most a couple of nodes are chained and no order or multiplicity is observed.",
  [C+"ProcessList.py", C+"ExtensionGroup.py", C+"ExtensionReference.py"], [("sequential evaluation loop", C+"ProcessList.py ProcessList.process"), ("group loop", C+"ExtensionGroup.py Group.process"), ("reference forwarding", C+"ExtensionReference.py Reference.process")], ["call/return events of recording nodes placed in the list", "final values"])

p("C12", "Bypassed nodes are identities that still bridge bit depths",
  "With the Autodesk features enabled, a node whose bypass attribute is true has no effect on the values except rescaling from the output bit depth of what precedes it (its own input bit depth when it is first) to the input bit depth of what follows (its own output bit depth when it is last); the same holds inside Groups. With the Autodesk features disabled the attribute is ignored and the node is applied, in lists and in groups alike. A bypass attribute that is absent or false never bypasses, however the list was created (API or file, any capitalisation of true/false).",
  ["inputs", "configurations"], "every position and combination of bypassed nodes in lists and groups, all bit-depth combinations, all feature-compatibility settings, every pixel",
  TESTS + "one middle node is bypassed in one test.",
  [C+"ProcessList.py", C+"ExtensionGroup.py", C+"ProcessNode.py"], [("bypass test and adapter", C+"ProcessList.py ProcessList.process, ExtensionGroup.py Group.process")], ["ProcessList.process and recording nodes"])

p("C13", "Pixels are processed independently, whatever the grouping",
  "Processing a buffer of N pixels in one call with the pixel stride given equals concatenating the results of N single-pixel calls, in the same order, for every node type and list and every stride of three or more; the result has as many values as the input. Consequently a pixel's result does not depend on its neighbours, its position or the buffer length. Channels beyond the third pass through unchanged and do not influence colour channels for all node types other than Range and four-row Matrix.",
  ["inputs"], "every process list, buffer length (including empty and one pixel), stride and pixel permutation",
  TESTS + "strided buffers are not compared with single pixel results.",
  [C+"ProcessList.py", C+"ASCCDL.py", C+"LUT1D.py", C+"LUT3D.py", C+"Matrix.py", C+"Range.py", C+"ExtensionGamma.py", C+"ExtensionLog.py", C+"ExtensionExposureContrast.py"], [("per-pixel loops", "process methods of all nodes")], ["ProcessList.process with stride"])

p("C14", "Processing and inspection have no side effects",
  "Processing through a list never changes the caller's input sequence, results returned earlier, the process list or any node; printing information and writing (to a tree or file, in any mode) never change later processing results or later writes. The same list given the same values always returns bit-identical results: on repetition, after other values or other lists were processed, on a list rebuilt from the same description, and when several threads process with the same list at once. Two lists built separately never share state, even when built from the same argument objects, which are left unmodified.",
  ["inputs", "histories", "schedules"], "every list, every sequence of process / print / write / read calls over several lists and every thread interleaving observed",
  TESTS + "no test repeats, interleaves or threads calls.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"IndexMap.py", C+"LUT3D.py"], [("input is copied to float32 before processing", C+"ProcessList.py ProcessList.process")], ["input buffers before/after, serialised list before/after, results across repeats and threads"])

p("C15", "Writing then reading a CLF preserves its structure and metadata",
  "Writing a process list to a CLF file and reading it back yields a list with the same attributes (name, id, inverse-of, version, namespace, custom ones), descriptions, input/output descriptors and info entries in order, and the same nodes in order with the same type, attributes, bypass state, descriptions, dynamic parameters and nested nodes. Value elements added to the list or a node appear in the file as elements of that name and text. Text may contain any characters XML round-trips, including markup and non-ASCII ones, true/false attributes keep their meaning, and writing what was read again produces an equivalent document, however often repeated.",
  ["inputs", "histories"], "every process list over all element types, arbitrary text content, plain and gzip files, repeated write/read cycles",
  TESTS + "the tests only check that a file appears and a few attributes survive.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Comment.py", C+"Info.py", C+"ExtensionGroup.py"], [("XML serialisation and parsing", C+"ProcessList.py write/read/writeFile/readFile, ProcessNode.py write/read")], ["the written XML, the re-read list's accessors and its re-written XML"])

p("C16", "A list read back from a CLF file processes like the original",
  "For every process list whose parameters are representable in the file (array entries to nine decimals, or as chosen by the float encoding; integral LUT table values for integer output depths), writing it to a plain or gzip CLF file and reading it back gives a list that maps every pixel to the same values up to that representation error. This includes all node types, all parameters, styles, index maps, per-channel parameters, groups, bypass flags, half-domain tables and every float encoding. The file itself, interpreted independently of this library, denotes that same transform.",
  ["inputs"], "every process list over all node types and encodings, every pixel",
  TESTS + "they compare one pixel for one example list.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"IndexMap.py", C+"ASCCDL.py", C+"Range.py", C+"ExtensionGamma.py", C+"ExtensionLog.py", C+"ExtensionExposureContrast.py", C+"ExtensionGroup.py"], [("per-element write and read", "write/read/readChild of every element class")], ["results before/after, independent evaluation of the written XML"])

p("C17", "Float encodings round-trip every bit pattern",
  "An array written with the 16-, 32- or 64-bit integer or hexadecimal float encoding, or with raw half values, stores for each entry the exact bit pattern of the entry rounded to that width, in the documented notation, and reading it restores exactly that value, for every finite value, signed zero and denormal, and in tables of floating-point output depth also for infinities (and a NaN as a NaN). Hexadecimal digits are accepted in either case. An array written without encoding restores every value to within 1e-9 plus float32 rounding.",
  ["inputs"], "all bit patterns of each width (all 65536 halves exhaustively), all encodings, all array kinds (1D, 3D, matrix)",
  TESTS + "a few typical positive values are encoded.",
  [C+"Array.py", C+"Common.py"], [("bit-wise conversion helpers", C+"Common.py"), ("encoding dispatch", C+"Array.py write/read")], ["array text in the written XML and values read back"])

p("C18", "Independently authored CLF files are interpreted correctly",
  "A valid CLF document written by other software is read as the transform it denotes, independent of attribute order, element order among a node's children, namespace prefixes or default namespaces, comments, whitespace and line layout, XML declaration and encoding, hyphen or underscore spelling of element names, and number notation (signs, exponents). Optional attributes and elements that are absent take their defaults, unknown elements are skipped without disturbing the rest unless strict reading is requested, and true/false attributes are honoured in any capitalisation.",
  ["inputs"], "every valid CLF document over the supported elements, in any surface form",
  "The tests read only files written by the library itself, in one surface form.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"IndexMap.py"], [("tag normalisation and attribute reading", C+"ProcessNode.py read/getElementType, ProcessList.py read")], ["results of lists read from independently generated XML against an independent evaluator"])

p("C19", "Feature-set settings gate extensions exactly as declared",
  "For each of the four feature-compatibility settings, exactly the operations outside that feature set are refused: strict reading raises the library's unsupported-extension error for ExposureContrast, Gamma, Log, Reference and dynamic parameters without Autodesk and for Group without Duiker Research, at any nesting depth, and the unknown-element error for unknown process elements; non-strict reading accepts all of them. Setting or writing a float encoding, writing gzip, and reading gzip need Duiker Research, and processing the Autodesk-only CDL style names needs Autodesk. What is inside the feature set is never refused, and the setting can be changed at any time with immediate effect.",
  ["configurations", "histories"], "all feature settings x strict flags x extension kinds x nesting x plain/gzip files, in any order of setting changes",
  "The tests never change the feature setting or use strict mode systematically.",
  [C+"Common.py", C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"ASCCDL.py", C+"ExtensionGroup.py", C+"Errors.py"], [("global feature mask tested at each extension point", C+"Common.py getFeatureCompatibility users")], ["raised error types or successful completion"],
  [("feature mask", "which extensions are enabled", C+"Common.py compatibility")])

p("C20", "CLF file writing is complete, faithful and refuses cleanly",
  "A successful write leaves at the path exactly one complete, well-formed XML document (gzip-compressed if and only if requested) holding the list, replacing any previous content including longer content, and a plain and a gzip write of the same list hold identical documents. Reading recognises gzip and plain files by content, not by name. A write refused because of the feature set raises the error and leaves an existing file unchanged, a write that fails because the list holds text no XML document can hold leaves it unchanged too, and reading a missing or malformed file raises an error rather than returning a list.",
  ["inputs", "fault_sequences"], "every list, write mode, previous file content, file name, feature setting and malformed/truncated file",
  TESTS + "files are written once to fresh paths.",
  [C+"ProcessList.py"], [("document built before the file is opened", C+"ProcessList.py writeFile"), ("gzip first, plain otherwise", C+"ProcessList.py readFile")], ["bytes on disk, raised errors, re-read list"])

p("C21", "Self-contained writes inline references without changing the transform",
  "Writing a process list self-contained replaces every resolvable Reference, at any depth (inside groups and inside referenced files), by the nodes it refers to, in place and in order, so that the written file contains none, no longer depends on other files and maps every pixel as the original did, bypassed references included. A normal write keeps the References with their path attributes, and reading that file resolves them again to the same transform. Neither kind of write changes the list in memory or what a later write of the other kind produces, and unresolvable references are kept as they are.",
  ["inputs", "histories"], "every list with references at any depth, every order of self-contained and normal writes, every pixel",
  "One test writes one reference.",
  [C+"ProcessList.py", C+"ExtensionReference.py", C+"ExtensionGroup.py"], [("write flag handed to references", C+"ProcessList.py write, ExtensionGroup.py write, ExtensionReference.py write")], ["written XML, results before/after with referenced files removed"])

p("C22", "LUT files are converted into equivalent process lists",
  "Reading a .spi1d (1 or 3 components), .spi3d or .csp (1D, 3D, with or without shaping preluts) file yields a process list that maps every pixel within the file's input range to what the file denotes, including its declared input range, and holds the boundary result outside that range. The reader does not depend on blank lines, indentation, metadata content, sample formatting or letter case of the file extension, and for all lattice shapes the red-fastest sample order of .csp is honoured, as are the indices on a .spi3d line, in whatever order the lines come. Shaping preluts of more than two points are resampled, so results may deviate only within one resampling step of the input. An interpolation asked for is the one the LUT node of the list has.",
  ["inputs"], "every well-formed file of these formats, sizes and ranges, every pixel",
  "The LUT-format tests cannot run to completion here and read one example per format.",
  [L+"LutSPI.py", L+"LutCSP.py", L+"Registry.py"], [("format parsers", L+"LutSPI.py readSPI1D/readSPI3D, LutCSP.py readCSP/generateCLFPrelut")], ["results of the returned list against an independent reader"])

p("C23", "Process lists are exported to LUT files that sample them faithfully",
  "Exporting a process list as a 1D LUT (.spi1d, .csp, .ctl) or a 3D LUT (.spi3d, .csp, .ctl) writes a well-formed file of the requested resolution and declared input range whose every entry, interpreted by the target format's own sample order, is the list's result for the input at that grid position, to the printed precision. Exporting to an unsupported format or mode reports so and creates no file, and an export that is made is not reported so. Reading back an exported .spi1d or .csp file reproduces the list exactly at the grid positions, and .spi3d too for the [0,1] range.",
  ["inputs", "configurations"], "every list, resolution >= 2, input range, format and mode",
  "The LUT-format tests cannot run to completion here and never check the written samples.",
  [L+"Sampling.py", L+"LutSPI.py", L+"LutCSP.py", L+"LutCTL.py", L+"LutFormat.py", L+"Registry.py"], [("grid sampling", L+"Sampling.py sample1D/sample3D"), ("format writers", "write1D/write3D of each format")], ["written files parsed independently, results of the original list at the grid"])

p("C24", "Inverse 1D LUT conversion really inverts the LUT",
  "Reading a strictly increasing .spi1d LUT as inverse gives a list that maps the LUT's output back to its input for every value in the LUT's output range, for all three inversion methods: exactly (up to rounding) with index maps, to half-float resolution with the half domain, to within one resampling step with resampling (to at least twice the LUT's entries), respecting the declared input range and each component's own curve. For finite values outside the output range (with the half domain: within the range of half floats) the result is held at the ends of the input range. Flat segments within an otherwise increasing LUT never make the conversion or the processing fail.",
  ["inputs", "configurations"], "every monotone 1D LUT of 1 or 3 components, input range, inversion method and pixel",
  "No test inverts a LUT.",
  [L+"Sampling.py", L+"LutSPI.py"], [("three inverse generators", L+"Sampling.py generateLUT1DInverse*")], ["forward list composed with inverse list"])

p("C25", "1D/3D/1D conversion reproduces the transform through its shapers",
  "Converting a process list to a 1D/3D/1D .clf or .csp with a linear, log2 or absent input shaper (and for .clf an output shaper) gives a file whose transform equals the original at every lattice point of the shaped input domain, when those results lie within the output shaper's range, up to the shapers' own sampling error. The file has the requested resolutions, its input shaper maps the declared input range onto [0,1] and its output shaper is the inverse of the one applied to the samples. Between lattice points a transform that is affine in shaped space is reproduced up to shaper sampling error.",
  ["inputs", "configurations"], "every list, shaper type and range for input and output, resolutions",
  "No test converts with shapers.",
  [L+"Sampling.py", L+"LutCLF.py", L+"LutCSP.py", L+"LutFormat.py"], [("shaper construction and sampling", L+"Sampling.py createShaper/sample1D3D1D"), ("writers", L+"LutCLF.py writeCLF1D3D1D, LutCSP.py writeCSP1D3D")], ["the written file read and evaluated at shaped lattice points"])

p("C26", "Image filtering applies the list to every pixel exactly once",
  "Filtering an image writes an image of the same size, channels and metadata whose every pixel is the process list's result for the corresponding input pixel, with the image's bit depth converted to the list's input depth and the list's output depth converted to the output image's depth. Integer outputs are rounded to nearest and limited to the representable range; 10- and 12-bit data keep their scale. The result is the same for every worker count, row count, row width and completion order, single-threaded included, and an unreadable input produces no output.",
  ["inputs", "configurations", "schedules"], "every image size, channel count, bit depth in/out, process list and worker count, and the observed completion orders",
  "Nothing tests image filtering: it needs an image library that is absent.",
  [T+"filterImageWithCLF.py"], [("row dispatch over a process pool", T+"filterImageWithCLF.py filterImageWithCLF, filterRow_*"), ("pixel packing", T+"filterImageWithCLF.py readPixelArray/writePixelArray")], ["pixels handed to a recording image library stand-in against direct processing"])

p("C27", "OCIO conversion keeps the order and meaning of transforms",
  "Converting OCIO colour spaces to CLF concatenates, in order, every source's to-reference transform and then every destination's from-reference transform, flattening nested groups, into one list that maps pixels as those transforms do: forward matrices with offsets (RGB part), base-2 and base-10 logs in both directions, and LUT files with their requested interpolation and direction looked up on the config's search path; an inverse group applies its children in opposite direction and order. A transform it has no node for contributes none. Each node is named and described after its colour space and position, and the list's description names the config and all colour spaces in order. If nothing is convertible, no file is written.",
  ["inputs", "configurations"], "every config of group, matrix, log and file transforms, any nesting, any source/destination lists",
  "Nothing tests the converter: it needs a library that is absent.",
  [T+"convertOCIOtoCLF.py"], [("recursive transform conversion", T+"convertOCIOtoCLF.py convertTransformsToProcessNodes")], ["the written CLF evaluated against an independent evaluation of the OCIO stand-in objects"])

p("C28", "Editing a list or node takes effect like building it afresh",
  "After any history of edits through the public setters (attributes, bit depths, bypass, styles, bounds, CDL values, matrices, tables, index maps, exposure parameters, adding nodes, elements and value elements), a list processes, reports and serialises exactly as a list built directly in its final state: the latest setting wins, earlier ones leave no trace, and getters return what was last set (nothing for what was never set). A list is counted, walked, indexed and searched by name as its nodes in order. Edits interleaved with processing, printing and writing take effect immediately. Editing one node or list never affects another.",
  ["histories"], "every sequence of public edit, query, process and write operations",
  "The tests set each thing once, before use.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Range.py", C+"ASCCDL.py", C+"Matrix.py", C+"LUT1D.py", C+"LUT3D.py", C+"ExtensionExposureContrast.py", C+"ExtensionGamma.py", C+"ExtensionLog.py", C+"ExtensionGroup.py"], [("setters", "set*/add* methods")], ["getters, process results and written XML against a list rebuilt from the model state"])

p("C29", "Command-line tools do what their options say",
  "The command-line converters, run with any combination of their documented options, produce the same file as the corresponding library call with those option values, defaults included: mode, resolutions, input range, shapers, inverse and inverse method, source and destination spaces, output bit depth and worker count. Each option affects only what it documents. Missing required options produce no output file.",
  ["configurations"], "every combination of options of the converters and the image filter",
  "No test runs the tools.",
  [T+"convertCLFtoLUT.py", T+"convertLUTtoCLF.py", T+"convertOCIOtoCLF.py", T+"filterImageWithCLF.py", "python/bin/clfinfo", "python/bin/convertCLFtoLUT", "python/bin/convertLUTToCLF"], [("option parsing", "main functions of the tools")], ["files produced by main() against library calls"])

p("C30", "Information printing reports what the list really contains",
  "Printing a list's information (also through the info tool) reports, in order, its attributes, value elements, descriptions and info entries, and for every node, nested ones included, its type, attributes, value elements, dynamic parameters, descriptions and parameter values as they are in force. Tables and index maps are shown completely when short and by their first and last three rows when long. It never fails on a list the library can write or read.",
  ["inputs"], "every process list over all element types and table sizes",
  "The tests never look at the printed information.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"IndexMap.py", C+"Comment.py", C+"Info.py", C+"ASCCDL.py", C+"ExtensionGamma.py", C+"ExtensionLog.py", C+"ExtensionExposureContrast.py", C+"ExtensionGroup.py", C+"ExtensionReference.py", "python/bin/clfinfo"], [("printInfo methods", "printInfo/printInfoChild of all classes")], ["captured standard output"])

p("C31", "LUT helper constructors sample the given function on the exact grid",
  "The helper that builds a sampled 1D LUT stores f at i/(resolution-1) in every channel, the half-domain helper stores f of the half float with code i at entry i for all 65536 codes, and the 3D helper stores f(r,g,b) at each lattice point with blue varying fastest, for equal and unequal axis sizes. Bit depths, id and name are those given and argument lists are left unmodified. Processing the returned node therefore returns f at every grid position.",
  ["inputs"], "every resolution, channel count, function and lattice shape",
  "The tests build one LUT of each kind and look at one pixel.",
  [C+"LUT1D.py", C+"LUT3D.py"], [("grid loops", C+"LUT1D.py simpleSampledLUT/simpleSampledLUTHalfDomain, LUT3D.py simple3DLUT")], ["recorded calls of f, stored table values and process results"])

p("C32", "Damaged or incomplete LUT and CLF files are never taken for complete",
  "A .spi1d, .spi3d, .csp or CLF file whose content contradicts what it declares (values or samples missing or left over, counts, dimensions or columns that disagree, something that is no number where one belongs, a file or gzip stream cut short) is refused with an error or a report and yields no process list, so the converter writes no file from it. A complete file, in any legal layout, is never refused.",
  ["inputs", "crash points"], "every complete file of the four formats and every place and kind of damage that changes what the file says",
  "The tests only read complete files.",
  [C+"Array.py", C+"IndexMap.py", C+"ProcessList.py", L+"LutSPI.py", L+"LutCSP.py", L+"Registry.py", T+"convertLUTtoCLF.py"], [("completeness checks of the readers", L+"LutSPI.py readSPI1D/readSPI3D, LutCSP.py readCSP, Array.py read")], ["Registry.read, ProcessList(path) and the converter's output on an intact file and its damaged copies"])

p("C33", "LUT formats are found by extension and capability",
  "LUT formats, the built-in ones and any a user adds by deriving from the format base class, are found by file extension: reading and writing try only formats that declare the path's last extension in any letter case and have the needed capability (reading, or writing 1D, 3D or 1D/3D/1D data) for it, each at most once and until one succeeds, handing over all options, defaults included, unchanged. What a reading format returns is delivered as its nodes, in order and unaltered, alone or in a list with the default attributes, as requested; if no format succeeds nothing is returned and this is reported. A format's descriptions, extensions and capabilities (for one extension or all) are those it declares.",
  ["inputs", "configurations"], "every set of registered formats, declared extensions and capabilities, path and option combination",
  "The tests never use the registry.",
  [L+"Registry.py", L+"LutFormat.py", L+"Sampling.py"], [("format lookup", L+"Registry.py Registry.read/write"), ("capability declarations", L+"LutFormat.py")], ["recorded calls of generated LutFormat subclasses, their arguments and what the registry returns"])

p("C34", "Node and element types added by users work like built-in ones",
  "A ProcessNode or element class derived from the library's base classes is used for every element of its name when a file is read (hyphens and underscores in the name ignored, in any namespace, within groups too): each child element unknown to the base class is offered to readChild once, in document order, readInitialize is called once after the children, and attributes and known elements are kept. Such nodes take part in processing in order (without an own process method they change nothing), are printed under their type and are written with their attributes, elements and own children so that they are read again the same. Strict reading accepts added types and refuses unknown ones; the latest definition of a name is the one used.",
  ["inputs", "histories"], "every set of derived classes and every document and list using them",
  "The tests define no types of their own.",
  [C+"ProcessNode.py", C+"ProcessList.py", C+"ExtensionGroup.py", C+"Comment.py", C+"Info.py"], [("class registration", C+"ProcessList.py serializableClasses, metaclasses of ProcessNode"), ("reading and writing of nodes", C+"ProcessNode.py read/write")], ["events recorded by generated classes, process results, printed text and written XML"])

p("C35", "Copies of lists and nodes are equivalent and independent",
  "A deep copy or an unpickled copy (any protocol, also as it is sent to a worker process) of a process list or node, whatever was done to the original before, processes every pixel, prints and serialises exactly as the original. Editing, processing, printing or writing the original or the copy afterwards never affects the other, and the edited one behaves as if built afresh in its new state.",
  ["inputs", "histories"], "every list, every history before the copy and every edit sequence after it",
  "The tests never copy a list; the parallel image filter relies on it.",
  [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"IndexMap.py", C+"LUT1D.py", C+"LUT3D.py", C+"ExtensionReference.py", C+"ExtensionGroup.py"], [("object state", "attributes of all classes")], ["process results, printed information and written XML of original and copy before and after edits"])

p("C36", "Tables, index maps and sampling work the same when used directly",
  "The building blocks give exact results when used on their own. Array lookups hold positions outside the table at its ends and are linear in between, half-domain lookups use the entries of the neighbouring half floats (linearly or the nearest), 3D lookups are trilinear or tetrahedral. Index maps are piecewise linear, held at their ends. Evaluation cached for half floats equals plain evaluation at every half float and is linear in between, also after the values were replaced. The sampling functions evaluate the list at each grid position, for axes of equal and unequal size, and every shaper is undone by its inverse.",
  ["inputs", "histories"], "every table, index map, shaper and grid, every position and every order of setting values and evaluating",
  "The tests use them only inside two nodes.",
  [C+"Array.py", C+"IndexMap.py", L+"Sampling.py"], [("lookups", C+"Array.py lookup*"), ("cached evaluation", C+"IndexMap.py"), ("grid sampling and shapers", L+"Sampling.py")], ["return values of lookups, index map evaluation, shapers and sampling functions"])

p("C37", "Verbose processing reports every step truthfully and changes nothing",
  "Processing a list with verbose=True returns exactly what plain processing returns, and prints what happened: how many values with which stride a list (or a referenced one) was given, then for every node applied, in order, its name, its type and each value it produced to six decimals, nodes inside groups and references included and marked as such. Bypassed nodes are reported as bypassed, together with the bit-depth adaptation made for them and its result, or, directly in a list, as having their bypass ignored where the feature set demands it. Plain processing reports nothing.",
  ["inputs", "configurations"], "every list with groups, references and bypassed nodes, under every feature setting, every pixel buffer",
  "The tests process verbosely and look only at the final value.",
  [C+"ProcessList.py", C+"ExtensionGroup.py", C+"ExtensionReference.py"], [("verbose reports", "process methods of ProcessList, Group and Reference")], ["captured standard output against the values seen by recording nodes, results of verbose and plain calls"])

p("C38", "Bit-depth and bit-pattern conversions are exact and undo each other",
  "Converting a value to its normalized form divides by 255, 1023, 4095 or 65535 for the integer bit depths and changes nothing for the float ones; converting from normalized form multiplies; one undoes the other up to rounding, for numbers and arrays of every type. A bit depth is an integer or a floating point one, never both. Half, float and double values convert to their 16, 32 and 64 bit integer patterns and hexadecimal text (most significant byte first) and back without changing a bit, NaNs remaining NaNs. The feature compatibility in force is the one last set.",
  ["inputs"], "all 65536 half patterns, every float and double pattern, every bit depth and value",
  "The tests convert a few positive values on the way through nodes.",
  [C+"ProcessNode.py", C+"Common.py"], [("bit depth conversion", C+"ProcessNode.py bitDepthToNormalized/normalizedToBitDepth/bitDepthSize"), ("bit patterns", C+"Common.py")], ["return values of the conversion functions"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d) + "\n")
print(len(P))
