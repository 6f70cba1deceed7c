"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
BV, JP, BC, EP, MX = ("jpylyzer/boxvalidator.py", "jpylyzer/jpylyzer.py",
                      "jpylyzer/byteconv.py", "jpylyzer/etpatch.py", "jpylyzer/mix.py")
XSD = "xsd/jpylyzer-v-2-2.xsd"
P = []
SRC = {}


def where(sym, files):
    name = sym.split(".")[-1].rstrip("*")
    for f in files:
        if f.endswith(".py"):
            if f not in SRC:
                SRC[f] = open("/repo/" + f).read()
            if ("def %s" % name) in SRC[f] or ("class %s" % name) in SRC[f]:
                return f
    return files[0]


def p(id, title, statement, over, text, why, files, symbols):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [
                  {"name": m, "where": where(m, files)} for m in symbols],
                  "observe_at": ["checkOneFile() result", "command line output"],
                  "hook_needed": None}})


NOPARSE = ("The existing tests exercise only the byte conversion helpers, the list helper and "
           "a walk over absent sample files; no test parses an image, so ")

p("C01", "The verdict is exactly the conjunction of all reported tests",
  "For every input and option set, isValid is True if and only if every test carried out on any box or marker "
  "segment passed (and the file was processed successfully). Verbose output lists every test that was carried out "
  "with its outcome; non-verbose output lists exactly the failed ones, at the same place in the tree, "
  "and both give the same verdict.",
  ["inputs", "configurations"], "every byte sequence x format x verbose/non-verbose x other options",
  NOPARSE + "the relation between tests and verdict is never observed; it must hold for every combination of failing tests at every nesting level.",
  [BV, JP], ["BoxValidator._isValid", "BoxValidator.testFor", "checkOneFile"])
p("C02", "Every input yields a complete report in bounded time",
  "For any byte sequence, any validation format and any options, analysis terminates within work and memory "
  "proportional to the file size, and returns a complete report (file info, status info, verdict, tests, properties, "
  "warnings) with success = True. Corruption, truncation or nonsensical field values never surface as an "
  "internal error, an exception, a hang or disproportionate resource use; they only make the file invalid.",
  ["inputs", "configurations"], "all byte sequences (well-formed, mutated, truncated, hostile) x formats x options",
  NOPARSE + "no malformed image is ever fed to the parser; robustness quantifies over all byte sequences.",
  [BV, BC, JP], ["BoxValidator", "checkOneFile", "bytesToInteger"])
p("C03", "Conforming images are accepted",
  "Every file that conforms to the rules of its format (JP2, JPH, or raw J2C/JHC codestream), whatever legal optional "
  "boxes, marker segments, component counts, tilings, tile-part orders and field values it uses, is reported valid, with "
  "every individual test passing.",
  ["inputs"], "all conforming images of the four supported formats",
  NOPARSE + "acceptance of the legal variations of the format (tile-parts, >256 components, extended box lengths, ...) is never sampled.",
  [BV], ["BoxValidator.validate_*"])
p("C04", "Every violated container (box) rule is detected by its own test",
  "For every file in which a box of the JP2 container breaks one of the documented rules (box presence, order, "
  "multiplicity, length or permitted field values in signature, file type, header, colour, palette, mapping, channel, "
  "resolution, UUID, URL and XML boxes), the corresponding test is reported False and the file invalid. No container test is "
  "reported False unless its rule is broken.",
  ["inputs"], "all container layouts and field values",
  NOPARSE + "not one of the container rules is exercised in either direction.",
  [BV], ["validate_JP2", "validate_jp2HeaderBox", "validate_imageHeaderBox", "validate_*Box"])
p("C05", "Every violated codestream header rule is detected by its own test",
  "For every codestream in which a main-header or tile-part-header marker segment (SIZ, CAP, PRF, COD, COC, QCD, QCC, RGN, POC, "
  "CRG, COM, CPF) breaks a documented rule (length, permitted values, internal consistency, required presence, at most one "
  "per component), the corresponding test is reported False and the file invalid. No such test is reported False unless its rule is broken.",
  ["inputs"], "all marker segment field values, for component counts below and above 257, all formats",
  NOPARSE + "marker-segment rules are never exercised.",
  [BV], ["validate_siz", "validate_cod", "validate_coc", "validate_qcd", "validate_qcc", "validate_poc", "validate_cap"])
p("C06", "Truncated codestreams and broken tile-part structure are never reported valid",
  "A file cut off anywhere before the end of its codestream is never reported valid. A codestream whose tile-parts do not "
  "chain up (wrong tile-part length, missing start-of-data or end-of-codestream marker, missing or surplus tiles, wrong number of "
  "tile-parts, header-only markers in later tile-parts) fails the corresponding structural test, and a codestream whose tile-parts are complete passes all of them.",
  ["inputs", "crash_points"], "all codestream layouts x every truncation point and tile-part corruption",
  NOPARSE + "truncation (an interrupted transfer or write) can happen at any byte; tests sample none.",
  [BV], ["validate_contiguousCodestreamBox", "validate_tilePart", "validate_sot"])
p("C07", "Container properties are reported exactly as stored",
  "For every box of the container that jpylyzer knows, every reported property equals the value stored in the file "
  "(decoded as the standard prescribes, with the documented text for enumerated values), for all values, "
  "with one entry per stored occurrence in file order, and no property is invented or lost.",
  ["inputs"], "all boxes and all stored field values, valid or not",
  NOPARSE + "value extraction, offsets and bit fields are never compared with file contents.",
  [BV, JP, EP], ["validate_*Box", "generatePropertiesRemapTable", "makeHumanReadable"])
p("C08", "Codestream properties are reported exactly as stored",
  "For every marker segment that jpylyzer knows in the main header and the tile-part headers, every reported property equals the stored value "
  "(decoded as the standard prescribes, component indices being one or two bytes wide depending on the number of components, with the documented text for "
  "enumerated values), once per stored occurrence and attached to the segment and tile-part it belongs to.",
  ["inputs"], "all marker segments, all field values, component counts below and above 257",
  NOPARSE + "marker-segment decoding is never compared with file contents.",
  [BV, JP], ["validate_siz", "validate_cod", "validate_coc", "validate_qcc", "validate_poc", "validate_tilePart"])
p("C09", "Derived metrics agree exactly with the stored values they summarise",
  "The resolutions in pixels per metre and per inch, the compression ratio (for both container formats and raw codestreams) and "
  "the number of tiles equal, to the documented precision, the exact rational function of the stored "
  "fields that defines them, for every combination of field values including image and tile offsets.",
  ["inputs"], "all field values entering the formulas",
  NOPARSE + "no derived value is ever computed by a test.",
  [BV], ["_calculateCompressionRatio", "validate_captureResolutionBox", "validate_displayResolutionBox", "validate_siz"])
p("C10", "Disagreement between header box and codestream is always detected",
  "For every container file with an image header and a SIZ segment, each of the five consistency tests (height, width, number of components, "
  "sign and bit depth of every component, with the bits-per-component box consulted when depths vary) is True exactly when "
  "the two descriptions agree, and any disagreement makes the file invalid.",
  ["inputs"], "all pairs of header box and codestream descriptions",
  NOPARSE + "agreement is a relation between two distant parts of a file; tests never build such a file.",
  [BV], ["validate_JP2"])
p("C11", "Reporting options never influence verdict, tests or properties",
  "The verbose, packet-marker, null-XML and MIX options change only what they are documented to add to or omit from the report; verdict, "
  "test outcomes, all other properties and warnings are identical for every combination of options. The packet-marker option "
  "adds or omits only the packet-level marker details, null-XML adds only extracted XML content, MIX adds only the extension element.",
  ["inputs", "configurations"], "all inputs x all option combinations",
  NOPARSE + "options are never combined with images in tests.",
  [BV, JP, MX], ["checkOneFile", "BoxValidator.testFor"])
p("C12", "Command line output is well-formed, faithful and schema-conformant",
  "For any set of input files the command writes one well-formed UTF-8 XML document with one file element per analysed file, in order, whose "
  "content equals the analysis result of that file; pretty-printed and non-pretty output are equivalent. Arbitrary bytes in the "
  "image or in the file name never make the document ill-formed, and output for valid images conforms to the published schema.",
  ["inputs", "configurations"], "all file contents, file names and output options",
  NOPARSE + "the command line is never run on an image by a test, and no output is validated against the schema.",
  [JP, EP, BC, XSD], ["checkFiles", "writeElement", "makeHumanReadable", "bytesToText"])
p("C13", "MIX output exists exactly for valid container images and is truthful",
  "When MIX output is requested, a propertiesExtension element is present, and holds a MIX record of the requested version exactly when the image is valid and "
  "in a container format. Every value in the record (size, dimensions, colour space, samples and bits per sample, compression, tiles, levels, layers, "
  "resolution, capture metadata) equals the one derivable from the reported properties, and producing it never fails.",
  ["inputs", "configurations"], "all valid images x MIX version",
  NOPARSE + "MIX generation is not reached by tests.",
  [MX, JP], ["Mix.generateMix", "checkOneFile"])
p("C14", "Exactly the requested files are analysed, each once per request",
  "For every combination of path arguments (files, directories, wildcards, recursion, missing paths) the report contains exactly the "
  "regular files those arguments denote, in argument order, each once per argument that denotes it; unrelated files are never included and no denoted file is dropped, whatever "
  "characters their names contain. Missing paths are warned about, do not stop the run, and a run "
  "without any file exits with the documented error code.",
  ["inputs", "configurations"], "all directory trees, file names and argument lists",
  "The tests call file discovery on one fixed layout; trees with nested directories, special characters, dangling links and mixed arguments are not sampled.",
  [JP], ["findFiles", "getFiles", "getFilesFromTree", "getFilesWithPatternFromTree", "checkNoInput"])
p("C15", "Analysis is deterministic, isolated and read-only",
  "The report for a file depends only on its name, metadata and contents and the options: analysing it again, after or between any other files, in the same or a new process, memory-mapped or not, "
  "gives the identical result. Analysis never modifies, creates, locks or leaves open any file, and leaves no trace in process state.",
  ["inputs", "histories", "configurations"], "all inputs x all histories of earlier analyses in the process x access paths",
  NOPARSE + "histories of analyses in one process are never compared.",
  [JP, BV, "jpylyzer/config.py"], ["checkOneFile", "fileToMemoryMap", "fileToBytes"])
p("C16", "Embedded metadata is reported verbatim and judged correctly",
  "Every well-formed XML document embedded in an XML box or an XMP UUID box is reported as a tree identical to the stored one "
  "(elements, namespaces, attributes, text; unprintable control characters are dropped from text), and ill-formed content fails the well-formedness test and is not reported. "
  "Other UUIDs, UUID lists and URLs are reported exactly as stored; null-terminated XML is extracted only on request and remains ill-formed for validation.",
  ["inputs", "configurations"], "all embedded XML documents, UUIDs, UUID lists and URLs",
  NOPARSE + "embedded metadata is never parsed by a test.",
  [BV, EP], ["validate_xmlBox", "validate_uuidBox", "validate_uuidListBox", "validate_urlBox"])
p("C17", "Unknown boxes and marker segments are skipped, not misread",
  "Inserting a box of unknown type at any box boundary where the order rules permit one (not ahead of the signature, file type or image header box, nor between colour specification boxes), or a marker segment of unknown type in a main or tile-part header, changes "
  "neither the verdict nor any other test or property apart from size-derived values. Each unknown box is reported with its type and one warning; unknown marker segments are passed over silently.",
  ["inputs"], "all files x all insertion points x all unknown types and contents",
  NOPARSE + "insertion at every boundary is a metamorphic relation no test expresses.",
  [BV], ["validate_unknownBox", "_getBox", "_getMarkerSegment"])
p("C18", "Equivalent encodings of the same image give the same report",
  "Rewriting any box length in extended (64-bit) form, or the last box's length as zero, or making the length of the last tile-part zero, changes neither the verdict nor any property except those that state the changed field or the file size. "
  "Wrapping a raw codestream in a container leaves all its marker-level tests and properties unchanged.",
  ["inputs"], "all files x all equivalent length encodings",
  NOPARSE + "relational equivalence between encodings is never sampled.",
  [BV], ["_getBox", "validate_JP2", "validate_tilePart"])
p("C19", "Each validation format applies its own rules",
  "The JP2, JPH, J2C and JHC rule sets differ exactly as documented: brand and compatibility, permitted colour methods and channel types, optional colour box in JPH, "
  "Rsiz and CAP requirements, high-throughput code block style properties, ROI shift limit, and the absence of container tests for raw codestreams. "
  "An image valid in one format is judged under another format by that format's rules only, and the reported verdict names the requested format.",
  ["inputs", "configurations"], "all images x all four validation formats",
  NOPARSE + "no file is ever validated against more than one format.",
  [BV, JP], ["validate_fileTypeBox", "validate_colourSpecificationBox", "validate_channelDefinitionBox", "validate_siz", "validate_cap", "validate_rgn"])
p("C20", "File and status information is truthful, also under I/O faults",
  "The reported file name, path, size and modification time are those of the analysed file, and success is True exactly when the analysis ran to completion. "
  "When an existing file cannot be opened or read, or memory runs out, the report says so (success False, verdict False, matching failure message) instead of "
  "raising, and the remaining files of the run are still analysed.",
  ["inputs", "fault_sequences"], "all file names, sizes and timestamps x faults in opening, mapping or reading",
  NOPARSE + "no fault is injected by any test.",
  [JP], ["checkOneFile", "fileToMemoryMap", "fileToBytes", "stripSurrogatePairs"])
p("C21", "Exit status and output streams tell the truth",
  "Given usable arguments that name at least one existing file, the command exits with status 0 after writing one complete report document to standard output, whatever the verdicts are. "
  "Every other ending (unusable arguments, no image found, output that cannot be written in full) has a non-zero status; unusable arguments produce a message on standard error and no report. "
  "Diagnostics go to standard error only. Every accepted spelling and position of an option, and every way of starting the tool, gives the same report (apart from the tool name); "
  "--version prints the version that reports carry.",
  ["configurations", "fault_sequences"], "all command lines and ways of starting the tool x faults of the output stream",
  NOPARSE + "the command line and its exit status are never exercised by a test.",
  [JP, "jpylyzer/shared.py", "cli.py"], ["main", "parseCommandLine", "checkFiles", "checkNoInput", "errorExit"])
p("C22", "Packet-level markers are counted and decoded exactly",
  "The reported numbers of PLM, PPM, PLT and PPT segments equal the number stored in the main header and in each tile-part header. On request, every such segment "
  "is reported, with index and the complete list of packet lengths it encodes, each decoded from its 7-bit groups without loss or invention.",
  ["inputs", "configurations"], "all packet length sequences and segment counts",
  NOPARSE + "packet length decoding is never executed.",
  [BV], ["_parse_ipl", "validate_plt", "validate_plm", "validate_tilePart"])
p("C23", "ICC profiles are described and judged exactly",
  "For every embedded ICC profile each reported property (header fields, flags, attributes, illuminant, tag list in order, description) equals the content of the profile, regardless of tag order, tag offsets and number of tags. "
  "For restricted ICC profiles the size, profile class and no-LUT tests are True exactly when the rule holds.",
  ["inputs"], "all ICC profiles",
  NOPARSE + "no ICC profile is ever parsed by a test.",
  [BV], ["validate_icc", "validate_colourSpecificationBox"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    n = x["statement"].count(". ") + 1
    if n > 3 or len(x["title"]) > 80:
        print(x["id"], n, len(x["title"]))
