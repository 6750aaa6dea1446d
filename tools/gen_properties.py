import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
S="src/vfbLib/"
p("C01","Variable-length numbers decode exactly, encode minimally, never guess",
"Every signed 32-bit integer, encoded with the file format's variable-length number code and decoded again, gives the same integer and consumes exactly the bytes written, and the encoder always picks the shortest form that can hold the value. Every well-formed byte form, also one that is longer than necessary, decodes to the value the format assigns to it, as signed or unsigned according to what the reader asked for. A lead byte that the format does not define, or a number cut short by the end of the data, is reported as an error and never turned into a number. The long form, where it is asked for, is the marker byte and four bytes. A value that no form can hold is refused and not cut down to one. The command line tool (yuri) decodes and encodes alike.",
["inputs"],"all 2^32 values, all lead bytes, all follow-up bytes, all truncations, any sequence of numbers in one stream",
"The value tests sample a few dozen values; the form boundaries, unsigned 5-byte values, over-long forms, stream position after each number and truncation are only settled over the whole domain.",
[S+"parsers/value.py",S+"compilers/value.py",S+"parsers/base.py",S+"compilers/base.py"],
[("read_value / read_encoded_value",S+"parsers/value.py"),("write_value / write_value_long",S+"compilers/value.py"),("StreamReader.read_value",S+"parsers/base.py")])
p("C02","Writing an unmodified file reproduces it; framing is exact for all sizes",
"Reading a VFB file and writing it again without changes produces the same bytes (for entry headers written in their canonical form), whichever entries it contains, known or unknown, and whether or not it is a multiple-master file. For every list of entries the written file is the file header followed by each entry's identifier, its exact data length (in the short form up to 65535 bytes and in the long form above) and its data, in list order, and reading it back gives the same header, identifiers and data in the same order. Reading starts at the entry offset that the header states, whatever its length, and stops at the end-of-file entry, and entries the caller asked to drop are the only ones missing.",
["inputs","configurations"],"all entry sequences, identifiers 0..0x7FFF, data sizes around and above 65535, header versions and padding, sets of dropped identifiers, numbers of masters",
"Tests round-trip a few complete sample files; the long-size form, unknown identifiers, special-size kerning records, order and dropped sets are quantified over all sequences.",
[S+"vfb/vfb.py",S+"vfb/entry.py",S+"vfb/header.py",S+"parsers/header.py",S+"compilers/header.py"],
[("Vfb.read_stream / Vfb.write_bytes",S+"vfb/vfb.py"),("VfbEntry.read / VfbEntry.header",S+"vfb/entry.py"),("VfbHeader",S+"vfb/header.py")],
[("entries","ordered (id, data) list")])
p("C03","Font-level records: decoding follows the format, re-encoding loses nothing",
"For every well-formed font-level or metadata record (numbers, strings, bit sets, hinting zones, stems and options, TrueType tables, name records, encodings, axis and master data, guides and so on) the decoded value is the one the format assigns to the bytes. Encoding the decoded value gives a record that decodes to an equal value, and for records in canonical form it gives the original bytes. Decoding consumes the entire record.",
["inputs","configurations"],"all well-formed payloads of every record type that has an encoder, for all numbers of masters, axes and stems and both writer platforms",
"Each record type has one or two sample byte strings in the tests; sign, count, order, boundary and rounding errors show up only on other values, other counts or more than one master.",
[S+"constants.py",S+"parsers/",S+"compilers/"],
[("parser_classes: identifier to decoder and encoder",S+"constants.py"),("record decoders",S+"parsers/"),("record encoders",S+"compilers/")])
p("C04","Glyph records: decoding follows the format, re-encoding loses nothing",
"For every well-formed glyph record the decoded glyph carries exactly the stored name, advance metrics, outline nodes of every master with their absolute coordinates, curve types and flags, stem hints and hint replacement masks, guides, components, kerning pairs, imported binary data and TrueType instructions. Encoding the decoded glyph and decoding it again gives an equal glyph, for every number of masters and with any part missing or empty. A glyph part the caller did not touch is never changed, dropped or moved to another master by re-encoding.",
["inputs","configurations"],"all well-formed glyph records for 1..16 masters, all combinations of present, absent and empty parts",
"Tests decode and encode about twenty recorded glyphs; relative-coordinate accumulation per master, node type and flag packing, hint and mask order and every combination of optional parts are quantified over all glyphs.",
[S+"parsers/glyph.py",S+"compilers/glyph.py",S+"parsers/guides.py",S+"compilers/guides.py",S+"truetype.py"],
[("GlyphParser",S+"parsers/glyph.py"),("GlyphCompiler",S+"compilers/glyph.py")])
p("C05","Glyph attachments and bitmaps: decode follows the format, re-encode is lossless",
"For every well-formed record that belongs to a glyph (anchors, anchor supplements, links, mask outlines and mask metrics, background and preview bitmaps, sketches, code points, origin, glyph-definition data, guide properties, hinting options, kerning flags) the decoded value is the one the format assigns to the bytes. A compressed bitmap decodes to exactly the stored rows of pixels, and every bitmap that is encoded decodes to the same pixels with the same size and position. Encoding the decoded value of any such record and decoding it again gives an equal value, for every number of masters and both writer platforms.",
["inputs","configurations"],"all attachment payloads, all bitmap sizes and run patterns including runs longer than 127 and widths that are no multiple of 8, all numbers of masters, both platforms",
"The tests hold a handful of byte strings and bitmaps; run splitting, literal/run boundaries, row padding, inversion and per-master order need all patterns.",
[S+"parsers/bitmap.py",S+"compilers/bitmap.py",S+"parsers/glyph.py",S+"compilers/glyph.py",S+"parsers/guides.py",S+"parsers/ps.py",S+"parsers/base.py"],
[("BaseBitmapParser / BaseBitmapCompiler",S+"parsers/bitmap.py, "+S+"compilers/bitmap.py"),("anchor, link, mask, sketch, unicode decoders and encoders",S+"parsers/glyph.py, "+S+"compilers/glyph.py")])
p("C06","Any history of decoding, editing, encoding and saving keeps the data right",
"For every sequence of decoding, editing, encoding, looking up glyphs by name, saving and re-reading, repeated in any order, the saved file always contains the latest value of each edited record and the unchanged bytes of every record that was only looked at (or, once decoded, bytes that mean the same). Every saved file is well-formed: each stated record length is the actual length, and re-reading gives the same records in the same order. Decoding or encoding twice in a row has the same effect as doing it once.",
["histories","inputs"],"all interleavings of decode, edit, encode, glyph lookup, save and re-read over files with several records",
"Tests exercise the single straight history read, decode, encode, compare; state left behind by an earlier step (cached headers, merged masters, cached glyphs) only shows in longer histories.",
[S+"vfb/vfb.py",S+"vfb/entry.py",S+"vfb/glyph.py",S+"vfb/header.py"],
[("VfbEntry.decompile / compile / header / size",S+"vfb/entry.py"),("Vfb.decompile / compile / write",S+"vfb/vfb.py"),("Vfb.keys / __getitem__ / _decompile_glyphs",S+"vfb/vfb.py")],
[("entry data","raw bytes or decoded value"),("glyph cache","name to glyph view")])
p("C07","Damaged input ends in an error, never in a hang, wrong data or lost data",
"A file cut off inside its header or inside a record, or a record whose data ends early, is reported as an error in time and memory proportional to the input (a file that ends between two records is a shorter list of records); the reader never loops, never invents records and never presents a shortened record as complete. A file whose master count, version or stem list is damaged may be refused as a whole. When decoding a record fails, the record keeps its original bytes, the file is flagged as having had errors, and all other records stay readable and writable unchanged. When encoding a record fails, the decoded value stays available.",
["crash_points","inputs"],"every truncation point of every file and record; corrupted lead bytes, counts and terminators",
"No test feeds truncated or corrupted data to the file reader; the failure points are every byte of every file.",
[S+"vfb/vfb.py",S+"vfb/entry.py",S+"vfb/header.py",S+"parsers/base.py",S+"parsers/truetype.py",S+"parsers/value.py"],
[("Vfb.read_stream loop",S+"vfb/vfb.py"),("VfbEntry.read / decompile error path",S+"vfb/entry.py"),("StreamReader primitives",S+"parsers/base.py")])
p("C08","Output files are never clobbered, and a failed save leaves no damage",
"Without the force option the UFO and quadratic conversions (vfb3ufo, vfbcu2qu) neither change nor remove a file or folder that already existed at an output location, and they report the refusal instead of skipping silently. With the force option exactly the announced outputs are replaced. (The JSON and TrueType hinting exports have no such option and replace exactly their own output.) A save that fails because a record cannot be encoded leaves a previously existing target file with its old contents.",
["crash_points","configurations","histories"],"all combinations of existing targets (UFO folder, UFOZ, JSON, designspace, VFB), options, numbers of masters, and failure at each record while saving",
"Tests only write to fresh or forced targets; which of several outputs already exists and where encoding fails are combinations no sample covers.",
[S+"vfb/vfb.py",S+"ufo/builder.py",S+"cmdline.py",S+"cu2qu.py",S+"json.py"],
[("VfbToUfoBuilder.write",S+"ufo/builder.py"),("Vfb.write",S+"vfb/vfb.py"),("output path checks",S+"cu2qu.py, "+S+"cmdline.py")])
p("C09","Outlines convert to UFO contours point for point",
"For every glyph and master, the UFO contours contain the same contours in the same order with the same start point, direction, node coordinates and segment types as the source outline: lines, cubic curves with both handles, quadratic curves with all their off-curve points, smooth flags where the source node is smooth, and open contours stay open. A closing node that coincides with the start is merged into it only when the closing segment is a curve, and nothing else is added, dropped, reordered or attributed to another contour.",
["inputs"],"all node sequences: open and closed contours, single nodes, consecutive moves, lines, cubic and quadratic runs, closing and non-closing ends, any number of contours and masters",
"The path tests cover a dozen recorded contours; start-point rotation and closing rules depend on the combination of first and last node types and positions and on what the neighbouring contours look like.",
[S+"ufo/paths.py",S+"ufo/builder.py"],
[("UfoMasterGlyph contour building",S+"ufo/paths.py")])
p("C10","Drawing into and out of glyphs through pens is faithful in every master",
"Drawing a glyph of a font through the segment or point pen interface yields exactly its contours, in order, each closed or open as stored, with its own start point, and its components with their offsets and scales, for every master. Drawing contours and components into a glyph through its pen and reading the glyph back, before or after saving, gives what was drawn, on whole units. What is drawn into the first master appears in all masters; drawing the same contours and components, in the same structure, into a further master (completely after clearing it, or just the last ones without clearing) gives them their places in that master and leaves the other masters unchanged. A new or emptied glyph has neither contours nor components. A component that is skewed or refers to no glyph of the font is refused and nothing changes. Looking at glyphs through the font's mapping interface or that of its masters never changes the font.",
["inputs","histories"],"all contours of lines, cubic and quadratic curves, number of contours, ends in on- or off-curve points; all masters; draw, edit, draw-back sequences",
"Tests draw a handful of single-master glyphs; state shared between contours (pending off-curve points) and between masters needs multi-contour, multi-master histories.",
[S+"vfb/glyph.py",S+"vfb/pens.py",S+"vfb/vfb.py"],
[("VfbGlyph.draw / drawPoints / getPointPen",S+"vfb/glyph.py"),("VfbGlyphPointPen",S+"vfb/pens.py"),("VfbGlyphMaster",S+"vfb/glyph.py")])
p("C11","Each master's UFO holds that master's values; the designspace places them",
"Converting a font with N masters writes exactly N UFOs, and everything that can differ per master (node and component positions, advance widths and heights, anchors, guides, kerning values, hints, PostScript zones and stems, vertical metrics) in UFO number i comes from master i and from no other, while glyph names, order and structure are the same in all. The designspace lists the font's axes, places every master at the axis location stored for it, and refers to the UFO written for that master; sources and instances carry the family name of the fonts, and instances keep their names and locations. A single-master font gives one UFO and no designspace.",
["inputs","configurations"],"1 to 4 axes and 1 to 16 masters, all per-master data, sparse and missing per-master records",
"The tests check one or two masters of sample fonts for successful conversion; a swapped or clamped master index shows only with distinct values in every master and field.",
[S+"ufo/builder.py",S+"ufo/paths.py",S+"ufo/designspace.py",S+"ufo/info.py",S+"ufo/glyph.py",S+"ufo/kerning.py",S+"ufo/guides.py"],
[("get_ufo_masters / get_ufo_master / get_master_info",S+"ufo/builder.py"),("get_designspace / get_master_path",S+"ufo/builder.py"),("designspace document",S+"ufo/designspace.py")])
p("C12","Every glyph arrives once, in order, with its own name, codes and attachments",
"The UFO contains each glyph of the font exactly once, under its own name (glyphs with an already used or no name get a distinct name), the glyph order is the order in the file, and code points, advance, note, mark colour, lib data, anchors and components are those stored for that glyph. Custom data and metrics class flags of the font are kept in its lib. Data that follows a glyph in the file is attached to that glyph and never to a neighbour, also when some glyphs lack it. A component refers to the glyph stored at its index, with its own offset and scale.",
["inputs","histories"],"all sequences of glyph records and following attachment records, duplicate and empty names, any subset of attachments per glyph, forward and backward component references",
"Tests convert a few fonts and check single values; leaking or overwritten per-glyph state depends on which neighbours have which records.",
[S+"ufo/builder.py",S+"ufo/glyph.py",S+"ufo/paths.py"],
[("VfbToUfoBuilder.build entry loop",S+"ufo/builder.py"),("glyph assembly",S+"ufo/glyph.py, "+S+"ufo/paths.py")],
[("current glyph","the glyph following records attach to"),("glyph order","names in file order")])
p("C13","Groups and kerning convert without losing or inventing pairs",
"Every glyph class becomes a group with the same members in the same order; kerning classes become left- and/or right-side kerning groups according to their stored flags (without a side flag they have no effect), with prefixed names and the key glyph first; a glyph listed by several kerning groups of a side stays in the first of them. Every kerning pair of every glyph appears once per master with that master's value, addressed to the group when, and only when, the glyph is the key glyph of a group on that side, and to the plain glyph otherwise (a value of 0 that overrides no group pair may be left out). Non-kerning classes go to the feature code or stay in the groups as the caller chose, and none is lost; the order of the classes and the key glyphs of the groups are kept in the lib.",
["inputs","configurations"],"all class lists, flags (left, right, both, missing), key glyph markings, overlapping and missing glyphs, exception pairs, masters, options",
"Tests use a few class lists; side flags times key glyph markings times pair endpoints form a table only a model can enumerate.",
[S+"ufo/groups.py",S+"ufo/kerning.py",S+"ufo/builder.py"],
[("transform_groups",S+"ufo/groups.py"),("UfoKerning",S+"ufo/kerning.py")])
p("C14","PostScript hints export completely, per master, with correct replacement sets",
"The exported hint data lists, for every master, exactly the glyph's stems and ghost stems with their position and width in both directions, and links are turned into stems only where the glyph has links. With hint replacement, each hint set contains exactly the stems the source makes active there and is tied to the point where the source starts it (of several sets that start at one node the last counts), and the first set is the initial one; without replacement there is a single set with all hints. Hint data disabled by the caller is not written at all.",
["inputs","configurations"],"all sets of horizontal and vertical stems (also negative and ghost widths), links, replacement mask sequences and node positions, per master, all option settings",
"Tests check isolated functions with one or two hint sets; combinations of masks, links and masters are not sampled.",
[S+"ufo/pshints.py",S+"ufo/glyph.py",S+"ufo/builder.py",S+"ufo/paths.py",S+"vfb/glyph.py"],
[("update_adobe_hinting / build_ps_glyph_hints and hint sets",S+"ufo/pshints.py")])
p("C15","TrueType glyph instructions export in order with their own points and values",
"Every TrueType instruction of a glyph is exported once, in source order, with its own kind, points, stem, zone, alignment and delta settings, and as valid XML. Each instruction that refers to an outline point names that point by a label which is present on exactly that point in the exported contours, is distinct from the labels of other points, and never points into nothing. Reserved points (the origin and advance phantom points) are named as such. Imported binary instructions of a glyph are exported as assembly with the same meaning, and identify the outline, as exported for that master, to which they belong.",
["inputs"],"all instruction lists over all command kinds, with points shared between commands, at contour starts and merged closing nodes, and phantom points",
"Tests cover one or two instruction lists; label sharing, merged nodes and parameter defaults depend on combinations of commands and outline.",
[S+"ufo/paths.py",S+"ufo/tth.py",S+"ufo/instructions.py",S+"truetype.py"],
[("TrueType command transformation and point labels",S+"ufo/paths.py"),("tth library building",S+"ufo/tth.py")])
p("C16","Font-level TrueType hinting export preserves stems, zones and deltas",
"The exported font-level TrueType hinting data holds every stem and zone of the font once under its own name (or a new one if another entry has it already, or if it has none) and in its own direction, with its width, position, shift and alternative settings, the ppem thresholds at which each stem rounds (where thresholds coincide the bigger width counts), and every zone delta under the right zone and ppem. Entries without ppem data or with fewer ppem values than stems are exported with what they have, and nothing is taken from another stem, zone or direction. The order of the source is kept within each direction. Control values, font programs and the limits of the TrueType rasteriser are exported as stored.",
["inputs"],"all numbers of horizontal and vertical stems, zones and deltas, missing ppem records, duplicate names, zero widths",
"A single sample font is compared in the tests; index offsets between the vertical and the horizontal lists only show for other counts.",
[S+"tth.py",S+"ufo/tth.py",S+"parsers/truetype.py"],
[("extract_truetype_hinting",S+"tth.py"),("build_tt_stems_lib / build_tt_zones_lib",S+"ufo/tth.py")])
p("C17","Font info maps every stored field to its UFO counterpart and nothing else",
"Each stored naming, metric, OS/2, PostScript, version, date, license and gasp value for which the converter defines a counterpart appears in the UFO font info under its corresponding attribute with the same value (after the unit or enumeration mapping defined for it), bit fields keep exactly their set bits, and dates denote the same instant. A value that is not stored in the font appears at most as the converter's fixed default for that attribute, and the order in which records occur in the file does not change the result.",
["inputs","histories"],"all stored values and all subsets and orders of the records",
"Tests compare a few sample fonts; each mapped field, each bit and each enumeration value and absence of records is quantified over.",
[S+"ufo/info.py",S+"ufo/builder.py",S+"ufo/time.py"],
[("VfbToUfoInfo",S+"ufo/info.py"),("font-level record handling",S+"ufo/builder.py"),("timestamp conversion",S+"ufo/time.py")])
p("C18","Conversion is repeatable and does not alter the source font in memory",
"Converting the same font twice, in the same process or in a fresh one, gives the same output, independent of hash seeds and of other fonts converted before. Building UFOs from a font never modifies the font: encoding and saving it afterwards gives the same file as without the conversion. Whatever is done with the resulting fonts afterwards changes neither the font nor later results. Each output option changes only what it names.",
["histories","configurations"],"all sequences of conversions of several fonts with different options, all hash seeds",
"Tests run each conversion once in one process; leaks between runs and iteration over unordered sets are invisible in a single run.",
[S+"ufo/builder.py",S+"ufo/groups.py",S+"ufo/tth.py",S+"vfb/vfb.py",S+"vfb/entry.py"],
[("VfbToUfoBuilder",S+"ufo/builder.py")])
p("C19","OpenType feature code and classes are carried over completely and in order",
"The feature file written for each master contains the font's stored feature code and class definitions in their stored order, each exactly once, every class used by the moved glyph classes is defined before the features that may use it, and text the source stores is not altered beyond line-end normalisation, the removal of surplus blank lines (more than two in a row, and at the end) and the documented renaming of kerning classes inside positioning rules. Fonts without feature code get no invented features. Splitting feature code into prefix and features keeps every line once, in order, under the feature that it belongs to.",
["inputs","configurations"],"all lists of classes and features, with and without code before features, kerning class options, line-end styles",
"Tests compare only sample fonts with one class set; order, duplication and option combinations are not sampled.",
[S+"ufo/features.py",S+"ufo/builder.py",S+"parsers/text.py",S+"compilers/text.py"],
[("rename_kern_classes_in_fea / build_feature_file",S+"ufo/features.py, "+S+"ufo/builder.py"),("OpenTypeStringParser",S+"parsers/text.py")])
p("C20","Guides keep position, angle, name and colour in font, glyph and master",
"Every horizontal and vertical guide of the font and of each glyph appears once in the UFO of each master at that master's position and with that master's angle, in stored order. A guide's name and colour are those stored for that very guide, and guides without properties get none. Decoding and re-encoding guides keeps positions and slopes exactly.",
["inputs"],"all numbers of horizontal and vertical guides, slopes, masters and property records for any subset of guides",
"Tests check three or four guides; property indices are per direction and positions per master, so errors show only with several of each.",
[S+"ufo/guides.py",S+"ufo/builder.py",S+"parsers/guides.py",S+"compilers/guides.py"],
[("guide transformation and properties",S+"ufo/guides.py"),("guide records",S+"parsers/guides.py, "+S+"compilers/guides.py")])
p("C21","JSON dumps and comparisons show exactly what the file contains",
"The JSON dump of a file is valid JSON which lists the header and every record once, in file order, under its name and with its decoded value (or its bytes in hexadecimal where it is not decoded), and dumping after an encode/decode round trip gives the same result (empty parts of a glyph may be left out). Real numbers that JSON cannot express appear as null; nothing is claimed about the value of damaged records, nor about texts with halves of UTF-16 pairs, which the commands may refuse. Comparing two files reports no difference when their decoded contents are equal, and reports one whenever a decoded value, the order or the number of records differs. With -u the dump shows texts as UTF-8. Neither command modifies its inputs.",
["inputs","configurations"],"all record sequences, known and unknown record types, option combinations, pairs of files differing in any one record",
"Tests only check that the commands run on sample files.",
[S+"json.py",S+"diff.py",S+"cmdline.py",S+"vfb/vfb.py",S+"vfb/entry.py",S+"vfb/header.py"],
[("save_vfb_json / write_vfb_json",S+"json.py"),("diffvfb",S+"diff.py"),("as_dict",S+"vfb/vfb.py, "+S+"vfb/entry.py")])
p("C22","Quadratic conversion changes only outlines, in all masters alike",
"After the cubic-to-quadratic command every outline of the saved font consists of lines and quadratic segments only, with the on-curve start points and all line segments of the source kept and the same structure in every master, contour directions reversed as documented. Glyph order, names, widths, components, anchors, kerning and all font-level records other than the dropped links are as in the source. Curves stay within the allowed error of the source (-m, a share of the units per em, or its default). The result can be read, decoded and saved again. A curve for which no such approximation exists makes the command fail, and nothing is written.",
["inputs","configurations"],"all fonts with lines, cubic and already quadratic contours, one or several masters",
"Tests run the command on two files and do not look at the result.",
[S+"cu2qu.py",S+"vfb/glyph.py",S+"vfb/pens.py",S+"vfb/vfb.py",S+"compilers/glyph.py"],
[("vfbcu2qu",S+"cu2qu.py"),("VfbGlyphPointPen",S+"vfb/pens.py"),("merge of drawn masters",S+"compilers/glyph.py, "+S+"vfb/entry.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
