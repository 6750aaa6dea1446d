import json, os
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = "TLA+/TLC: "
N = {
"C01": (T + "exhaustive model of the number code (MC_Num); recorded decodings and encodings judged by TLC against Bytes.tla",
 "The model is exhaustive over a window of integers and all byte strings of a bounded alphabet. Against the code: every lead byte with chosen tails, a window around every change of form, seeded 32-bit values, streams, the yuri tool; each result is judged by TLC."),
"C02": (T + "exhaustive model of the container (MC_File); recorded reads and writes of files judged by TLC as runs of the reader/writer machine of VfbFile.tla",
 "Model: all entry sequences of small size and every cut. Code: seeded files with known, unknown, empty, 65535/65536-byte and larger entries, dropped entries, sample files of the repository; big files are judged by their skeleton and digests."),
"C03": (T + "grammar of all font-level records with decoding and encoding semantics (Records.tla); model of the grammar over short strings; code decodings/encodings judged by TLC",
 "Model: every byte string up to 3-4 bytes over an alphabet for every layout. Code: the same strings, seeded records of every layout, all records of the sample files; decoded values compared with the specification's Decode, re-encodings with its Enc."),
"C04": (T + "glyph grammar (Glyph.tla) with model over short section strings; real decodings/encodings of generated and sample glyphs judged by TLC",
 "Random glyphs of 1-16 masters with any parts missing or empty and all glyphs of the sample files (up to a size limit); assurance is bounded by these samples."),
"C05": (T + "grammar of the attachments and bitmap coding (Records.tla); real decodings/encodings judged by TLC",
 "Seeded records of every attachment layout, both platforms, 1-16 masters, bitmaps with runs of all critical lengths."),
"C06": (T + "model checking of the record life cycle (Lifecycle.tla), behaviours of the model replayed into the code, observed states judged by TLC step by step (C06.tla)",
 "All histories of the model of length 3 (sampled in the quick tier) and long simulated ones over designed and sample files; each step's state of every record is compared."),
"C07": (T + "reader machine over all prefixes (MC_Cut), life cycle with broken records (Damage*.cfg); cut files, damaged records and histories replayed into the code under time and memory limits and judged by TLC",
 "Every cut of small files, sampled cuts of sample files, every cut of generated records, random mutations. A guard process bounds time and memory."),
"C08": (T + "model of outputs and commands (Outputs.tla) checked for clobbering; every configuration of the model is run with the real commands in scratch folders, the final file system state judged by TLC",
 "All configurations of the model (command, existing outputs, force, failures), a sample also through the shell entry points."),
"C09": (T + "outline machine (Outline.tla) checked over all small outlines of two masters; the same outlines and seeded ones converted by the code, contours judged by TLC",
 "All outlines with up to 3-4 nodes of the model, random outlines of up to 4 masters, glyphs of the sample files."),
"C10": (T + "model of pen histories (Pens.tla/MC_Pens); histories of the model and random ones replayed with the real pens, every reading judged by TLC against the state of the model",
 "All histories of the model up to a depth (sampled in quick), random histories with components, several masters, saving and re-reading, compiling and decompiling in between."),
"C11": (T + "model of the designspace and per-master values (Designspace.tla, Kerning, PSHints, Info); model fonts and seeded multi-master fonts converted by the real command, all UFOs judged by TLC",
 "All small fonts of the axis model (sampled in quick), random fonts with 1-4 axes and up to 16 masters whose values differ per master."),
"C12": (T + "font assembly machine (Convert.tla/MC_Assemble): all orders of glyphs and attachments; the finished fonts converted by the code and judged by TLC",
 "All record orders up to the bound (names made distinct, attachments), random fonts with every attachment."),
"C13": (T + "kerning model (Kerning.tla/MC_Kerning) with a UFO kerning lookup as invariant; model fonts and random ones converted by the code and judged by TLC",
 "All class tables over three glyphs with all flags, key glyphs and pairs (sampled in quick); random fonts with options."),
"C14": (T + "hint replacement machine (PSHints.tla/MC_PSHints); model glyphs and random ones converted by the code and judged by TLC",
 "All replacement lists up to the depth on outlines with and without merged closing points; random multi-master glyphs with stems, links and ghosts; also the hint sets that VfbGlyph tells."),
"C15": (T + "instruction export (TTHints.tla/MC_TTHints); model and random glyphs converted by the code (UFO lib, vfb2tth files) and judged by TLC",
 "All short instruction lists over the outlines of the model; random instructions of all kinds, composites; UFO XML, base64 form, vfb2tth JSON/TOML/YAML."),
"C16": (T + "stems, thresholds, zones and deltas (TTHints.tla/MC_TTFont); model and random fonts converted by the code and judged by TLC",
 "All small stem/zone tables of the model with ppem data missing or short; random fonts; all output forms."),
"C17": (T + "font info mapping as a machine over the records (Info.tla/MC_Info), order independence as invariant; model and random fonts converted by the code and judged by TLC",
 "All arrangements of up to the given number of info records; random fonts with values at the limits of each field."),
"C18": (T + "session model (Session.tla/MC_Session) in which sharing is shown to be harmful; its histories and random ones replayed in real processes, results judged by TLC",
 "All short histories of opening, converting, spoiling results and saving; fresh processes with other hash seeds; sample files."),
"C19": (T + "text machine for feature code (Features.tla/MC_Features): all short texts; converted by the code and judged by TLC on characters",
 "All texts of up to the given number of typical lines with all line ends; random classes and features; splitting of feature code."),
"C20": (T + "guides in Convert.tla; recorded conversions and re-encodings judged by TLC",
 "Random fonts with guides of font and glyphs, properties, masters; slopes over the whole range of the field. Angles are compared within 0.005 degrees of the arc tangent tabulated by the harness."),
"C21": (T + "meaning of dumps and comparisons (Dump.tla/MC_Dump): all pairs of files one edit apart; the real commands run on them and on random files, outputs judged by TLC",
 "All pairs of the model (sampled in quick), random files with every record type, damaged records, large records."),
"C22": (T + "conversion as a process (Quad.tla/MC_Quad) over all small outlines of two masters; the real command run on these and random fonts, the result judged by TLC",
 "Path equality, structure, direction and deviation (sampled points, exact integer bounds) for every master; everything else compared record by record."),
}
json.dump({k: {"technique": a, "note": b} for k, (a, b) in N.items()}, open(os.path.join(V, "tools", "level_notes.json"), "w"), indent=1)
