NOTE = "Exploration: seeded random search, no bound is exhausted. Trusts the independent reader/model in sim/ and the build-time instrumentation (cmd/simgen, rt/)."

prop("C01", "Written documents hold exactly what the caller added, in every writer mode",
 "Whatever sequence of objects, replacements, streams, root/info choices, mode switches and encryption a caller gives the writer, the written file is a valid document in which every number the caller used holds the last value given for it, and nothing else was invented or lost. The library's own readers, with and without byte-perfect parsing, return the same values, and report a number that is not there as not found (types.ErrObjectNotFound). Writing again without changes gives the same bytes, and no object the caller passed in is changed.",
 ["histories", "configurations", "inputs"],
 "All histories of writer calls (add, replace, out-of-order numbers, streams with any bytes, cross-reference tables or streams, object streams, all encryption versions), every map iteration order, every clock and random stream.",
 "Tests write a few fixed documents in one map order and check substrings; offsets, dictionary order, object-stream placement, keyword-like bytes in data and mode combinations cannot be enumerated by examples.",
 ["core/write/writer.go", "core/write/object_stream.go", "core/write/xref_stream.go", "core/write/encryption_v5.go", "core/parse/api.go"],
 [("object table and serialisation", "core/write/writer.go"), ("object stream grouping", "core/write/object_stream.go"), ("cross-reference stream", "core/write/xref_stream.go"), ("reading back", "core/parse/get_object.go")],
 NOTE, ["bytes handed to the io.Writer", "parse.OpenWithOptions / GetObject"])

prop("C02", "A failing output is always reported and leaves only a prefix",
 "When the destination of a document fails at any byte - an error, a short write, or an error after taking the bytes - writing reports an error, the original one when there was one, and what reached the destination is a prefix of the document. The writer stays usable: writing again to a working destination gives the complete document. A document that cannot be encrypted because the random source fails is refused before any byte is written.",
 ["fault_sequences", "crash_points", "histories"],
 "All writer histories of C01 combined with every failure position and kind of the output and every failure position of the random source, followed by further calls.",
 "Tests write to memory buffers, which never fail.",
 ["core/write/writer.go", "core/write/xref_stream.go"],
 [("error propagation while writing", "core/write/writer.go")],
 NOTE, ["the io.Writer", "the returned error"])

prop("C05", "Every revision of a document stays readable, and a torn update never costs the earlier ones",
 "A document that was updated by appending revisions (cross-reference tables or streams, object streams, freed and reused numbers) is seen by the reader exactly as its last revision says: which objects exist, their values, generations, root, and how many revisions there are; each earlier revision, cut out of the file, is the document as it was then. The byte-preserving model of the document has one entry per revision with its place, its cross-reference entries, its trailer and the exact bytes of the objects it added. When the last append is torn at any byte, lost (zeros) or replaced by junk, the reader shows the last complete revision or reports an error; it never shows a mixture, objects that never existed, or crashes.",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "All histories of put, free, reuse and re-root over up to several revisions, every legal layout of those revisions, and every byte at which the last append can be torn.",
 "Tests read a few fixed files with one revision shape; the crossing of layouts, object reuse and tear positions is a product no example list covers.",
 ["core/parse/incremental.go", "core/parse/document_parser.go", "core/parse/document.go", "core/parse/xref_stream.go", "core/parse/object_stream.go", "core/parse/api.go"],
 [("merging cross-reference sections", "core/parse/incremental.go"), ("cross-reference streams", "core/parse/xref_stream.go"), ("object streams", "core/parse/object_stream.go"), ("revision boundaries", "core/parse/document_parser.go")],
 NOTE, ["parse.OpenWithOptions / GetObject / Objects / Revisions over generated files", "parse.ParsePDFDocument and the model it gives"])

prop("C03", "Encrypted documents open with their passwords only, and give back exactly what was encrypted",
 "An encrypted document - the library's own (RC4, AES-128, AES-256) or a foreign one with the standard security handler, V 1, 2 or 4, any key length and crypt filter methods, encrypted or clear metadata, one or several revisions - opens with its user password and with its owner password, and every string, stream and object-stream member reads back as it was before encryption, also after a torn append. Any other password is refused with an error that says so (types.ErrWrongPassword) and no document, as is a document whose /O, /U, /P or /ID was altered by a single bit. What the library encrypts does not appear in its output, its keys, salts and initialisation vectors come from the random source in full and are not used twice, a stream whose own crypt filter is Identity is neither encrypted nor decrypted, and when the random source fails nothing is written.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "All passwords, permissions, key lengths, crypt filters, document histories, random streams and random failures, and every single-bit change of the values the password is checked with.",
 "Tests encrypt one small document with one password; the product of handler versions, filters, object layouts, revisions and tampering is out of their reach.",
 ["core/encrypt/decrypt.go", "core/encrypt/key_derivation.go", "core/encrypt/parser.go", "core/encrypt/trailer.go", "core/encrypt/strings.go", "core/write/encryption_v5.go", "core/parse/get_object.go"],
 [("password check and key derivation", "core/encrypt/key_derivation.go"), ("decryption of objects", "core/encrypt/decrypt.go"), ("encryption while writing", "core/write/writer.go"), ("decryption on access", "core/parse/get_object.go")],
 NOTE + " AES-256 uses the library's own key scheme, so it is checked against itself (round trip, refusal, no leak), not against another implementation.", ["parse.OpenWithOptions", "encrypt.DecryptPDF", "parse.GetObject"])

prop("C08", "Page operations act on exactly the pages they name, and keep everything else",
 "Rotating, deleting and inserting pages in any order, then rebuilding, gives a document whose pages are those of a simple list that went through the same operations: right order, right rotation, each page with the contents, resources, boxes and annotations it had or inherited, links leading to the same pages, and the catalog, document information, other objects and encryption untouched. Extracting, splitting and merging give documents with exactly the named pages in the named order and nothing of the others. Invalid page numbers, angles, ranges and passwords are errors that change nothing; the caller's bytes are never changed; repeating an operation gives the same bytes; an input whose last update was torn counts as its last complete revision.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "All histories of page operations over documents with nested page trees, inherited and shared attributes, cross-links, several revisions in every layout, standard encryption, torn last updates and failing random sources, in every map iteration order.",
 "Tests rotate, delete and merge one-page or flat documents once; inheritance, nesting, numbering collisions, cross-links, encryption and operation order multiply beyond any example list.",
 ["core/manipulate/manipulate.go", "core/manipulate/rotation.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go", "core/manipulate/extraction.go", "core/manipulate/splitting.go", "core/manipulate/merging.go"],
 [("page list and inheritance", "core/manipulate/rotation.go"), ("rebuilding", "core/manipulate/manipulate.go"), ("closure of extracted pages", "core/manipulate/extraction.go"), ("renumbering", "core/manipulate/merging.go")],
 NOTE, ["PDFManipulator methods and Rebuild", "ExtractPages / SplitPDF / MergePDFs", "extract.ExtractContent of the results"])

prop("C09", "A document built page by page is the document the caller described",
 "Whatever order a caller adds pages, fonts, images, content, watermarks, bookmarks, metadata and encryption in, also interleaved over several open pages and continuing after Bytes(), each produced document has exactly the finished pages in order with their sizes; on each page the content operators the calls stand for, in order and with their numbers, and every font and image name leading to the font, samples, JPEG data or transparency given; the outline tree described, with consistent links and counts, in the builder's catalog or one of the caller's own, whose other entries stay; and the information text and dates given, in any characters and any time zone. The library's own extraction of text, positions, fonts, images and metadata gives the same back. When encryption finds no randomness, Bytes reports an error and no document.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "All histories of builder calls over several open pages, all names, texts, image kinds and sizes, outline trees and metadata, under every map order, clock, time zone and random failure.",
 "Tests build one page with one font and look for substrings; name clashes, state kept between pages, repeated Bytes, odd characters and time zones multiply beyond examples.",
 ["core/write/page.go", "core/write/content.go", "core/write/image.go", "core/write/watermark.go", "core/write/bookmarks.go", "core/write/metadata.go", "content/extract/extract.go", "content/extract/content_stream.go", "content/extract/images.go"],
 [("page assembly and resource names", "core/write/page.go"), ("content stream operators", "core/write/content.go"), ("outline tree", "core/write/bookmarks.go"), ("document information", "core/write/metadata.go"), ("reading pages back", "content/extract")],
 NOTE + " Text shown in Symbol or ZapfDingbats and non-ASCII text is compared at operator level only, not through the library's extraction.", ["SimplePDFBuilder.Bytes", "extract.ExtractContent / ExtractAllImages"])

prop("C17", "Extraction returns what a document's pages show, however the document is spelled",
 "Extracting a document gives, for every page in order, its size, rotation and boxes, the text it shows with its position, size and font, decoded through the font's encoding or ToUnicode map, the lines and rectangles of its paths with their colours and line widths, where it draws which XObject, its images once each with their decoded samples, and its annotations; and for the document its outline tree, its information dictionary, and lists of all images, fonts and annotations of the pages, each image and font once. This does not depend on how the document is laid out: content split over several streams, any spelling of tokens, any filter chain and predictor, indirect values, nested page trees with inherited attributes, object and cross-reference streams, several revisions, encryption. A document whose last update was torn counts as its last complete revision or is an error. Extracting twice gives the same result, and the caller's bytes are never changed.",
 ["inputs", "histories", "crash_points", "configurations"],
 "All documents of the generator's language of pages, fonts, images, annotations, outlines and information, in every legal layout and after histories of revisions, with every byte at which the last append can be torn, under every map iteration order.",
 "Tests extract a few documents the library itself wrote; foreign spellings, encodings, filter chains, layouts, revisions and map orders multiply beyond examples.",
 ["content/extract/extract.go", "content/extract/content_stream.go", "content/extract/encoding.go", "content/extract/pages.go", "content/extract/resources.go", "content/extract/images.go", "content/extract/annotations.go", "content/extract/metadata.go", "content/extract/bookmarks.go", "core/parse/filters.go"],
 [("content stream interpretation", "content/extract/content_stream.go"), ("pages and inheritance", "content/extract/pages.go"), ("fonts and encodings", "content/extract/resources.go"), ("image decoding", "content/extract/images.go")],
 NOTE + " Colour spaces set by cs/sc/scn and content inside form XObjects are outside the generated language; numbers are compared with a small tolerance.", ["extract.ExtractContent", "extract.ExtractAllImages", "extract.ExtractContentToJSON"])

prop("C10", "A directory extraction is complete on disk, or reported as failed",
 "Extracting a document to a directory, from memory or from a file, on a disk that may run full, refuse, fail, write short, or lose the process at any operation: when it reports success, content.json is there and holds every page, text, graphic, annotation, font, bookmark and piece of metadata the in-memory extraction gives, and every image with data is in its own file, complete, and named with its size; the summary and the returned counts agree. When something could not be written it reports an error. After a crash at any point a content.json that can be parsed never leads to a missing or torn image, also where an earlier extraction was in the directory. Other files are never touched, a document that cannot be read leaves no content.json, and running again once the faults stop completes the directory.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "All generated documents, with and without an earlier extraction in the directory, and all positions and kinds of disk faults: errors at create, mkdir, write, close, open and read, short and torn writes, full disks of any size, and a crash before or after any operation, followed by a retry.",
 "Tests extract to a working disk; no test can place an error or a crash at each of the disk operations.",
 ["content/extract/directory.go"],
 [("order of files, reporting of errors", "content/extract/directory.go")],
 "Exploration: seeded random search. The crash is one of the process: what was written before it survives. Expected content is the library's own in-memory extraction, which C17 checks against an independent model.", ["the simulated disk", "ExtractToDirectory and ExtractToDirectoryFromFile"])

prop("C11", "Reading, filling and flattening a form do exactly that, and leave the rest of the document whole",
 "Reading the AcroForm of a document gives its hierarchy of fields, of any depth, each with its full name, its type, flags, value, default and other attributes, its own or inherited; current values, lookup by name, schema and validation follow from these. Filling named fields sets exactly their values - text in any characters, numbers, lists of choices, the state of a button in the field and in each of its widgets - and leaves every other field, page, object, the catalog and the encryption as they were; names that are not in the form are ignored, and when none matches the document comes back byte for byte. Flattening takes the form, and nothing else, out of the catalog. This holds for every layout of the file, after any history of revisions and of earlier fills, under every name of the operation, and a document whose last update was torn counts as its last complete revision. A document without a form and a wrong password are errors, also for these operations; created forms read back as they were described, with the actions and appearances given to their fields, in whatever catalog they are put. The caller's bytes and data are never changed.",
 ["histories", "inputs", "crash_points", "configurations"],
 "All histories of reading, filling, replacing, rebuilding and flattening over documents with field hierarchies, inherited attributes, widgets, options, all value types and characters, several revisions in every layout, standard encryption, torn last updates and failing random sources, in every map iteration order.",
 "Tests fill one text field of a document that the library itself wrote; hierarchies, inheritance, spellings, layouts, button states, encryption and sequences of changes multiply beyond examples.",
 ["forms/acroform/parser.go", "forms/acroform/extract.go", "forms/acroform/fill_streams.go", "forms/acroform/replace.go", "forms/acroform/flatten.go", "forms/acroform/validation.go", "forms/acroform/writer.go", "forms/acroform/integration.go", "forms/acroform/actions.go", "forms/acroform/appearance.go", "forms/acroform/stream_rebuild.go", "forms/forms.go"],
 [("reading and inheritance", "forms/acroform/parser.go"), ("names and values", "forms/acroform/extract.go"), ("setting values", "forms/acroform/fill_streams.go"), ("rebuilding", "core/manipulate/manipulate.go"), ("validation", "forms/acroform/validation.go")],
 NOTE + " Appearance streams of filled fields are not regenerated by the library (NeedAppearances tells the viewer to) and not part of the property; Field.Page is not set by the library.", ["acroform.ExtractAcroForm and the tree it gives", "FillForm and its variants", "FlattenForm", "forms.Extract"])
prop("C12", "XFA forms are read as they are, and filling one changes the named values and nothing else",
 "The XFA streams of a document are those its form's XFA array names in the state the document is in: each packet with its object number and its decoded bytes, whatever filters, nesting, references, encryption or revisions lie in between. The schema lists the template's fields in order, at any depth of subforms, with identifier, name, label, description, type, options, default, flags, position, validation and event rules; the values are those of the data section, in its groups; the plain list of fields (parse.ParseXFAFields) has them in order as well; a schema or values - read before, or made by the caller of any texts, numbers and flags - that are written as XFA read the same again. Filling gives the first field of each named value in the data section that value - any characters, numbers, true and false, none - and leaves the rest of the datasets, every other packet, object, page and the encryption as they were; names that are not there are ignored. Rebuilding with other packets gives a document with exactly these, and a new document made of packets holds exactly these. A document without XFA, or without datasets to fill, a packet that does not decode and a wrong password are errors; a document whose last update was torn counts as its last complete revision. The caller's bytes and data are never changed, and doing the same twice gives the same bytes.",
 ["histories", "inputs", "crash_points", "configurations"],
 "All histories of reading, filling, rebuilding and replacing streams over documents with XFA packets in any spelling of the XML, filter chains, revisions in every layout, standard encryption, torn last updates and failing random sources, in every map iteration order.",
 "Tests read one document of a fixed layout and fill simple ASCII values; nesting, escapes, decoys, layouts, encryption and sequences of updates multiply beyond examples.",
 ["forms/xfa/xfa.go", "forms/xfa/xfa_utils.go", "forms/xfa/xfa_form_translator.go", "forms/xfa/xfa_datasets_translator.go", "core/write/xfa_builder.go", "forms/forms.go", "core/parse/xfa_streams.go", "core/parse/xfa_parser.go"],
 [("finding and decoding packets", "forms/xfa/xfa.go"), ("rebuilding", "core/write/xfa_builder.go"), ("template to schema", "forms/xfa/xfa_form_translator.go"), ("values", "forms/xfa/xfa_datasets_translator.go")],
 NOTE + " Datasets are those of field/value elements, the language the library fills; real XFA forms with an element per value are outside of it. Rules are not written back to templates by the library.", ["xfa.ExtractAllXFAStreams", "forms.ExtractXFA", "forms.Extract", "xfa.UpdateXFAInPDF", "xfa.RebuildPDFFromXFAStreams", "xfa.BuildPDFFromXFAStreams", "xfa.ReplaceStreamInPDF"])

prop("C14", "The pdfer command ends with status 0 only when its output is complete, and touches nothing else",
 "Filling a form with the command (-input, -data, -output, with or without -verbose and -log) and extracting its schema (-extract-schema) end with status 0 exactly when the output file holds the whole result: the document of the input's last complete revision in which the fields that the JSON data name have their values and everything else is as it was, encrypted as before, or the schema of the form's template as JSON; the message counts the fields or questions. Whatever is wrong - a file that is missing or no file, data that are no JSON object, no XFA form in the document, a password that is none of those it tries, a disk that refuses, fails, reads or writes short or is full at any operation, a failing random source - ends it with another status and a message, and the output file stays as it was unless writing to it was what failed. It never panics. No other file is changed or left behind, also when the process is lost at any operation; outputs serve as inputs of later runs, also in place, and once the faults stop a run completes.",
 ["histories", "fault_sequences", "crash_points", "inputs"],
 "All histories of one to seven invocations on one disk, in all spellings of the command line, over all documents of C12 (any layout, revisions, torn updates, encrypted with passwords that are and are not tried) and all JSON texts, valid and not, with disk faults of every kind at every operation, full disks of any size and crashes before or after any operation.",
 "No test runs the command at all, and none can place a disk error or a crash at each of its operations.",
 ["cmd/pdfer/main.go", "forms/xfa/xfa.go", "forms/xfa/xfa_form_translator.go"],
 [("command line, files, status", "cmd/pdfer/main.go"), ("filling", "forms/xfa/xfa.go"), ("schema", "forms/xfa/xfa_form_translator.go")],
 NOTE + " The command is compiled into the simulator as a package, its files, standard streams and exit simulated; a crash is one of the process. That a failed write leaves the earlier content of the output file is not promised by the command and not part of it. Flags that the flag package rejects are not generated.", ["exit status, standard output and error", "the simulated disk after each invocation"])

prop("C15", "The settings of an XFA form - configuration, locales, style sheet, data connections - are read as they are, and survive being written",
 "Reading the config, localeSet, stylesheet and connectionSet packets of a document's XFA form gives the settings they state: every attribute of the sections the types describe, numbers as numbers (a value that is none counts as not given), true and false, holidays, and the text of further elements as properties, where they are, in whatever spelling of the XML, and in the packet's state in the last complete revision of the document. Settings written as XFA are XML that says the same, with any characters in the texts, negative numbers and zero, and read the same again, in every map iteration order and with the argument unchanged. Replacing the packets of a document with settings written this way gives a document that holds exactly these, with all other packets, objects, pages and the encryption as they were.",
 ["histories", "inputs", "crash_points", "configurations"],
 "All histories of reading, translating, replacing and rebuilding over documents with packets of settings in any spelling, filter chains, revisions in every layout, standard encryption, torn last updates and failing random sources, in every map iteration order.",
 "Tests translate one short packet of each kind and look at two or three of its values; attributes that are dropped, texts in pieces and properties that end up elsewhere do not show.",
 ["forms/xfa/xfa_config_translator.go", "forms/xfa/xfa_locale_translator.go", "forms/xfa/xfa_stylesheet_translator.go", "forms/xfa/xfa_connection_translator.go", "forms/xfa/xfa.go"],
 [("configuration", "forms/xfa/xfa_config_translator.go"), ("locales", "forms/xfa/xfa_locale_translator.go"), ("style sheets", "forms/xfa/xfa_stylesheet_translator.go"), ("connections", "forms/xfa/xfa_connection_translator.go"), ("packets", "forms/xfa/xfa.go")],
 NOTE + " Each section occurs at most once and known elements stand where they belong; text counts without the white space around it; a property that is empty counts as absent, and elements with both text and elements in them are outside of it. In style sheets a text that is a number, or true or false, counts as that; in connections url means uri.", ["xfa.ParseXFAConfig, ParseXFALocaleSet, ParseXFAStylesheet, ParseXFAConnectionSet", "xfa.ConfigToXFA, LocaleSetToXFA, StylesheetToXFA, ConnectionSetToXFA", "xfa.ExtractAllXFAStreams", "xfa.RebuildPDFFromXFAStreams"])

prop("C04", "No document, however damaged, makes a call panic, hang, exhaust memory or change its input",
 "Every public operation on a document - opening, reading objects and revisions, decrypting, extracting, comparing, splitting, merging, manipulating, reading, filling and flattening forms, XFA - returns a result or an error for any bytes it is given: complete documents, documents whose objects hold values of the wrong kind, references that dangle or run in circles, absurd numbers, broken filters or broken streams, documents that a disk damaged anywhere, and bytes that are no document at all. It never panics, never recurses without end, never allocates far more than the document calls for, and ends within a bounded number of steps; and it never changes the bytes it was given.",
 ["inputs", "fault_sequences", "histories"],
 "All generated documents of every kind (pages, forms, XFA, encryption, revisions, all layouts), all replacements of any value in any object before the file is written, and all flips, losses, duplications, zeroed or cut ranges, splices and changed numbers or words after it, for every operation of the public API.",
 "Tests open well-formed documents; what a hostile or broken document does to the reader cannot be listed.",
 ["core/parse/document_parser.go", "core/parse/get_object.go", "core/parse/xref_stream.go", "core/parse/filters.go", "core/encrypt/decrypt.go", "core/manipulate/manipulate.go", "core/compare/compare.go", "content/extract/dict_helpers.go", "forms/acroform/parser.go", "forms/xfa/xfa.go"],
 [("reading objects", "core/parse"), ("filters", "core/parse/filters.go"), ("page tree and values", "content/extract"), ("forms", "forms"), ("rewriting", "core/manipulate")],
 "Exploration: seeded random search, no bound is exhausted. The limits are 200 million simulated steps per call (typical: one million), recursion of 5000 calls, and single allocations of 64 MB; a slow but bounded call within these is not reported.", ["return values of the public functions", "the caller's bytes"])

prop("C06", "Every operation gives the same result for the same arguments",
 "The result of an operation on a document - values, bytes of a rewritten document, reports, errors or not - depends on its arguments alone: not on the order in which maps happen to be iterated, the time, the time zone, the operations made before, or random numbers, except that what is encrypted anew depends on the random source. Two calls with equal arguments give equal results, byte for byte.",
 ["schedules", "histories", "configurations", "inputs"],
 "All operations of the public API on all generated documents (complete, changed and damaged), in every pair of worlds with different map orders, clocks, zones, random streams and histories of earlier calls.",
 "A test runs in one map order at one time; an order that matters once in many iterations does not show, and two runs are rarely compared.",
 ["core/write/writer.go", "core/compare/compare.go", "core/manipulate/manipulate.go", "content/extract/resources.go", "forms/acroform/fill_streams.go", "forms/acroform/extract.go", "forms/xfa/xfa_utils.go", "core/write/xfa_builder.go"],
 [("order of objects and keys", "core/write/writer.go"), ("order of differences", "core/compare/compare.go"), ("order of values", "forms/acroform/fill_streams.go")],
 NOTE + " Dates that cannot be read are replaced by the current time when metadata is written (documented), so fixed dates are given there. Documents the operation encrypts are compared under the same random numbers.", ["return values of the public functions"])

prop("C07", "Calls made in several threads at once do not disturb one another",
 "Operations that run at the same time in several threads, on the same input bytes, on different documents, with the same form data, or reading the same opened document or form, give exactly the results each gives when it runs alone. No two threads touch the same memory without synchronisation when one of them writes, none of them panics or blocks the others, and the shared input is not changed.",
 ["schedules", "inputs", "histories"],
 "All schedules of two to four threads, preempted at any step of the library, each making any of the public calls on generated documents, including the first calls of the process.",
 "Tests are single-threaded; an interleaving that matters is rare and not repeatable under the real scheduler.",
 ["core/parse/api.go", "core/parse/filters.go", "core/encrypt/key_derivation.go", "core/write/page.go", "content/extract/encoding.go", "content/extract/resources.go", "forms/acroform/parser.go"],
 [("package level tables and state", "content/extract/encoding.go"), ("opened documents", "core/parse/api.go"), ("forms", "forms/acroform/parser.go")],
 "Exploration: seeded random search over schedules with the Go race detector (which sees the simulated threads as concurrent whatever the schedule). Threads do not write to one shared object: the library promises nothing there.", ["return values of the public functions", "race detector reports"])

prop("C13", "A comparison reports every difference between two documents once, and nothing where there is none",
 "Comparing two documents reports exactly what differs: information entries (unless told to ignore them), number, size and rotation of pages, texts by page, place and content under the options given (granularity, tolerances, case, white space, moves), graphics and annotations by kind and place to a tenth of a point, images by name, place and samples, the outline with its tree, titles and targets, and the fields of AcroForm and XFA forms with their values. Nothing that was added or removed is missing, paired twice or reported where both documents have it; the summary, the totals and the reports agree with the list; comparing the other way round gives the mirror image. It does not matter how each document is laid out, whether it is encrypted, or whether one is a revision of the other: the same content is identical. A wrong password is an error, and the inputs are never changed.",
 ["inputs", "histories", "configurations"],
 "All pairs of generated documents that share any part of their content, each in any layout, encrypted or not, or as two revisions of one file, under all combinations of the options and every map iteration order.",
 "Tests compare small documents the library itself wrote in one layout with one or two changes; the product of changes, options and layouts is out of reach.",
 ["core/compare/compare.go", "core/compare/text_diff.go", "core/compare/myers_diff.go", "core/compare/report.go"],
 [("what is compared", "core/compare/compare.go"), ("texts", "core/compare/text_diff.go"), ("edit script", "core/compare/myers_diff.go"), ("reports", "core/compare/report.go")],
 NOTE + " The options GraphicTolerance and MinChangeThreshold have no effect in the library; a change of font alone is not seen at word and character granularity; letters are folded in ASCII only.", ["compare.ComparePDFs and ComparePDFsWithOptions", "the reports"])

prop("C16", "Text in an embedded font keeps its characters and widths, and the font file arrives whole",
 "A page that shows text in an embedded TrueType or OpenType font has a font whose codes show the characters of the text, with the width the font gives to each, its metrics, names and flags, a map back to Unicode that agrees, and the font file, byte for byte; extracting the page gives the text back. This holds for every valid font (any units per em, order of tables, character map format 4 or 12, shared glyphs, short metrics, names in any characters), for several fonts, standard ones among them, on several pages, encrypted or not, and for every map iteration order. The glyphs and widths of the characters added to a font are those the font has. A reader that fails while the font is read is an error, and a damaged font is an error or is embedded as it is; it never panics or runs without end.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "All generated fonts, whole and damaged, all histories of adding characters, fonts and text to several pages, all positions of read errors, with every map iteration order.",
 "The repository's tests have no font file with a character map, so that nothing of this is ever run.",
 ["resources/font/font.go", "resources/font/pdf.go", "core/write/page.go", "core/write/content.go"],
 [("tables of the font", "resources/font/font.go"), ("font objects", "resources/font/pdf.go"), ("resource names", "core/write/page.go"), ("codes of the text", "core/write/content.go")],
 NOTE + " Characters outside of WinAnsiEncoding have no code in the fonts the library makes; outlines are not looked at.", ["SimplePDFBuilder.Bytes", "font.ParseTTF, GetSubsetGlyphs, GetWidths", "extract.ExtractContent"])
