import json
R="src/ringhopper/src/"; P="src/ringhopper-primitives/src/"; I="src/invader/src/"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Overlaid tags directories behave as one prioritised tag store",
 "For every stack of tags directories, with or without a copy-on-write output, a tag is found exactly when some directory holds it, opening it returns what the first directory in priority order holds, and listing the tree returns every such tag exactly once (and only those a given filter accepts). Saving a tag stores it in the copy-on-write output if there is one, otherwise over the copy that is currently visible, otherwise in the first directory; it changes no other file, reports true exactly when it stored something, and stores nothing exactly when the visible copy (or the copy already in the copy-on-write output) has the same contents. Opening or saving one tag never changes what another tag reads as.",
 ["histories","configurations"],"All sequences of open/save/exists/list operations and all initial distributions of tags over up to three overlaid directories and an optional copy-on-write output (inside or outside the stack).",
 "The one tree test lists a fixed directory; no test writes, uses several directories or a copy-on-write output.",
 [R+"tag/tree.rs"],[("first-match lookup",R+"tag/tree.rs path_for_tag"),("hash comparison before saving, copy-on-write redirect",R+"tag/tree.rs write_tag_to_directory"),("merged listing",R+"tag/tree.rs files_in_path / iterate_through_all_tags")],
 ["open/save/contains/list results and the bytes on disk"],[("directories","priority-ordered roots",R+"tag/tree.rs VirtualTagsDirectory"),("cow_output","where new or modified tags go",R+"tag/tree.rs VirtualTagsDirectory")])
p("C02","Caching tag tree is a coherent write-back cache under one or many threads",
 "A tag opened through a caching tag tree is the value most recently saved or mutated through it, or else the backing tree's value at the time it was first opened, and every holder of the shared handle sees the same object until the tag is saved again or evicted. With the instant strategy each save reaches the backing tree before it is cached and a failed save leaves cache and backing tree as they were; with the manual strategy nothing reaches the backing tree until commit, which forwards exactly the current cached value of the named tag (commit of a tag that is not cached is a not-found error, and commit-all forwards every cached tag and returns exactly the ones that failed). When several threads share the tree, every operation takes effect atomically at one point between its call and its return and a tag is loaded from the backing tree at most once until it is evicted.",
 ["histories","schedules","fault_sequences"],"All sequences of open/mutate/save/evict/commit/commit-all over several tags with backing-tree failures at any point, both strategies, and all interleavings of such operations from several threads.",
 "No test exercises the cache at all; coherence depends on the order of operations and the interleaving.",
 [R+"tag/tree.rs"],[("cache map under one mutex",R+"tag/tree.rs CachingTagTree"),("atomic wrapper",R+"tag/tree.rs AtomicTagTree")],
 ["returned tags, handle identity, calls that reach the backing tree"],[("tag_cache","path to shared tag",R+"tag/tree.rs CachingTagTree"),("strategy","instant or manual",R+"tag/tree.rs")])
p("C03","Tag filters match exactly as wildcard patterns",
 "A tag filter accepts a path exactly when the whole path matches the pattern, where * stands for any run of characters (also none), ? for exactly one character and every other character for itself (native separators in the pattern stand for internal ones); with a group set, the group must match and the pattern applies to the path without extension (after removing one trailing extension of that group from the pattern), otherwise to the path with its extension. Null references match exactly when the group (if set) matches and the pattern accepts the empty path. This holds for every pattern and every path, including non-ASCII text, and never fails.",
 ["inputs"],"All pattern strings and tag paths/references, with and without group.",
 "Only a few documentation examples are tested.",
 [R+"tag/tree.rs"],[("wildcard matcher",R+"tag/tree.rs filter_passes_raw"),("extension clean-up",R+"tag/tree.rs TagFilter::new / cleanup_extension")],["passes / reference_matches results"])
p("C04","Tag paths are normalised once, validated, and round-trip",
 "Building a tag path from text lower-cases ASCII, turns native separators into the internal separator, collapses repeated separators, and rejects exactly: a leading separator, forbidden or control characters, path components that end in a dot (including . and ..) or are reserved device names, and (for full paths) a missing or unknown group extension. Every accepted path re-parses from its internal, display, zip and native form to an equal path, its base name is the part after the last separator, and its native form joined to a root directory never leaves that directory.",
 ["inputs"],"All strings (ASCII and non-ASCII) offered as tag paths and all tag groups.",
 "Tests cover a handful of paths; validation and idempotence must hold for every string.",
 [P+"primitive/path.rs",P+"primitive/group.rs"],[("normalisation and validation",P+"primitive/path.rs TagPath::new"),("extension split",P+"primitive/path.rs split_str_path")],["TagPath construction, accessors and conversions"])
p("C05","Dependency queries return exactly the reachable tags",
 "Listing dependencies of a tag returns exactly the tags reachable from it through tag references (with each tag's own direct references), on any reference graph including cycles; if some reachable tag is missing it reports a broken dependency naming a tag that really refers to it, unless broken references are allowed, in which case it returns exactly the reachable tags that exist. Tags that cannot be read are treated like missing ones, and tags of groups that can hold no references are not opened. Reverse dependencies of a tag are exactly the tags in the tree that directly reference it. Dependencies of a map are the scenario, the tags its engine requires for that scenario type, and everything reachable from those.",
 ["inputs","configurations"],"All finite reference graphs over tags of any groups, with cycles, diamonds, missing and unreadable tags, in any tag tree and for every engine.",
 "One test covers a fixed graph; closure on arbitrary graphs with cycles and missing nodes is not sampled.",
 [R+"tag/dependency.rs"],[("work-list closure",R+"tag/dependency.rs recursively_get_dependencies_for_tag"),("reverse scan",R+"tag/dependency.rs get_reverse_dependencies_for_tag"),("map closure",R+"tag/dependency.rs recursively_get_dependencies_for_map")],["returned sets and errors"])
p("C06","Renaming tags is all-or-nothing and retargets every reference exactly once",
 "A path refactor that succeeds has moved exactly the tags whose path matches the find/replace rule and the filter (none in no-move mode), and every reference (of a kind its field allows) in every readable tag of the tree to an old path now names the corresponding new path while every other reference and all other contents are unchanged, for any thread count. A reference is rewritten at most once, even if the new name is itself an old name of another rename. If it fails (nothing matches, a new name that already exists or is used twice, missing destination in no-move mode, invalid or empty name, file system error part-way), every tag file is where it was with its original contents.",
 ["histories","fault_sequences","configurations","schedules"],"All tag trees and reference graphs, find/replace strings and modes, filters, thread counts and a file-system failure at any step.",
 "The refactor test covers one rename without faults; atomicity depends on where a failure strikes.",
 [R+"tag/dependency.rs",I+"verb/refactor_paths.rs"],[("rename with undo log",R+"tag/dependency.rs refactor_paths_for_tag_tree"),("reference rewriting workers",R+"tag/dependency.rs refactor_paths_for_tag_tree")],["files on disk and references in them after the call, returned renames and errors"])
p("C07","Changing reference groups touches only legal, resolvable references",
 "Refactoring references from one group to another changes the group of exactly those references of the tag that have the old group, are allowed by their field to have the new group, are not read-only (unless asked for), and are either null or have a tag with the new group present in the tree; it changes nothing else and reports a change exactly when there was one. Running it again changes nothing.",
 ["inputs","configurations"],"All tags of all groups, all group pairs, all subsets of targets present in the tree.",
 "One test on one tag.",
 [R+"tag/dependency.rs",I+"verb/refactor_groups.rs"],[("filtered rewrite",R+"tag/dependency.rs refactor_groups_for_block")],["references in the tag after the call and the returned flag"])
p("C08","Verification reports on every requested tag, whatever the schedule",
 "Verifying a scenario reports a result for the scenario and for every tag it depends on, whatever the number of threads and however they interleave, and the findings are the same as with one thread. It always terminates, including on cyclic references between tags.",
 ["schedules","inputs","configurations"],"All reference graphs (including HUD and object cycles), thread counts and interleavings of workers that lock tags.",
 "Verification has no tests; skipped or lost results depend on lock timing between threads.",
 [R+"tag/verify.rs",R+"tag/verify/object.rs",R+"tag/verify/weapon_hud_interface.rs",R+"tag/verify/hud_interface.rs"],[("work queue of dependencies and per-tag results",R+"tag/verify.rs verify")],["returned result map"])
p("C09","Batch commands process every matching tag exactly once and count honestly",
 "A command run over a tag filter processes every tag in the tree that matches the filter exactly once and no other tag, for every job count; the summary counts equal the numbers of tags that succeeded and failed, one tag's failure does not stop the others, and tags the command has no business with are neither changed nor counted. The resulting files and the set of reported lines are the same for every job count.",
 ["configurations","schedules","inputs"],"All tag trees (with corrupt members), filters, job counts and batch commands.",
 "invader has no tests of its threading; exactly-once depends on the queue discipline under concurrency.",
 [I+"threading.rs",I+"util.rs"],[("shared work queue and counters",I+"threading.rs do_with_threads")],["files after the run, output lines and summary of the invader program"])
p("C10","Command lines are parsed by one consistent grammar",
 "For every verb that takes options, these may appear in any order among the arguments as long names, short names or grouped short names, each consuming exactly its declared number of following values; unknown options, missing values, values of the wrong type or range, folders that do not exist, options given twice when not repeatable, and too few or too many positional arguments are refused with an error before any tag is touched. An accepted command line behaves as its fully spelled-out form, and help is printed whenever it is requested.",
 ["inputs"],"All argument vectors for the commands' declared options.",
 "The parser has no tests.",
 [I+"cli.rs",I+"verb.rs",I+"main.rs"],[("argument loop",I+"cli.rs CommandLineParser::parse"),("verb lookup",I+"verb.rs")],["exit status, output and effects of the invader program"])
p("C11","Tag files are laid out by the definitions and round-trip losslessly",
 "Saving any tag of any group produces a file whose header carries the group, version and CRC-32 of everything after it, and whose body is the tag's structure exactly as its definition lays it out (fields at their defined offsets, sizes and byte order, followed by the data of references, blocks and raw data in field order). Reading that file back gives a tag equal in every stored field, and saving it again gives the same bytes.",
 ["inputs"],"All tag groups and all values of their fields, nested to any depth.",
 "Tests round-trip a few hand-made structures; they do not compare against the layout or cover the generated structures.",
 [P+"tag.rs",P+"parse.rs",P+"primitive/data.rs",P+"primitive/path.rs",P+"crc32.rs","src/ringhopper-structs-codegen/src/lib.rs","src/ringhopper-definitions/src/types/parse.rs"],[("field codec",P+"parse.rs"),("generated structure codecs","src/ringhopper-structs-codegen/src/lib.rs"),("header and CRC",P+"tag.rs TagFile")],["bytes of saved tag files and values of loaded tags"])
p("C12","Malformed tag files are rejected cleanly",
 "Reading any byte string as a tag file either returns a tag or an error: it never crashes, never hangs and never reserves memory out of proportion to the input. It is refused unless the header is valid and of a known group, the CRC matches (or is disabled, or relaxed reading was asked for), all data lies inside the file and no bytes are left over; when it is accepted, every stored field has the value its bytes encode.",
 ["inputs"],"All byte strings, in particular every truncation, extension, bit flip and hostile length field of a valid file.",
 "Tests feed a few specific bad inputs.",
 [P+"tag.rs",P+"parse.rs",P+"primitive/data.rs",P+"primitive/path.rs",P+"primitive/string.rs","src/ringhopper-structs-codegen/src/lib.rs"],[("bounds checks",P+"parse.rs fits"),("header validation and CRC",P+"tag.rs"),("leftover-data check",P+"tag.rs read_tag_from_file_buffer")],["result of reading the bytes"])
p("C13","Field matchers select exactly the described fields",
 "A field matcher (names separated by dots, subscripts with indices, ranges, lists or *) visits exactly the fields it describes, in order, each with the value found by walking the names and indices one at a time, both for reading and writing; visiting stops as soon as the visitor asks to. Inserting into a block copies, defaults or moves exactly the items it says. A matcher with an unknown field, an index out of range, a malformed range or a subscript on something that is not an array yields an error and never crashes.",
 ["inputs"],"All tags with nested blocks and all matcher strings.",
 "Parsing tests cover a few range strings.",
 [P+"dynamic.rs",P+"primitive/array.rs",P+"primitive.rs"],[("matcher walk",P+"dynamic.rs generate_access_function"),("range parser",P+"primitive.rs parse_range")],["visited fields and errors"])
p("C14","Comparing tags reports exactly the differences",
 "Comparing two tags of a group reports nothing when they hold the same values, is symmetric up to swapping sides, and reports every path at which a scalar, text, reference, raw data or block length differs, and no other path (numbers are compared as 32-bit floats, so NaN differs from itself; fields only found in cache files count only when asked for). Comparing a value to a copy after changing any one field names exactly that field.",
 ["inputs"],"All pairs of tags of the same group and all single- and multi-field modifications, with and without the functional-only option.",
 "No test covers comparison of generated structures.",
 [R+"tag/compare.rs",I+"verb/compare.rs"],[("recursive comparison",R+"tag/compare.rs compare_tags")],["returned differences"])
p("C15","Cache files load safely and resolve tags and data by address",
 "Loading any byte string as a cache file (for any engine) either yields a map or an error and never crashes, hangs or reserves memory out of proportion to the file. In a loaded map, each tag's path, group and identifier are the ones in the tag table, a lookup by identifier (its index) or path finds exactly that tag, and a read at an address returns exactly the bytes of the file region mapped there, or nothing if any byte lies outside it.",
 ["inputs"],"All cache files built from valid headers, tag tables, tag data, BSPs and resources and all corruptions of them.",
 "No test loads a cache file.",
 [R+"map.rs",R+"map/gearbox.rs",R+"map/xbox.rs",R+"map/util.rs",R+"map/header.rs",R+"map/resource.rs",P+"map.rs"],[("header parsing",R+"map/header.rs"),("tag table walk",R+"map/util.rs"),("address resolution",R+"map/gearbox.rs get_data_at_address")],["loaded map contents and errors"])
p("C16","Script decompilation inverts the syntax tree and always terminates",
 "Decompiling the scripts and globals of a scenario yields source files whose tokens say exactly what the nodes say: every global and script with its kind, types, name and parameters, and the tree of calls, names, strings, references and (finite) numbers of each, in order; only a `begin' around the statements of a script is left out. Definitions are never split between files; a new file begins after a definition with which one has 512 KiB; the files are named after the scenario and numbered, in at most 31 bytes. Nodes that do not form a tree at most 512 calls deep, missing nodes, strings out of range or without end (of nodes that need them), a node table of the wrong size, duplicate names and scenario names over 31 bytes are refused with an error. Decompiling never crashes or runs forever and changes nothing but the source files.",
 ["inputs","programs"],"All script syntax trees over the engine's functions and value types, and all corruptions of their node tables.",
 "Scripts have no tests.",
 [R+"tag/scenario.rs"],[("node walk with visited check",R+"tag/scenario.rs")],["decompiled source text or error"])
p("C17","Bitmap layouts: mips, swizzling and sizes are exact",
 "For every bitmap type, format and dimensions, iterating the mipmap layout yields the mips in storage order, contiguous and disjoint, each with the dimensions halved (never below one, or one block for block-compressed formats) and the byte size the format implies, summing to the total; impossible descriptions are refused (for all dimensions a bitmap can hold). Swizzling is a permutation of texels of power-of-two textures and deswizzling inverts it.",
 ["inputs"],"All dimensions, depths, mip counts, types and formats, including overflowing ones.",
 "Tests cover a few sizes.",
 [R+"tag/bitmap.rs",R+"tag/bitmap/swizzle.rs"],[("mip iterator",R+"tag/bitmap.rs"),("Morton order",R+"tag/bitmap/swizzle.rs")],["mip iterator items, swizzled buffers"])
p("C18","Colour plates keep every image intact",
 "The colour plate made of a folder of loose images (s<sequence>_<number>, counted from zero without gaps; the first missing sequence ends the plate) holds every image with exactly its size and pixels, in order and grouped in its sequences: reading the plate by its own key (the first pixels of the first row give the background, divider and padding colours; divider rows separate sequences, background separates images) finds exactly the images again and nothing else. Background and divider are blue and magenta unless an image or the padding uses these colours, and then colours that are not used. Eight-bit TIFF and PNG images, grey or coloured, with or without opacity, are read exactly, and plates written as TIFF read back unchanged; images that cannot be read exactly, folders without images and wrong padding files (#RGB or #RRGGBB) are refused, never crashing.",
 ["inputs"],"All folders of images of any size, kind and contents, all padding files.",
 "There are no tests of colour plates or image files.",
 [R+"data/bitmap/plate.rs",R+"data/bitmap/parse.rs",R+"data/bitmap.rs"],[("loose images and plate builder",R+"data/bitmap/plate.rs"),("image files",R+"data/bitmap/parse.rs")],["images loaded, plate made"])
p("C19","Unicode string lists survive conversion to text and back",
 "Writing the strings of a unicode string list as text and compiling that text again gives the same list of strings (up to line-ending normalisation), for every list whose strings do not contain a separator line (control characters other than tabs are dropped from text). Text with an unterminated last string, stray data or bad encoding is refused or handled as documented, never crashing.",
 ["inputs"],"All lists of strings and all text files in UTF-8 or UTF-16 with any byte-order mark and line endings.",
 "Tests cover a few sample texts.",
 [R+"tag/unicode_string_list.rs",P+"primitive/string.rs"],[("text parser and writer",R+"tag/unicode_string_list.rs")],["compiled strings and produced text"])
p("C20","Default values are set and stripped consistently",
 "Setting defaults replaces exactly the fields that hold zero (their unset value) and have a default, and stripping defaults zeroes exactly the fields that hold their default value; both are idempotent, leave every other field alone, and stripping then setting restores the values that setting alone would give. Pairs, bounds and colours with a default count as one field; sounds, models, shaders and other special cases follow their documented rules.",
 ["inputs"],"All tags of all groups with fields at zero, at their default or elsewhere.",
 "No test covers defaults.",
 [R+"tag/default.rs",R+"tag/default/sound.rs",R+"tag/default/model.rs",R+"tag/default/shader.rs","src/ringhopper-structs-codegen/src/lib.rs"],[("generated defaults","src/ringhopper-structs-codegen/src/lib.rs"),("special cases",R+"tag/default.rs")],["field values after set/strip"])
p("C21","Float nudging fixes decimal rounding and nothing else",
 "Nudging replaces exactly the listed numbers of tags of the nudgeable groups by the nearest number with six significant decimal digits (either one if two are equally near), keeping the sign; zero, infinities, NaN and numbers that are short already stay as they are, so nudging again changes nothing. The weights of an object's change colours that are all the same share of one become 1. Nothing else in the tag changes, tags of other groups do not change, and a tag is reported as nudged exactly when something in it changed.",
 ["inputs"],"All 32-bit float values.",
 "Tests sample a handful of floats.",
 [R+"tag/nudge.rs"],[("decimal digit rounding",R+"tag/nudge.rs fix_decimal_rounding")],["nudged values"])
p("C22","Packed values convert losslessly and stay in range",
 "Fixed-width values keep their meaning through packing: identifiers split into index and salt and rebuild to the same number and checked construction accepts exactly valid ones, indices use all-ones for none, 32-byte strings hold at most 31 bytes of text without NUL and read back as written, integer colours pack and unpack each channel losslessly, script node values keep what was put in, and numbers from -1 to 1 are compressed to the nearest representable value (at most half a quantisation step away, never changing sign; NaN is unspecified). Values outside the representable range are refused or clamped, never wrapped. Every primitive takes exactly its documented number of bytes where it is stored, alone or in an array.",
 ["inputs"],"All 32-bit identifiers and colours, all 16-bit indices, all strings, all float vectors.",
 "Tests check one or two values per type.",
 [P+"primitive/data.rs",P+"primitive/string.rs",P+"primitive/color.rs",P+"primitive/vector.rs"],[("bit packing",P+"primitive/data.rs ID"),("string storage",P+"primitive/string.rs"),("colour and vector packing",P+"primitive/color.rs, vector.rs")],["packed and unpacked values"])
p("C23","Sound permutation chains are followed completely and flaws are reported",
 "Verification of a sound reports an error for every chain of split permutations that leaves the pitch range or never ends, for links to the first permutation, wrong counts, flags, formats, channel counts, sample rates, buffer sizes and data sizes, none for correct sounds (an empty pitch range may be reported), and a warning for parts that no chain reaches and bend bounds that do not fit. Repairing a sound sets the split flag, the counts, the format, channels, rate, buffer sizes and links to nothing to what the permutations say and changes nothing else; afterwards only chains that cannot be followed are still reported, correct sounds are left alone, and sounds whose permutations contradict each other or cannot be read are refused unchanged. Converting channel counts and sample rates to numbers and back gives the same value and refuses all other numbers.",
 ["inputs","histories"],"All pitch ranges with any assignment of next-permutation indices and actual counts.",
 "Sound verification has no tests.",
 [R+"tag/verify/sound.rs",R+"tag/sound.rs"],[("chain walk",R+"tag/verify/sound.rs"),("chain repair",R+"tag/bludgeon"),("conversions",R+"tag/sound.rs")],["verification messages, repaired tags"])
p("C24","Model geometry conversion preserves triangles, vertices and references",
 "A model is reported as flawed exactly when some index in it names no node, geometry or shader (links between nodes, geometries of permutations, markers, shaders and centroids of parts, vertices, through local nodes where parts have them), when its parts disagree with it about local nodes, when it has runtime markers or rotations that are not unit quaternions. Repairing it moves runtime markers to their permutations, restores missing compressed or uncompressed vertices from each other, normalises rotations and changes nothing else; recompressing makes compressed vertices anew from the others or removes them where they cannot be had. Compressed values are the nearest ones, and restored values exactly what the compressed ones stand for. Converting a model with good indices to the other kind keeps every vertex bound to the same nodes and everything both kinds have; objects and items convert to exactly the listed groups, keeping every field they share and nothing else. Flipping detail cutoffs twice changes nothing.",
 ["inputs"],"All models with any part, node, marker and region indices.",
 "Model handling has no tests.",
 [R+"tag/model.rs",R+"tag/convert.rs"],[("index checks",R+"tag/model.rs"),("format conversion",R+"tag/convert.rs")],["checked, fixed and converted models"])
p("C25","Animation frame data is walked in the engine's order and never out of bounds",
 "Iterating an animation's frame data visits, for each frame and each node flagged as animated, rotation, translation and scale in storage order with contiguous offsets, covering exactly the frame size per frame; byte-order conversion touches each value once so that applying it twice restores the data. Data too short for the declared frames is refused without a crash.",
 ["inputs"],"All animations with any node flags, frame counts, types and data lengths.",
 "Animation conversion has no tests.",
 [R+"tag/model_animations.rs"],[("frame data iterator",R+"tag/model_animations.rs")],["converted frame data, errors"])
p("C26","Repairing a tag mends its numbers and leaves the rest alone",
 "Repairing a tag of any group turns every number in it that is not a number (in blocks, bounds and arrays alike) into zero and brings colours into 0..1, and changes nothing else but what the repairs of its group are for; unicode strings that do not read properly are stored anew. Repairing again changes nothing. Verification reports exactly the tags that have such numbers, colours or strings, and reports none of these of a repaired tag. Only scenarios with scripts but without sources, and models whose markers point outside them, cannot be repaired. The bludgeon command repairs files whose checksum is wrong as well.",
 ["inputs"],"All tags with any numbers anywhere.",
 "Repair has no tests.",
 [R+"tag/bludgeon.rs",R+"tag/bludgeon/floats.rs",R+"tag/verify/floats.rs"],[("mending",R+"tag/bludgeon/floats.rs"),("reporting",R+"tag/verify/floats.rs")],["repaired tags, verification messages"])
p("C27","BSP vertices are restored faithfully and detail objects checked completely",
 "The vertices of BSP materials missing in one of the two forms are restored from the other: with the nearest compressed values, or exactly the values the compressed ones stand for, in the same order, leaving all else alone; when counts and lengths contradict each other nothing is restored. Repairing makes the normals of rendered vertices unit vectors and changes nothing else, or refuses BSPs whose buffers have the wrong length. Verification reports exactly the BSPs with buffers of the wrong length, with normals that are not unit vectors, and with detail object cells that leave the tables of the object, and names exactly the missing detail object palettes.",
 ["inputs"],"All BSPs with any counts, buffer lengths, vertices and detail objects.",
 "BSP handling has no tests.",
 [R+"tag/scenario_structure_bsp.rs",R+"tag/verify/scenario_structure_bsp.rs",R+"tag/bludgeon/scenario_structure_bsp.rs"],[("restoring vertices",R+"tag/scenario_structure_bsp.rs"),("verification",R+"tag/verify/scenario_structure_bsp.rs")],["restored and repaired BSPs, verification messages"])
p("C28","Extraction from cache files undoes building, and nothing else",
 "A tag taken out of a cache file is what is in the file with exactly what building did to it undone: numbers kept per tick or in other units (velocities, durations, fades, friction, bend rates, and nothing else) are converted back and tidied; the summed-up weights of change colours are weights again; 16-bit samples are big-endian; textures come from where they are kept, in the order tags have them (faces, mipmaps and rows; unswizzled), without padding, one after the other, with the count of mipmaps that are there; sprite sequences name their textures; models have their vertices in both forms, their triangles, their markers in regions and their detail cutoffs in tag order; the nodes of scripts are big-endian and the unused ones zero; detail objects are as low as their layers' collections say; and the tags changed for the campaign are as they were, in and only in scenarios where they are changed. Everything else is as it is in the file. When something contradicts itself (sizes, dimensions, weights, markers, tables) extraction fails with an error instead.",
 ["inputs"],"All cache files of all engines with any tags in them: bitmaps of any format, type, size, with any mipmaps; models; sounds; BSPs with any detail objects and palettes.",
 "Extraction has no tests: they would need cache files.",
 [R+"map/extract.rs",R+"map.rs",R+"tag/nudge.rs",R+"tag/bitmap.rs",R+"tag/model.rs"],[("undoing what building did",R+"map/extract.rs"),("dispatch",R+"map.rs")],["extracted tags next to the tags as they are in the file"])
p("C29","Recovering source data gives back exactly what was kept",
 "Recovering a bitmap yields the colour plate it keeps with exactly its size and pixels as a TIFF file named after the tag; recovering a scenario yields every script source it keeps (up to its first zero byte) in a file of its own named after it, in the scripts folder next to the tag (global_scripts: at the root). Nothing kept yields nothing. Plates whose sizes disagree or that cannot be decompressed completely, and scripts with the same name or whose names would lead to another folder, are refused; recovering never crashes. Only bitmaps, scenarios and unicode string lists can be recovered.",
 ["inputs"],"All bitmaps and scenarios, and all corruptions of what they keep.",
 "Recovering has no tests.",
 [R+"tag/recover.rs",R+"tag/bitmap.rs"],[("recovery functions",R+"tag/recover.rs"),("plate decompression",R+"tag/bitmap.rs extract_compressed_color_plate_data")],["recovered files or error"])
p("C30","Tags read out of cache files are what the files hold",
 "Reading a tag out of a loaded cache file, before anything is undone, gives each of its values exactly as its definition places it in the file: numbers in the little-endian order of cache files, list items, raw data and texts from their addresses in the space of the structure they lie in (tag data, the tag's BSP, resource maps), samples from the sounds file when they say so, vertices of BSPs in the form the engine keeps and from where it keeps them, references as the tags their identifiers name whatever else they say, flags and fields only for tag files at their defaults. It can be read exactly if all of this is there; otherwise reading fails with an error, without crashing or reserving memory out of proportion.",
 ["inputs"],"All tags of all groups in cache files of all engines, nested to any depth, and all corruptions of them.",
 "No test reads a tag out of a cache file.",
 ["src/ringhopper-structs-codegen/src/lib.rs",P+"primitive/data.rs",P+"primitive/path.rs",P+"primitive/array.rs",P+"parse.rs",P+"map.rs"],[("generated readers","src/ringhopper-structs-codegen/src/lib.rs read_from_map"),("lists, raw data, vertices",P+"primitive/data.rs"),("references",P+"primitive/path.rs")],["values of tags read from cache files, errors"])
with open("/verif/properties.jsonl","w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props))
