T = "TLA+ spec (TLC): exhaustive small-model check + trace validation of the real code"
check("T01", T + " (PES packets)", "Pes.tla decodes every packet the writer produced and predicts what the parser returns; payload model exhaustive over {0,1,3,x} up to 6-8 bytes, other sizes/time stamps seeded and boundary-biased; conversions include several tracks, laced blocks and block groups.")
check("T02", T + " (start-code escaping)", "All payloads over {0,1,3,x} up to 6 (quick) / 8 (thorough) bytes are enumerated by TLC and replayed into writer and parser, plus random and fragment-boundary payloads.")
check("T03", T + " (TS packets)", "All unit lengths in a range and random frame sequences are converted; each 188-byte packet is decoded by the specification.")
check("T04", T + " (conversion faults)", "Random documents (several tracks, wrong codecs, damaged frames, damaged or absent files) are converted with the output cut off at chosen bytes (process file size limit) and with sinks that refuse the k-th packet; the specification says which of them must fail.")
check("T05", T + " (PES streams of any origin)", "Pes.tla's ParseNext says where the next frame is and what it holds, if there is one; every byte of small streams is set to telling values, every cut, and random streams (any fragmentation, unusual and wrong fields, lost packets, damage) are parsed under ASan and UBSan.")
check("V01", T + " (WebVTT)", "WebVtt.tla is a byte-level executable specification of the parser; texts come from exhaustive enumeration by TLC (render/parse model) and a damage-injecting grammar generator.")
check("V02", T + " (time algebra)", "Boundary domain explored by TLC and replayed; random times over the full range of int hours.")
S = "Mux.tla is the session state machine; MCMux.tla explores every call sequence of depth 3 (thorough 4) over small layouts and settings and its histories are replayed into the muxer; "
for p, n in [
    ("M01", "random sessions over all APIs, layouts, modes and settings are validated call by call, and the decoded output must hold exactly the accepted frames."),
    ("M02", "cluster boundaries, timecodes and contents of the output must equal the model's."),
    ("M03", "cue points of the output must equal the model's, resolved to blocks of the decoded clusters."),
    ("M04", "the output is decoded strictly (sizes, tiling) and seek positions are resolved."),
    ("M05", "duration compared exactly up to the 32-bit float the format stores."),
    ("M09", "sessions with accurate cluster durations: order and durations of every block."),
    ("M10", "sessions where about half of the calls are invalid: return values and the effect on everything after."),
]:
    check(p, T + " (muxing session)", S + n)
check("M07", T + " (muxing session, writer failures)", "Each session is repeated with the k-th writer operation failing (transiently, for good, or with a positive status) for every k up to 60 (thorough 400) per session, including the copy with moved cues.")
check("M08", T + " (cues moved to the front)", "Files of random sessions and of sessions placed around position- and size-width boundaries are rewritten; both files are decoded and compared by the specification.")
check("M11", T + " (chunked twin)", "Every session is executed plainly and chunked; the specification judges the plain run and requires the chunks to concatenate to it.")
check("M06", T + " (metadata)", "Meta.tla says what each setter accepts and stores, when headers can be written and what each parser must report; every field is tried alone at its boundary values, all track-number request sequences of depth 4 are replayed from TLC, and random full sessions set everything together.")
W = "Webm.tla is the parser as a state machine over the document's bytes (grammar table in WebmSchema.tla); MCWebm.tla explores every small document of up to 2 (thorough 3) tokens in a Segment with every choice of skipped elements, and its behaviours are replayed; "
check("W01", T + " (streaming parser)", W + "random documents over the whole grammar with all size widths, unknown sizes, lacing, void and unknown elements; every callback with all its contents must be the one the specification owes.")
check("W02", T + " (streaming parser, interruptions)", W + "the same documents fed with short reads, would-blocks and pausing callbacks at random and exhaustive one-byte schedules.")
check("W03", T + " (streaming parser, skipping)", W + "random skip choices at every begin callback, including elements of unknown size.")
check("W04", T + " (streaming parser, seeking)", W + "a seek to every element of the grammar and to element boundaries of random documents, before and in the middle of a parse.")
check("W05", T + " (streaming parser, malformed documents)", W + "documents with one to three violations (IDs, sizes, values, cuts, nesting around the limit, absurd sizes); callbacks before the violation, its status and its repetition are judged.")
check("W06", T + " (streaming parser, values)", W + "every value element of every structure with every encoding length and extreme values, repeated and combined.")
SK = "Mkv.tla decodes a document into the headers, clusters, blocks and cues a user must see; MCMkv.tla checks it against every small file of up to 2 (thorough 3) tokens, against the streaming machine on every prefix, and prints its sessions for replay; "
check("P01", T + " (seeking parser)", SK + "random files with all size encodings, void and unknown elements, lacing and empty clusters, and files beyond the parser's table sizes, are iterated in several orders and every answer compared.")
check("P02", T + " (seeking parser, growing files)", SK + "files become available in random, dense and byte-by-byte steps, with known and unknown total length; each answer must be the final one or a justified request for more.")
check("P03", T + " (lacing, both parsers)", SK + "all small arrangements of lace bytes (sampled in quick), long runs and every size width, through both parsers.")
check("P04", T + " (cues and seeks)", SK + "random time-ordered files with cue tables, queried around every block and cue time while clusters and cues are loaded, preloaded or walked in any order.")
check("P05", T + " (hostile input and failing reads)", SK + "files with one to three mutations (sizes, values, identifiers, moved or missing elements) and read failures at any read, under ASan and UBSan; what is reported must lie inside the file, and with failing reads must be part of it.")
check("P06", T + " (truncated files)", SK + "random files cut at every byte (sampled in quick), through both parsers.")
check("E01", T + " (EBML numbers)", "Coding.tla defines every encoding over byte tuples; TLC checks its laws at every power of two and over patterns of telling bytes, and those values and random ones are written at every width by the muxer and read by both parsers; arbitrary and truncated bytes are read by every primitive.")
check("R01", T + " (readers and writers)", "Io.tla states the contracts; MCIo.tla explores all call histories of depth 3 (thorough 4) over tiny data and its histories, with random longer ones around buffer boundaries, are replayed on every reader kind (buffer, file, pipe, seekable and non-seekable streams, MkvReader) and on MkvWriter.")
check("C01", T + " (VP9 headers)", "Vp9.tla decodes a header bit by bit; MCVp9.tla writes headers from the grammar, part by part exhaustively, and checks that decoding returns what was written and refuses every cut; its headers, random sequences through one parser object (sizes carried over, taken from reference slots or coded), every prefix of random headers and mutated ones are decoded by the code in exact-size buffers; superframe indexes of all shapes are judged by Pes.tla.")
check("C02", T + " (VP9 level statistics)", "Vp9Level.tla defines every statistic over the whole history with exact arithmetic, and the level table; MCVp9Level.tla checks that the incremental windows compute them on every history of 5 (thorough 6) frames; those histories, cases at, just below and just above every limit of the table, and random streams are replayed.")
check("H01", T + " (codec features and colour)", "Hdr.tla says which feature lists are well formed; MCHdr.tla checks an entry-by-entry decoder against it on all small lists, which are replayed with random longer ones; colours with every field alone, all but one, and random combinations with boundary values are copied and compared field by field.")
check("S01", T + " (remuxing tool)", "Remux.tla says which tracks and frames a set of options selects, what each metadata field becomes, which cues are owed and when the tool must or may fail; MCRemux.tla checks it on all small inputs and options; random inputs with random options are run through the tool built from the tree, and the decoded output is judged; each is repeated with the output cut off by a file size limit.")
check("S02", T + " (WebVTT tools)", "VttMux.tla composes the WebVTT specification with the metadata tracks of the file: blocks, their times and durations, chapters, and the files that must come out; random WebVTT files of all kinds, damaged ones, and limited output sizes are run through both tools.")
check("S03", T + " (info tool)", "Info.tla states the report line by line as a function of the document, the options and the VP9 stream read so far (with Vp9.tla and Vp9Level.tla); MCInfo checks that sections and options are independent and every wanted block is told once; random documents with random options, a quarter of them damaged, are given to the tool built with sanitizers and every printed line is judged.")
check("S04", T + " (WebVTT extraction)", "VttExtract.tla gives the bytes of every extracted file and the exit status as a function of the document; MCVttExtract.tla checks on all small documents that parsing what was extracted (WebVtt.tla) gives the cues of the blocks back; random documents built by an independent encoder, whole, cut at random bytes and at block ends, and damaged, are given to the tool built with sanitizers.")
