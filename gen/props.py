#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 gen/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


MX = ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc"]
MP = ["mkvparser/mkvparser.cc"]
WP = ["webm_parser/src/webm_parser.cc", "webm_parser/src/master_parser.cc", "webm_parser/src/block_parser.cc"]

prop("M01", "Every accepted frame is in the file exactly once, intact and in order",
     "When a muxing session is finalized successfully, every frame whose add call returned success is present in the output exactly once, with its payload, track, timestamp (in timecode ticks), key flag, duration, discard padding and additional data, and nothing else is present. Frames of one track appear in the order they were added, whatever the interleaving of audio, video and metadata tracks and whatever cluster, queueing and mode settings are in use.",
     ["histories", "configurations"], "all sequences of track/configuration/frame calls, in live and file mode, with any interleaving of tracks",
     "the internal audio queue, forced clusters and per-cluster queues interact with the order of calls; tests compare a handful of golden files with few frames",
     MX, [("audio queue and frame writing", "Segment::AddGenericFrame, WriteFramesAll, WriteFramesLessThan, Cluster::DoWriteFrame"), ("block serialisation", "WriteFrame, WriteBlock, WriteSimpleBlock")],
     "decoded output bytes (independent EBML decoder)")
prop("M02", "Clusters are cut exactly where documented and hold only representable blocks",
     "Every block's absolute timestamp equals its cluster's timecode plus its own signed 16-bit offset, and offsets are never negative or wrapped. A new cluster begins exactly when the first frame is written, at each video key frame, on request, when the configured maximum cluster duration or byte size has been reached, or when the offset would no longer fit; and at no other point.",
     ["histories", "configurations"], "all frame sequences, timestamps, cluster limits and forced-cluster requests",
     "cluster cutting depends on the whole history of sizes, timestamps and queued audio; tests sample a few limits",
     MX, [("cluster decision", "Segment::TestFrame, DoNewClusterProcessing, MakeNewCluster"), ("relative timecode", "Cluster::GetRelativeTimecode")],
     "decoded cluster and block headers")
prop("M03", "Every cue leads to the frame it describes",
     "In a finalized seekable file with cues enabled, each cue point's position is the exact offset of a cluster whose block with the stated number belongs to the stated track and has the stated time, and every cluster that holds a frame of the cue track has exactly one automatic cue, for the first such frame, unless the user placed a cue in that cluster before it. With cues disabled or in live mode no cues are written; cues requested explicitly by the user appear as requested.",
     ["histories", "configurations"], "all frame histories, cue tracks, cue settings and output modes",
     "cue positions depend on everything written before; tests check few files byte for byte",
     MX, [("cue creation", "Segment::AddCuePoint, AddGenericFrame, MakeNewCluster"), ("cue serialisation", "Cues::Write, CuePoint::Write")])
prop("M04", "Every declared size and position in the output is exact",
     "After successful finalization on a seekable writer every element's declared size equals the bytes it occupies, nested elements tile their parents, and every seek-head entry's position is the exact offset of an element with the stated ID, covering info, tracks, chapters, tags, first cluster and cues that were written. In live mode or on a non-seekable writer the segment carries the unknown size and there is no seek head; on a non-seekable writer the clusters carry the unknown size too and the writer is never repositioned; and every element written is still well formed.",
     ["histories", "configurations"], "all sessions over all modes, writers (seekable or not) and element combinations",
     "sizes and offsets are computed separately from what is written, for every combination of optional elements and value widths",
     MX, [("size computation vs write", "*::Size / *::Write pairs, WriteEbmlMasterElement"), ("back-patching", "Segment::Finalize, SeekHead::Finalize, Cluster::Finalize")])
prop("M05", "Segment headers and duration are finalized to what was muxed",
     "In a finalized seekable file the declared duration equals the end of the latest frame written (its timestamp plus its duration; one tick if that is zero) in timecode ticks, or the value the user set, or (when estimation is requested) the documented estimate, and the EBML header declares the document type and version the written content requires. Info fields (timecode scale, writing and muxing application, date) equal what was set, and live mode writes no duration.",
     ["histories", "configurations"], "all frame histories and info settings",
     "depends on the final state after arbitrary histories",
     MX, [("duration", "Segment::Finalize, SegmentInfo::Finalize"), ("header", "WriteEbmlHeader, Segment::WriteSegmentHeader")])
prop("M06", "Metadata given to the muxer is read back identically by both parsers",
     "Track properties (number, UID, type, codec, private data, language, name, delays, default duration, dimensions, crops, stereo and alpha mode, colour, mastering and projection data, audio rate/channels/depth, content encryption), chapters and tags accepted by the muxer are read back with equal values by both bundled parsers from the finalized file. Track numbers and UIDs are unique and automatic numbers never collide with requested ones.",
     ["inputs", "configurations"], "all combinations of accepted metadata values",
     "hundreds of optional fields with value-dependent encodings; tests read back a few fixed values",
     MX + MP + ["webm_parser/src/*_parser.h", "mkvmuxer/mkvmuxertypes.h"], [("metadata serialisation", "Track/VideoTrack/AudioTrack/Colour/Projection/Chapter/Tag ::Write"), ("metadata parsing", "mkvparser Tracks/Chapters/Tags::Parse; webm_parser *_parser.h")])
prop("M07", "Writer failures are reported, never swallowed, and never corrupt memory",
     "If any write or seek of the underlying writer fails during a session, the muxer call during which it happened, or at the latest finalization, reports failure; success is never reported for a session in which bytes were lost. After a failure, further calls and destruction remain memory safe.",
     ["fault_sequences", "histories"], "every index of failing write/seek operation in every session",
     "needs a fault injected at every individual write of many different sessions",
     MX, [("error propagation", "all Write*/Serialize* return values, Segment::WriteFramesAll, WriteFramesLessThan, Cluster::Finalize, ChunkedCopy")])
prop("M08", "Copying with cues moved to the front preserves everything and fixes references",
     "Rewriting a finished file with its cues moved before the clusters yields a well-formed file whose info, tracks, chapters, tags and clusters are byte-identical to the original's, whose cues describe the same times, tracks and blocks at the clusters' new offsets, and whose seek head points at the moved elements; a session without cues or seek head to move is refused.",
     ["histories", "configurations"], "all finalized sessions, including cue counts around position-width boundaries",
     "the cue size and the positions in it depend on each other (width changes); tests use one small file",
     MX, [("move cues", "Segment::CopyAndMoveCuesBeforeClusters, MoveCuesBeforeClusters, MoveCuesBeforeClustersHelper")])
prop("M09", "Accurate cluster durations are exact and lose no frame",
     "With accurate cluster durations enabled, the last frame of every track in a finished cluster that is not the last carries a duration reaching to the frame that starts the next cluster, unless it has its own duration or is not earlier than that frame; all other frames keep the duration they were given, and frames are still written exactly once and in timestamp order within the cluster.",
     ["histories", "configurations"], "all frame interleavings with the option enabled",
     "relies on per-track queues whose content depends on interleaving",
     MX, [("per-track queues", "Cluster::QueueOrWriteFrame, Cluster::Finalize(bool, uint64_t)")])
prop("M10", "Invalid requests are refused without side effects on the output",
     "Frames for unknown tracks, empty or null frames, timestamps earlier than the latest one written, invalid or duplicate track numbers, and tracks added after the header was written are refused with a failure result; the rest of the session then proceeds as though the refused call had not been made.",
     ["histories", "inputs"], "any refused call inserted at any point of any session",
     "requires comparing whole sessions with and without each refused call",
     MX, [("validation", "Frame::Init/IsValid/CanBeSimpleBlock, Segment::AddGenericFrame, AddVideoTrack/AddAudioTrack, setters")])
prop("M11", "Chunked output concatenates to the same stream",
     "With chunked output the header chunk followed by all cluster chunks is byte for byte the stream the same session produces unchunked, every chunk after the header starts at a cluster, and cues and sizes are those of the unchunked session.",
     ["histories", "configurations"], "all sessions with chunking enabled",
     "tests do not exercise chunking in combination with cluster cutting and audio queueing",
     MX + ["mkvmuxer/mkvwriter.cc"], [("chunk rollover", "Segment::SetChunking, UpdateChunkName, MakeNewCluster, ChunkedWriter")])

prop("P01", "Iterating a document yields exactly its blocks and frames",
     "For every well-formed document, walking clusters and blocks with the seeking parser yields every (simple) block in file order with its track, absolute time, key flag, discard padding, frame count and exact frame bytes, and nothing else, regardless of unknown element sizes, void/unknown elements, element order within levels (a cluster's timecode before its blocks), or empty clusters. Per-track first/next iteration yields the same blocks restricted to that track, starting with the first key frame for video (a search gives up after 100 clusters without a block of the track).",
     ["inputs"], "all well-formed documents and all EBML size encodings",
     "document structure space is unbounded; tests use a few fixed files",
     MP, [("cluster and block parsing", "Segment::DoLoadCluster, Cluster::Parse, ParseSimpleBlock, ParseBlockGroup, Block::Parse"), ("track iteration", "Track::GetFirst, Track::GetNext")])
prop("P02", "Parsing a growing file gives the same result as parsing the whole file",
     "If bytes become available in any increments, the seeking parser asks for more data or reports incomplete until an element is available and finally reports exactly the same headers, clusters and blocks as when the complete file is available at once; it never reads beyond what is available and never reports an element that differs from the final one.",
     ["schedules", "inputs"], "every split of every document into availability increments",
     "number of increment schedules is exponential; existing tests use complete files only",
     MP, [("progressive parsing", "Segment::ParseHeaders, LoadCluster(pos,len), DoLoadCluster, DoLoadClusterUnknownSize, Cluster::Parse")])
prop("P03", "Laced blocks are split into exactly their frames",
     "For Xiph, EBML and fixed-size lacing with any number of frames and any frame sizes, both parsers report exactly the encoded frames with exact offsets and sizes that tile the block payload, and reject a block whose lace header does not fit the block. (The seeking parser also rejects frames of no bytes.)",
     ["inputs"], "all lacing kinds, counts, sizes and delta encodings",
     "size encodings have many boundary cases (255 runs, signed deltas of each width)",
     MP + ["webm_parser/src/block_parser.cc", "webm_parser/src/block_header_parser.cc"], [("lacing", "Block::Parse, BlockParser lace handling")])
prop("P04", "Cue lookup and time seeks land on the right block",
     "Finding a cue by time returns the last cue not after that time (the first cue when the time precedes all), the cue's track position resolves to the block it designates, and, in a file whose clusters and blocks are in time order, seeking a track by time returns the latest key frame of a video track (or the first block of the covering cluster for audio) not after that time among loaded clusters that start no later; a time before everything gives the track's first block. Walking on from a cluster found through the cues continues with the clusters that follow it.",
     ["inputs"], "all cue tables and all query times",
     "binary searches over arbitrary tables; tests query a few points",
     MP, [("cue search", "Cues::Find, CuePoint::Find, Cues::GetBlock"), ("track seek", "VideoTrack::Seek, Track::Seek, Segment::FindCluster")])
prop("P05", "Malformed or hostile input is contained",
     "For arbitrary bytes, both parsers return an error or a partial result in bounded time, never access memory outside their buffers or abort, and report only frames that lie inside the file (while its length is unknown, a block may be reported before its frames have arrived). A failing read leads to an error or a partial result, never to blocks or times that the file does not contain.",
     ["inputs", "fault_sequences"], "all byte strings, and read errors at any point",
     "requires arbitrary mutated input, not well-formed samples",
     MP + WP, [("bounds checks", "ReadUInt, ParseElementHeader, Block::Parse, *::Parse loops")])
prop("P06", "A truncated file yields a faithful prefix",
     "When a finished file is cut at any byte, or a live recording stops at any byte, the blocks either parser reports are a prefix of the blocks of the complete file, with identical contents, and every block completely contained in the remaining bytes of a cluster of unknown size is reported by the streaming parser.",
     ["crash_points"], "every cut position of every document",
     "requires every cut point",
     MP + WP, [("truncation handling", "Cluster::Load/Parse, MasterParser::Feed, Reader status")])

prop("W01", "The callback sequence mirrors the document exactly",
     "For every valid document the streaming parser invokes its callbacks once per element in document order, properly nested, with each element's ID, header size, body size and absolute position exact, the parsed values of every element, and each frame's bytes and positions exact; unknown and void elements are reported or skipped as the callback requests.",
     ["inputs", "configurations"], "all valid documents, known and unknown sizes",
     "structure space is unbounded; unit tests feed each element in isolation",
     WP, [("element dispatch", "DocumentParser::Feed, MasterParser::Feed"), ("value parsing", "*_parser.h")])
prop("W02", "Interrupted parsing resumes to the identical callback sequence",
     "If the reader returns partial data or would-block at any points, or a callback asks to pause at any points, calling the parser again continues and the overall sequence of callbacks and the final status are the same as for an uninterrupted parse, apart from repeated calls of the interrupted callback.",
     ["schedules", "inputs"], "every placement of short reads, would-blocks and callback pauses",
     "exponentially many interruption schedules; unit tests use one byte at a time on small elements",
     WP, [("incremental state machines", "all *Parser::Feed/InitAfterSeek")])
prop("W03", "Skipping an element consumes exactly that element",
     "When the callback chooses to skip an element, the parser consumes exactly that element's bytes (or, for unknown sizes, through its last descendant), reports none of its contents, and continues with the next element exactly as if it had been parsed.",
     ["inputs", "histories"], "every subset of elements skipped in every document",
     "combinatorial choice of skipped elements",
     WP + ["webm_parser/src/skip_parser.cc", "webm_parser/src/skip_callback.h"], [("skip", "SkipParser, SkipCallback, MasterParser::Feed Action::kSkip")])
prop("W04", "Parsing can restart at any element boundary after a seek",
     "After the reader is moved to the start of any element and the parser is told so, the callbacks from there on are those of parsing the remaining document from that element, with the implied enclosing elements taken as already open.",
     ["inputs", "histories"], "every element boundary in every document, at any moment of a parse",
     "combination of seek time and target",
     WP + ["webm_parser/src/ancestory.cc"], [("seek", "WebmParser::DidSeek, InitAfterSeek, Ancestory::ById")])
prop("W05", "Malformed documents are refused with the documented, sticky status",
     "A document that violates the element grammar (bad ID or size coding, size not allowed for the type, child exceeding its parent, unknown-size element where forbidden, invalid boolean, excessive nesting, truncated element) is reported with the status documented for that violation, after the callbacks for everything before it and none after; the status is repeated on further calls until a seek.",
     ["inputs"], "every violation at every position",
     "violation kind times position",
     WP + ["webm_parser/include/webm/status.h"], [("validation", "*Parser::Init/Feed status codes")])
prop("W06", "Element values and defaults are decoded exactly",
     "Every integer, float, date, string, binary, boolean and enumeration element is delivered with the exact value encoded in its bytes for every encoding length, and absent or empty elements are delivered with the documented default and the correct presence flag.",
     ["inputs"], "all encodings of all element types",
     "value space",
     ["webm_parser/src/int_parser.h", "webm_parser/src/float_parser.h", "webm_parser/src/byte_parser.h", "webm_parser/src/master_value_parser.h"], [("value parsers", "IntParser, FloatParser, DateParser, BoolParser, ByteParser, MasterValueParser")])

prop("E01", "Writer and parsers agree on EBML numbers of every width",
     "For every value and width, integers, coded sizes, IDs, floats, dates, strings, binaries and void elements written by the muxer's primitives occupy exactly the predicted number of bytes, the fewest the format allows where no width is given, and decode to the same value with both parsers' primitives; coded sizes and fixed-size elements that do not fit are refused, and no written size collides with the unknown-size marker. Any byte sequence is read by both parsers' primitives as the value it encodes, or refused when it is cut short, malformed or of an impossible size (8-byte unsigned values of 2^63 and more are refused by the seeking parser).",
     ["inputs"], "all 64-bit values and all widths",
     "boundary values at every width",
     ["mkvmuxer/mkvmuxerutil.cc", "mkvparser/mkvparser.cc", "webm_parser/src/var_int_parser.cc"], [("coding", "GetCodedUIntSize, WriteUInt, SerializeInt, ReadUInt, UnserializeUInt, VarIntParser")])
prop("R01", "Readers and writers honour their contracts",
     "File, stream, buffer and memory readers return exactly the stored bytes at each position for every split of reads and skips, report end of data only when nothing was delivered and never success past the end, including after a reader is moved; the file writer's position and contents equal the sequence of writes and repositionings made.",
     ["histories", "inputs"], "all sequences of read/skip/position/write calls",
     "sequences of mixed operations around end of data",
     ["mkvparser/mkvreader.cc", "mkvmuxer/mkvwriter.cc", "webm_parser/src/file_reader.cc", "webm_parser/src/istream_reader.cc", "webm_parser/src/buffer_reader.cc"], [("reader/writer", "MkvReader::Read, MkvWriter::Write/Position, *Reader::Read/Skip")])
prop("T01", "Frames survive the trip through PES packets",
     "For every sequence of VP8/VP9 frames of any size and any timestamps, the packets written carry each frame's bytes, order and 33-bit 90 kHz timestamp, and the bundled packet parser returns exactly the frames and timestamps that were written, including superframes and frames split over several packets.",
     ["inputs", "histories"], "all frame sizes, contents and timestamps",
     "tests use one file of small frames with small timestamps",
     ["m2ts/webm2pes.cc", "m2ts/vpxpes_parser.cc"], [("packetisation", "Webm2Pes::WritePesPacket, PesHeader::Write"), ("parsing", "VpxPesParser::ParseNextPacket")])
prop("T02", "PES payloads never emulate a start code and unescape exactly",
     "Whatever the frame bytes, no start-code prefix occurs inside a packet after its header, and removing the inserted bytes restores the frame exactly.",
     ["inputs"], "all payload byte strings",
     "needs every arrangement of zero runs including at packet boundaries",
     ["m2ts/webm2pes.cc", "m2ts/vpxpes_parser.cc"], [("escaping", "CopyAndEscapeStartCodes, RemoveStartCodeEmulationPreventionBytes")])
prop("T03", "Transport stream packets carry the PES bytes losslessly",
     "Every output unit is a 188-byte packet with sync byte and the video PID, the payload-start flag exactly on the first packet of a PES packet, valid adaptation padding, continuity counters that increase by one modulo 16, and the payloads concatenate to the PES bytes.",
     ["inputs", "histories"], "all PES packet lengths and sequences",
     "lengths around 184-byte boundaries and counter wraps",
     ["m2ts/vpxpes2ts.cc"], [("packetisation", "VpxPes2Ts::WritePesPacketToTsPackets / ReceivePacket")])
prop("T04", "Conversions fail loudly",
     "A conversion of a WebM file to PES or TS reports failure when the input cannot be opened or is not a WebM file whose first video track is VP8 or VP9, when a frame cannot be represented, when the output cannot be opened or not all of it can be written, and when the packet receiver refuses a packet; otherwise it reports success. Success is never reported for missing or truncated output, and what was written before a failure is a prefix of the full output.",
     ["inputs", "fault_sequences"], "all inputs and every byte at which writing fails",
     "the unit tests convert one valid file to a working output",
     ["m2ts/webm2pes.cc", "m2ts/vpxpes2ts.cc"], [("conversion", "Webm2Pes::ConvertToFile / ConvertToPacketReceiver / InitWebmParser / ReadVideoFrame, VpxPes2Ts::ConvertToFile / ReceivePacket")])
prop("T05", "The PES parser is total and returns only frames that are there",
     "For every byte stream the PES parser terminates without touching memory it does not own and returns, one after another, the frames whose packets are well formed (stream id, optional header with marker and stuffing bits, BCMV header and exactly as many payload bytes as it declares, in one packet or completed by packets without time stamp), skipping bytes before a start code, with the payload and time stamp that are in the stream; it fails at the first packet that is malformed or whose frame is incomplete, and a parser object can open one stream after another.",
     ["inputs"], "all byte streams, in particular damaged and truncated ones and every way of cutting a frame into packets",
     "the unit tests only parse what the writer produced from one file",
     ["m2ts/vpxpes_parser.cc"], [("parsing", "VpxPesParser::Open / ParseNextPacket / AccumulateFragmentedPayload / RemoveStartCodeEmulationPreventionBytes")])
prop("V01", "WebVTT parsing yields exactly the cues written",
     "For every WebVTT text in any of the three line-ending conventions the parser returns each cue's identifier, start and stop time, settings and payload lines exactly as written, end of stream after the last cue, and an error for any text that violates the format (bad signature, missing blank line, malformed time, setting or empty payload) and for any reader failure.",
     ["inputs", "fault_sequences"], "all texts and read failures",
     "no WebVTT unit tests exist in the repository",
     ["webvtt/webvttparser.cc", "webvtt/vttreader.cc"], [("parsing", "Parser::Init, Parse, ParseTimingsLine, ParseTime, ParseSettings, LineReader::GetLine")])
prop("V02", "WebVTT time arithmetic is exact",
     "Converting a time to milliseconds and back is the identity, comparison agrees with the order of milliseconds, and addition and subtraction of durations agree with integer arithmetic on milliseconds.",
     ["inputs"], "all times and durations",
     "carry boundaries of hours, minutes, seconds",
     ["webvtt/webvttparser.cc"], [("time", "Time::presentation, operators")])
prop("C01", "VP9 frame headers and superframes are decoded exactly",
     "For every sequence of VP9 frame headers given to one parser, the reported profile, frame type, show and error-resilience flags, refresh flags, bit depth, colour space, frame and display size, frame-parallel mode and tile rows and columns equal the values coded in the frame or, where the syntax says so, those of the frame it refers to or of the frames before it; wrong markers, reserved profiles, wrong sync codes and truncated headers are refused, and no byte outside the frame is read. A superframe index yields the exact frame ranges, a frame without one yields none, and a malformed index is refused.",
     ["inputs", "histories"], "all sequences of frame headers and all superframe indexes",
     "tests cover a few real files",
     ["common/vp9_header_parser.cc", "m2ts/vpxpes_parser.cc", "m2ts/webm2pes.cc"], [("header parser", "Vp9HeaderParser::ParseUncompressedHeader"), ("superframes", "ParseVP9SuperFrameIndex")])
prop("C02", "VP9 level statistics and level follow the level table",
     "For every sequence of frames in presentation order the reported statistics follow their definitions over the whole history: most luma samples of frames starting within one second, largest picture and breadth, bytes of any four consecutive frames, average bitrate over the set, measured or estimated duration, ratio of displayed uncompressed to compressed bits, tile columns, fewest frames between two alternate reference frames (-1 without two), and most reference slots refreshed since a key frame. The reported level is the smallest level of the VP9 table whose limits all hold (the sample rate with its grace), or unknown if none does.",
     ["histories"], "all frame sequences",
     "sliding windows over arbitrary histories",
     ["common/vp9_level_stats.cc"], [("stats", "Vp9LevelStats::AddFrame, GetLevel, GetMaxLumaSampleRate, ...")])
prop("H01", "Codec private feature data and colour metadata are interpreted exactly",
     "The VP9 codec-private feature list is decoded to the profile, level, bit depth and subsampling it encodes and every malformed list is refused; colour metadata copied from a parsed track to the muxer is equal field by field with presence preserved.",
     ["inputs"], "all codec-private strings and colour combinations",
     "value combinations",
     ["common/hdr_util.cc"], [("codec private", "ParseVpxCodecPrivate"), ("colour", "CopyColor, CopyMasteringMetadata, CopyPrimaryChromaticity")])

prop("S01", "Remuxing with mkvmuxer_sample keeps the streams and honours its options",
     "The file mkvmuxer_sample writes from a readable input is well formed and holds exactly the frames of the selected video and audio track (bytes, order, times at the output's time scale, key flags, discard paddings, laced blocks unpacked) with the track's codec, codec private data, name and video or audio settings (display and frame rate settings, colour, projection, codec delay, preroll); options that override a setting, number or select tracks, copy tags or the duration, or govern cues and their place do what they say and change nothing else; options that are invalid, and output that could not be written to the end in file mode, make it exit with a failure.",
     ["inputs"], "all readable inputs with at most one video and one audio track, and all options",
     "the product of inputs and options",
     ["mkvmuxer_sample.cc", "sample_muxer_metadata.cc", "mkvmuxer/mkvmuxer.cc"],
     [("tool", "mkvmuxer_sample.cc main"), ("frames", "Segment::AddGenericFrame"), ("colour", "CopyVideoTrack colour / projection handling in main")])
prop("S02", "WebVTT text survives muxing and extraction by the tools",
     "WebVTT files given to mkvmuxer_sample (as subtitles, captions, descriptions, metadata or chapters) come back from vttdemux as one file per track holding the same cues: identifiers, times to the millisecond, settings and payload lines, in order; files that are not WebVTT are refused; the other streams are not disturbed; and an extraction that could not be written to the end reports failure.",
     ["inputs", "crash_points"], "all sets of WebVTT files",
     "texts and the points where the output stops",
     ["vttdemux.cc", "sample_muxer_metadata.cc", "mkvmuxer_sample.cc", "webvtt/webvttparser.cc"],
     [("muxing", "SampleMuxerMetadata"), ("extraction", "vttdemux.cc WriteFiles, ProcessCluster, WriteChaptersFile")])
prop("S03", "The info tool reports what the file holds",
     "For every file the parser loads and every combination of output options, webm_info prints exactly the facts the file holds, in file order and nested as in the file: header, segment, seek entries, info, tracks with all their settings, clusters, blocks with times, key flags, encryption data and codec headers, cues, frame statistics and VP9 level; each option adds or removes exactly its own part, and the last one given for a part counts; a damaged file ends with an exit status and no memory is touched outside its buffers.",
     ["inputs", "configurations"], "all sets of files and options",
     "files of many shapes, option combinations, and damage",
     ["webm_info.cc", "common/indent.cc", "common/webm_endian.cc", "common/vp9_header_parser.cc", "common/vp9_level_stats.cc", "common/hdr_util.cc"],
     [("report", "webm_info.cc OutputTracks, OutputCluster, OutputCues, main"), ("frames", "PrintVP8Info, PrintVP9Info, PrintSubSampleEncryption")])
prop("S04", "WebVTT extraction writes exactly the cues and chapters of any file, or fails",
     "For every readable WebM file, whoever wrote it, vttdemux writes one file per WebVTT track (named after its kind, and its number where a kind occurs more than once) and one for the chapters, byte for byte: every cue block in order with its identifier, start and stop time, settings and lines of text, every chapter with its identifier, times and title; a cue or chapter that cannot be told (no text, bad characters, several titles or languages, missing times, several editions), a file without WebVTT, of another type or whose name has no extension makes it exit with a failure; a file that is cut gives a failure or exactly the cues of its first blocks, all of those in complete clusters among them; damage is contained.",
     ["inputs", "crash_points"], "all files with WebVTT tracks and chapters",
     "texts, times, track sets and cut points",
     ["vttdemux.cc", "webvtt/webvttparser.cc", "mkvparser/mkvparser.cc"],
     [("cues", "vttdemux.cc WriteCue, WriteCueTimings, WriteCuePayload"), ("chapters", "vttdemux.cc WriteChaptersFile"), ("names", "vttdemux.cc OpenFiles")])

CHECKS = {}  # property -> (technique, level, note); filled as checks are built
NA_PENDING = "check not built yet"


def check(pid, technique, note, level="model_checking"):
    CHECKS[pid] = (technique, level, note)


exec(open(os.path.join(V, "gen", "claims.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 checks/run.py --setup",
         "checks": [], "not_applicable": [],
         "notes": "All checks: TLA+ specifications under specs/ checked by TLC, bound to the code by replaying spec/generator scripts through black-box harnesses (harness/) and validating the recorded traces with TLC."}
    for p in P:
        if p["id"] in CHECKS:
            t, lv, note = CHECKS[p["id"]]
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py --property %s --tier quick" % p["id"],
                                "thorough_cmd": "python3 checks/run.py --property %s --tier thorough" % p["id"],
                                "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": lv, "level_note": note})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": NA_PENDING})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
