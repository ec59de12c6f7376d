---------------------------- MODULE WebmSchema ----------------------------
(* The element grammar of a WebM document as its consumers see it: for every   *)
(* master element its children, the field of the delivered structure each one  *)
(* fills, its kind, whether it may repeat, and the default that applies when   *)
(* the element is absent or empty.  Values are byte sequences: unsigned        *)
(* integers without leading zeros, signed integers and dates as 8-byte two's   *)
(* complement, floats as the 8 bytes of the IEEE double.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
F8000 == <<64, 191, 64, 0, 0, 0, 0, 0>>
Matroska == <<109, 97, 116, 114, 111, 115, 107, 97>>
Eng == <<101, 110, 103>>
Und == <<117, 110, 100>>
NoBlock == [track |-> 0, frames |-> 0, tc |-> 0, lacing |-> 0, visible |-> FALSE]
NoVBlock == [track |-> 0, tc |-> 0]

\* <<parent, id, field, kind, structure, repeats, default>>
Schema == {
  <<"Ebml", \h4286, "ebml_version", "uint", "-", FALSE, <<1>>>>,
  <<"Ebml", \h42F7, "ebml_read_version", "uint", "-", FALSE, <<1>>>>,
  <<"Ebml", \h42F2, "ebml_max_id_length", "uint", "-", FALSE, <<4>>>>,
  <<"Ebml", \h42F3, "ebml_max_size_length", "uint", "-", FALSE, <<8>>>>,
  <<"Ebml", \h4282, "doc_type", "str", "-", FALSE, Matroska>>,
  <<"Ebml", \h4287, "doc_type_version", "uint", "-", FALSE, <<1>>>>,
  <<"Ebml", \h4285, "doc_type_read_version", "uint", "-", FALSE, <<1>>>>,
  <<"Segment", \h114D9B74, "", "master", "SeekHead", FALSE, <<>>>>,
  <<"Segment", \h1549A966, "", "master", "Info", FALSE, <<>>>>,
  <<"Segment", \h1F43B675, "", "master", "Cluster", FALSE, <<>>>>,
  <<"Segment", \h1654AE6B, "", "master", "Tracks", FALSE, <<>>>>,
  <<"Segment", \h1C53BB6B, "", "master", "Cues", FALSE, <<>>>>,
  <<"Segment", \h1043A770, "", "master", "Chapters", FALSE, <<>>>>,
  <<"Segment", \h1254C367, "", "master", "Tags", FALSE, <<>>>>,
  <<"SeekHead", \h4DBB, "", "master", "Seek", FALSE, <<>>>>,
  <<"Seek", \h53AB, "id", "id", "-", FALSE, <<>>>>,
  <<"Seek", \h53AC, "position", "uint", "-", FALSE, <<>>>>,
  <<"Info", \h2AD7B1, "timecode_scale", "uint", "-", FALSE, <<15, 66, 64>>>>,
  <<"Info", \h4489, "duration", "float", "-", FALSE, Z8>>,
  <<"Info", \h4461, "date_utc", "date", "-", FALSE, Z8>>,
  <<"Info", \h7BA9, "title", "str", "-", FALSE, <<>>>>,
  <<"Info", \h4D80, "muxing_app", "str", "-", FALSE, <<>>>>,
  <<"Info", \h5741, "writing_app", "str", "-", FALSE, <<>>>>,
  <<"Cluster", \hE7, "timecode", "uint", "-", FALSE, <<>>>>,
  <<"Cluster", \hAB, "previous_size", "uint", "-", FALSE, <<>>>>,
  <<"Cluster", \hA3, "simple_blocks", "sblock", "-", TRUE, <<>>>>,
  <<"Cluster", \hA0, "block_groups", "master", "BlockGroup", TRUE, <<>>>>,
  <<"BlockGroup", \hA1, "block", "block", "-", FALSE, NoBlock>>,
  <<"BlockGroup", \hA2, "virtual_block", "vblock", "-", FALSE, NoVBlock>>,
  <<"BlockGroup", \h75A1, "additions", "master", "BlockAdditions", FALSE, <<>>>>,
  <<"BlockGroup", \h9B, "duration", "uint", "-", FALSE, <<>>>>,
  <<"BlockGroup", \hFB, "references", "int", "-", TRUE, Z8>>,
  <<"BlockGroup", \h75A2, "discard_padding", "int", "-", FALSE, Z8>>,
  <<"BlockGroup", \h8E, "slices", "master", "Slices", FALSE, <<>>>>,
  <<"BlockAdditions", \hA6, "block_mores", "master", "BlockMore", TRUE, <<>>>>,
  <<"BlockMore", \hEE, "id", "uint", "-", FALSE, <<1>>>>,
  <<"BlockMore", \hA5, "data", "bin", "-", FALSE, <<>>>>,
  <<"Slices", \hE8, "slices", "master", "TimeSlice", TRUE, <<>>>>,
  <<"TimeSlice", \hCC, "lace_number", "uint", "-", FALSE, <<>>>>,
  <<"Tracks", \hAE, "", "master", "TrackEntry", FALSE, <<>>>>,
  <<"TrackEntry", \hD7, "track_number", "uint", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h73C5, "track_uid", "uint", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h83, "track_type", "uint", "-", FALSE, <<>>>>,
  <<"TrackEntry", \hB9, "is_enabled", "bool", "-", FALSE, TRUE>>,
  <<"TrackEntry", \h88, "is_default", "bool", "-", FALSE, TRUE>>,
  <<"TrackEntry", \h55AA, "is_forced", "bool", "-", FALSE, FALSE>>,
  <<"TrackEntry", \h9C, "uses_lacing", "bool", "-", FALSE, TRUE>>,
  <<"TrackEntry", \h23E383, "default_duration", "uint", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h536E, "name", "str", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h22B59C, "language", "str", "-", FALSE, Eng>>,
  <<"TrackEntry", \h86, "codec_id", "str", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h63A2, "codec_private", "bin", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h258688, "codec_name", "str", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h56AA, "codec_delay", "uint", "-", FALSE, <<>>>>,
  <<"TrackEntry", \h56BB, "seek_pre_roll", "uint", "-", FALSE, <<>>>>,
  <<"TrackEntry", \hE0, "video", "master", "Video", FALSE, <<>>>>,
  <<"TrackEntry", \hE1, "audio", "master", "Audio", FALSE, <<>>>>,
  <<"TrackEntry", \h6D80, "content_encodings", "master", "ContentEncodings", FALSE, <<>>>>,
  <<"Video", \h9A, "interlaced", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h53B8, "stereo_mode", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h53C0, "alpha_mode", "uint", "-", FALSE, <<>>>>,
  <<"Video", \hB0, "pixel_width", "uint", "-", FALSE, <<>>>>,
  <<"Video", \hBA, "pixel_height", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54AA, "pixel_crop_bottom", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54BB, "pixel_crop_top", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54CC, "pixel_crop_left", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54DD, "pixel_crop_right", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54B0, "display_width", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54BA, "display_height", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54B2, "display_unit", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h54B3, "aspect_ratio_type", "uint", "-", FALSE, <<>>>>,
  <<"Video", \h2383E3, "frame_rate", "float", "-", FALSE, Z8>>,
  <<"Video", \h55B0, "colour", "master", "Colour", FALSE, <<>>>>,
  <<"Video", \h7670, "projection", "master", "Projection", FALSE, <<>>>>,
  <<"Colour", \h55B1, "matrix_coefficients", "uint", "-", FALSE, <<2>>>>,
  <<"Colour", \h55B2, "bits_per_channel", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B3, "chroma_subsampling_x", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B4, "chroma_subsampling_y", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B5, "cb_subsampling_x", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B6, "cb_subsampling_y", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B7, "chroma_siting_x", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B8, "chroma_siting_y", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55B9, "range", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55BA, "transfer_characteristics", "uint", "-", FALSE, <<2>>>>,
  <<"Colour", \h55BB, "primaries", "uint", "-", FALSE, <<2>>>>,
  <<"Colour", \h55BC, "max_cll", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55BD, "max_fall", "uint", "-", FALSE, <<>>>>,
  <<"Colour", \h55D0, "mastering_metadata", "master", "MasteringMetadata", FALSE, <<>>>>,
  <<"MasteringMetadata", \h55D1, "primary_r_chromaticity_x", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D2, "primary_r_chromaticity_y", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D3, "primary_g_chromaticity_x", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D4, "primary_g_chromaticity_y", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D5, "primary_b_chromaticity_x", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D6, "primary_b_chromaticity_y", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D7, "white_point_chromaticity_x", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D8, "white_point_chromaticity_y", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55D9, "luminance_max", "float", "-", FALSE, Z8>>,
  <<"MasteringMetadata", \h55DA, "luminance_min", "float", "-", FALSE, Z8>>,
  <<"Projection", \h7671, "type", "uint", "-", FALSE, <<>>>>,
  <<"Projection", \h7672, "projection_private", "bin", "-", FALSE, <<>>>>,
  <<"Projection", \h7673, "pose_yaw", "float", "-", FALSE, Z8>>,
  <<"Projection", \h7674, "pose_pitch", "float", "-", FALSE, Z8>>,
  <<"Projection", \h7675, "pose_roll", "float", "-", FALSE, Z8>>,
  <<"Audio", \hB5, "sampling_frequency", "float", "-", FALSE, F8000>>,
  <<"Audio", \h78B5, "output_frequency", "float", "-", FALSE, F8000>>,
  <<"Audio", \h9F, "channels", "uint", "-", FALSE, <<1>>>>,
  <<"Audio", \h6264, "bit_depth", "uint", "-", FALSE, <<>>>>,
  <<"ContentEncodings", \h6240, "encodings", "master", "ContentEncoding", TRUE, <<>>>>,
  <<"ContentEncoding", \h5031, "order", "uint", "-", FALSE, <<>>>>,
  <<"ContentEncoding", \h5032, "scope", "uint", "-", FALSE, <<1>>>>,
  <<"ContentEncoding", \h5033, "type", "uint", "-", FALSE, <<>>>>,
  <<"ContentEncoding", \h5035, "encryption", "master", "ContentEncryption", FALSE, <<>>>>,
  <<"ContentEncryption", \h47E1, "algorithm", "uint", "-", FALSE, <<>>>>,
  <<"ContentEncryption", \h47E2, "key_id", "bin", "-", FALSE, <<>>>>,
  <<"ContentEncryption", \h47E7, "aes_settings", "master", "ContentEncAesSettings", FALSE, <<>>>>,
  <<"ContentEncAesSettings", \h47E8, "aes_settings_cipher_mode", "uint", "-", FALSE, <<1>>>>,
  <<"Cues", \hBB, "", "master", "CuePoint", FALSE, <<>>>>,
  <<"CuePoint", \hB3, "time", "uint", "-", FALSE, <<>>>>,
  <<"CuePoint", \hB7, "cue_track_positions", "master", "CueTrackPositions", TRUE, <<>>>>,
  <<"CueTrackPositions", \hF7, "track", "uint", "-", FALSE, <<>>>>,
  <<"CueTrackPositions", \hF1, "cluster_position", "uint", "-", FALSE, <<>>>>,
  <<"CueTrackPositions", \hF0, "relative_position", "uint", "-", FALSE, <<>>>>,
  <<"CueTrackPositions", \hB2, "duration", "uint", "-", FALSE, <<>>>>,
  <<"CueTrackPositions", \h5378, "block_number", "uint", "-", FALSE, <<1>>>>,
  <<"Chapters", \h45B9, "", "master", "EditionEntry", FALSE, <<>>>>,
  <<"EditionEntry", \hB6, "atoms", "master", "ChapterAtom", TRUE, <<>>>>,
  <<"ChapterAtom", \h73C4, "uid", "uint", "-", FALSE, <<>>>>,
  <<"ChapterAtom", \h5654, "string_uid", "str", "-", FALSE, <<>>>>,
  <<"ChapterAtom", \h91, "time_start", "uint", "-", FALSE, <<>>>>,
  <<"ChapterAtom", \h92, "time_end", "uint", "-", FALSE, <<>>>>,
  <<"ChapterAtom", \h80, "displays", "master", "ChapterDisplay", TRUE, <<>>>>,
  <<"ChapterAtom", \hB6, "atoms", "master", "ChapterAtom", TRUE, <<>>>>,
  <<"ChapterDisplay", \h85, "string", "str", "-", FALSE, <<>>>>,
  <<"ChapterDisplay", \h437C, "languages", "str", "-", TRUE, Eng>>,
  <<"ChapterDisplay", \h437E, "countries", "str", "-", TRUE, <<>>>>,
  <<"Tags", \h7373, "", "master", "Tag", FALSE, <<>>>>,
  <<"Tag", \h63C0, "targets", "master", "Targets", FALSE, <<>>>>,
  <<"Tag", \h67C8, "tags", "master", "SimpleTag", TRUE, <<>>>>,
  <<"Targets", \h68CA, "type_value", "uint", "-", FALSE, <<50>>>>,
  <<"Targets", \h63CA, "type", "str", "-", FALSE, <<>>>>,
  <<"Targets", \h63C5, "track_uids", "uint", "-", TRUE, <<>>>>,
  <<"SimpleTag", \h45A3, "name", "str", "-", FALSE, <<>>>>,
  <<"SimpleTag", \h447A, "language", "str", "-", FALSE, Und>>,
  <<"SimpleTag", \h4484, "is_default", "bool", "-", FALSE, TRUE>>,
  <<"SimpleTag", \h4487, "string", "str", "-", FALSE, <<>>>>,
  <<"SimpleTag", \h4485, "binary", "bin", "-", FALSE, <<>>>>,
  <<"SimpleTag", \h67C8, "tags", "master", "SimpleTag", TRUE, <<>>>>
}

VoidId == \hEC
EbmlId == \h1A45DFA3
SegmentId == \h18538067
Masters == {r[1] : r \in Schema}
\* Child table: master name -> child id -> description.
Desc(r) == [field |-> r[3], kind |-> r[4], sub |-> r[5], rep |-> r[6], dflt |-> r[7]]
VoidDesc == [field |-> "", kind |-> "void", sub |-> "-", rep |-> FALSE, dflt |-> <<>>]
UnknownDesc == [field |-> "", kind |-> "unknown", sub |-> "-", rep |-> FALSE, dflt |-> <<>>]
ChildTab == TLCEval([m \in Masters |-> TLCEval([i \in {r[2] : r \in {x \in Schema : x[1] = m}} |->
                      Desc(CHOOSE r \in Schema : r[1] = m /\ r[2] = i)])])

\* Masters whose contents are collected in a structure, and those only walked through.
Walked == {"Segment", "SeekHead", "Tracks", "Cues", "Chapters", "Tags"}
\* Masters whose completion is reported to the user.
Reported == {"Ebml", "Seek", "Info", "TrackEntry", "CuePoint", "EditionEntry", "Tag", "Cluster", "BlockGroup"}

RECURSIVE DefaultOf(_)
DefaultOf(m) ==
    LET rows == {x \in Schema : x[1] = m}
        fld(f) == CHOOSE r \in rows : r[3] = f
    IN  [f \in {r[3] : r \in rows} |->
            LET r == fld(f) IN
            IF r[6] THEN (IF r[4] = "str" /\ r[7] # <<>> THEN << <<FALSE, r[7]>> >> ELSE <<>>)
            ELSE IF r[4] = "master" THEN <<FALSE, DefaultOf(r[5])>>
            ELSE <<FALSE, r[7]>>]
Defaults == TLCEval([m \in Masters \ Walked |-> TLCEval(DefaultOf(m))])

\* The masters that must be open around an element, outermost first (the first, shallowest
\* occurrence for the two recursive kinds).
Occurs(i) == {r \in Schema : r[2] = i /\ r[1] # r[5]}
Known(i) == Occurs(i) # {}
RECURSIVE PathTo(_)
PathTo(m) == IF m \in {"Ebml", "Segment"} THEN <<m>>
             ELSE LET r == CHOOSE x \in Schema : x[5] = m /\ x[1] # m IN Append(PathTo(r[1]), m)
AllIds == {r[2] : r \in Schema}
Paths == TLCEval([i \in AllIds |-> PathTo((CHOOSE r \in Occurs(i) : TRUE)[1])])
MasterIds == TLCEval([m \in Masters |-> IF m = "Ebml" THEN EbmlId ELSE IF m = "Segment" THEN SegmentId
                        ELSE (CHOOSE r \in Schema : r[5] = m)[2]])
=============================================================================
