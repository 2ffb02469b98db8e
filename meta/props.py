PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=(over, qtext), why_tests_cant=why, anchors=(files, mech), technique=technique, note=note))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=(over, qtext), why_tests_cant=why, anchors=(files, mech), reason=reason))


P("P01", "Frame headers survive a write/parse round trip and follow RFC 6386",
  "Every key-frame or inter-frame header the encoder can write is parsed back to the same header, field by field, with the parser consuming exactly the symbols written. A header written in the syntax order, widths and probabilities of RFC 6386 section 9 / 19.2 is parsed to the values RFC 6386 assigns to its fields.",
  ["inputs"], "all values of all header fields (hundreds of optional flags, coefficient and motion-vector probability updates), key and inter frames",
  "The loopback test writes a handful of bits and one mode tree; no test writes or parses a header, and the space of optional-field combinations is exponential.",
  ["src/decoder/frame_header.hh", "src/decoder/vp8_header_structures.hh", "src/encoder/serializer.cc"],
  [("header parsers", "KeyFrameHeader/InterFrameHeader constructors taking a BoolDecoder, src/decoder/frame_header.hh"),
   ("header writers", "encode(BoolEncoder &, const KeyFrameHeader &) and siblings, src/encoder/serializer.cc")],
  "vg", "Every read of the parser is matched with the write of the writer under the same condition, all field values symbolic; equality of value graphs decides, random interpretation witnesses a difference. Static, no bound on field values; the bool coder itself is P04.")

P("P02", "Macroblock modes and motion vectors survive round trip and follow RFC 6386",
  "For every macroblock the prediction modes, segment, skip flag, reference frame and motion vectors (including split modes) that the encoder writes are the ones the decoder reads back, with the reader consuming exactly the symbols written. The decoder's mode and motion-vector syntax (trees, probabilities, contexts taken from neighbours, motion-vector prediction and candidate selection) is that of RFC 6386.",
  ["inputs"], "all symbol streams, all neighbour contexts, all probability tables, key and inter frames",
  "Existing tests encode only one intra-mode tree with one probability table; contexts, split motion vectors and predictions depend on neighbours that no test constructs.",
  ["src/decoder/macroblock.cc", "src/decoder/tree.cc", "src/decoder/modemv_data.cc", "src/encoder/serializer.cc", "src/encoder/encode_tree.cc"],
  [("mode parser", "Macroblock constructor and decode_prediction_modes, src/decoder/macroblock.cc"),
   ("mode writer", "MacroblockHeader/serialize and encode overloads, src/encoder/serializer.cc"),
   ("tree codec", "Tree constructor, src/decoder/tree.cc; encode, src/encoder/encode_tree.cc")],
  "vg", "Parser analysed over a free stream of symbolic decisions; the writer applied to the parsed macroblock must re-emit that stream, and the parsed macroblock must equal a transcription of the RFC applied to the same stream. All neighbour contexts symbolic.")

P("P03", "Residue tokens survive round trip and follow RFC 6386",
  "For every block of sixteen quantized coefficients in the codable range and every coefficient probability table, the tokens the encoder writes are parsed back to the same coefficients, with the same end position, in RFC 6386 token syntax (contexts, bands, zigzag order, extra bits, signs, blocks in the order Y2, Y, U, V). The token statistics the encoder gathers for its probability updates count exactly the decisions that writing the tokens makes.",
  ["inputs"], "all coefficient values, all block types and neighbour contexts, all probability tables",
  "No test writes or parses a coefficient token.",
  ["src/decoder/tokens.cc", "src/decoder/macroblock.cc", "src/encoder/serializer.cc", "src/encoder/encode_intra.cc"],
  [("token parser", "Block::parse_tokens, src/decoder/tokens.cc"),
   ("token writer", "Block::serialize_tokens, src/encoder/serializer.cc"),
   ("token statistics", "token branch counters used by the probability optimiser, src/encoder")],
  "vg", "Writer composed with parser over a symbolic block; parser compared with a transcription of RFC 6386 section 13 over a free symbol stream.")

P("P04", "The arithmetic coder is exact and follows RFC 6386 section 7",
  "From every reachable coder state, every probability and every bit, the arithmetic encoder followed by the arithmetic decoder returns exactly the bits that were encoded, including carries, flushing and reading past the end of the data. Each decoding step makes the decision, and moves to the state, that RFC 6386 section 7 specifies.",
  ["inputs", "histories"], "all bit sequences with all probabilities, all coder states (range, value, bit position, pending carries)",
  "The loopback tests code a few thousand random bits; carries through long runs of 0xff, rare ranges and the flush positions are sampled, not covered.",
  ["src/decoder/bool_decoder.hh", "src/encoder/bool_encoder.hh"],
  [("decoder step", "BoolDecoder::get and constructor, src/decoder/bool_decoder.hh"), ("encoder step, carry and flush", "BoolEncoder::put, add_one_to_output and finish, src/encoder/bool_encoder.hh")],
  "vg", "One step from an arbitrary state with symbolic range, value and probability, for each bit position; induction over steps is by the state invariant checked with it.")

P("P05", "The frame container survives write and parse and follows RFC 6386 section 9.1",
  "A frame assembled by the encoder is parsed to the same frame type, visibility, first partition and token partitions, byte for byte, for every partition count and every partition size the format can represent. The frame tag, start code, dimensions and partition-size table are laid out as RFC 6386 sections 9.1 and 9.5 prescribe, and macroblock rows are distributed over the token partitions the same way by writer and parser.",
  ["inputs"], "all partition sizes up to the format limits, 1, 2, 4 and 8 token partitions, key and inter frames",
  "No test serializes a whole frame; partitions beyond a few bytes, and more than one token partition, never occur.",
  ["src/decoder/uncompressed_chunk.cc", "src/encoder/serializer.cc", "src/decoder/frame.cc"],
  [("container parser", "UncompressedChunk constructor and dct_partitions, src/decoder/uncompressed_chunk.cc"), ("container writer", "make_frame and Frame::serialize, src/encoder/serializer.cc"),
   ("row to partition mapping", "Frame::parse_tokens, src/decoder/frame.cc; Frame::serialize_tokens, src/encoder/serializer.cc")],
  "vg", "Writer composed with the parser over a byte memory holding partitions of symbolic size and contents; one composition per frame type and partition count. Oversized partitions are outside the claim.")

P("P06", "Intra prediction reproduces RFC 6386 section 12 exactly",
  "Each luma, chroma and subblock intra prediction mode computes, from the already reconstructed pixels of the frame, exactly the pixel values of RFC 6386 section 12. This includes the substitute values 127 and 129 outside the top and left frame edges, the above-left pixel, and the choice of the above-right pixels for every subblock position (row above the macroblock for the right-hand column, replication in the last macroblock of a row).",
  ["inputs"], "all pixel contents, all frame sizes and macroblock positions, all 16 subblock positions, all modes",
  "Decoder output depends on every mode at every edge class; the tests that run here decode no video at all, and a sample clip visits few combinations.",
  ["src/decoder/prediction.cc", "src/decoder/vp8_raster.hh"],
  [("predictors", "VP8Raster::Block<size>::predictors and intra_predict overloads, src/decoder/prediction.cc")],
  "vg", "Every predicted pixel, as an expression over a symbolic plane, symbolic frame width and macroblock position, equals the transcription of RFC section 12. The assembly kernels are taken by their documented contract.")

P("P07", "Inter prediction reproduces RFC 6386 section 18 exactly",
  "The prediction of a 4x4, 8x8 or 16x16 block from a reference plane and a motion vector is, pixel for pixel, the six-tap interpolation of RFC 6386 section 18 at the position the motion vector denotes. Positions outside the reference frame read the nearest frame pixel, for every motion vector however far it points outside.",
  ["inputs"], "all reference contents, all motion vectors (64 fractions, inside, across and beyond every edge), all block sizes",
  "Which path is taken depends on position, fraction and distance to each of four edges; tests that run here decode no video.",
  ["src/decoder/prediction.cc", "src/decoder/vp8_raster.hh"],
  [("interpolation", "VP8Raster::Block<size>::inter_predict, safe_inter_predict, unsafe_inter_predict, src/decoder/prediction.cc"),
   ("edge extension", "EdgeExtendedRaster, src/decoder/vp8_raster.hh")],
  "vg", "Inside the frame the block position, frame size and whole part of the vector are symbolic; at the edges the source position is enumerated around and far beyond each edge of a 32x32 plane. Larger blocks check a subset of fractions in the quick tier. Assembly kernels by contract.")

P("P08", "Residue decoding: dequantization, transforms and where they apply",
  "For every frame, each macroblock's pixels are its prediction plus the inverse-transformed residue, with dequantization factors, transforms, rounding and clamping as RFC 6386 sections 9.6 and 14 prescribe. This includes the derived factors and their limits, segment quantizers limited to the table range, the Y2 path replacing each luma block's first coefficient, and every residue block being added at the position and plane it belongs to.",
  ["inputs"], "all coefficients, all quantizer indices and deltas, all segment adjustments, all prediction pixels, every macroblock and reference kind",
  "The DCT and walsh tests compare a few random blocks between two kernels; which factor, block and reference is used for which plane, and the index clamping, is never tested.",
  ["src/decoder/quantization.cc", "src/decoder/transform.cc", "src/decoder/macroblock.cc", "src/decoder/frame.cc"],
  [("factors", "Quantizer::Quantizer, src/decoder/quantization.cc; Frame::calculate_segment_quantizers, src/decoder/frame.cc"), ("transforms", "DCTCoefficients::idct_add and iwht, src/decoder/transform.cc"),
   ("macroblock reconstruction", "Macroblock::reconstruct_intra/reconstruct_inter, src/decoder/macroblock.cc; Frame::decode, src/decoder/frame.cc")],
  "vg", "Factors: symbolic indices and deltas against the format's tables. Transforms and reconstruction: all values symbolic, per prediction mode and Y2 case; frame walks on small concrete frame sizes. SIMD kernels are taken by their contract.")

P("P09", "Loop filtering: edges, order, levels and limits follow RFC 6386 section 15",
  "For every frame with the normal filter, exactly the macroblock and subblock edges RFC 6386 section 15 names are filtered, in its order, on all three planes, and subblock edges are skipped only for macroblocks without coefficients that are neither B_PRED nor SPLITMV. The filter level, interior and edge limits and high-edge-variance threshold of every macroblock are those the frame header, its segment, its reference frame and its mode prescribe.",
  ["inputs"], "all filter levels, all eight sharpness values, all segment adjustments and deltas, every reference and mode, key and inter frames",
  "No test runs the loop filter; the level computation combines five sources with three clamps.",
  ["src/decoder/loopfilter.cc", "src/decoder/frame.cc", "src/decoder/macroblock.cc"],
  [("frame walk and segment levels", "Frame::loopfilter, src/decoder/frame.cc"), ("macroblock level", "Macroblock::loopfilter, src/decoder/macroblock.cc; FilterParameters::adjust, src/decoder/loopfilter.cc"),
   ("limits and edges", "SimpleLoopFilter, NormalLoopFilter, src/decoder/loopfilter.cc")],
  "vg", "The trace of filtered edges with their limit vectors, as a value over symbolic levels, adjustments, deltas, segments and coefficient flags, on a 2x2 frame per combination of reference and mode. The pixel arithmetic inside the edge kernels is taken by contract; the simple filter is documented as unsupported.")
P("P10", "A frame changes references, probabilities and segmentation as RFC 6386 says",
  "After each frame the last, golden and alternate references, the saved token, mode and motion-vector probabilities, the segmentation parameters with their map, and the loop filter adjustments are exactly those RFC 6386 sections 9.3-9.11 prescribe for its header; a frame is filtered before it is stored or shown. Probabilities of a frame that does not refresh them apply to that frame only. Adjustments and segmentation persist from frame to frame as long as the feature stays enabled.",
  ["inputs", "histories"], "all header contents, all prior decoder states, key and inter frames, every combination of refresh, copy and sign bias fields",
  "State carries over an unbounded frame history; a wrong buffer copy or a probability kept too long shows only in streams with that combination of flags, and no test that runs here decodes more than its own frames.",
  ["src/decoder/decoder.cc", "src/decoder/frame.cc", "src/decoder/decoder_state.hh", "src/decoder/macroblock.cc"],
  [("reference updates", "Frame::copy_to, References, src/decoder/frame.cc and decoder.cc"), ("state transition", "DecoderState::parse_and_apply, ProbabilityTables, Segmentation, FilterAdjustments"),
   ("decoding steps", "Decoder::decode_frame, get_frame_output, parse_and_decode_frame")],
  "vg", "One transition from an arbitrary prior state with all header values symbolic, compared with a transcription of the RFC. By induction this covers any history. Disabling a feature and enabling it later is outside the claim.")

P("P11", "Serialized decoder state is restored exactly",
  "Deserializing a serialized decoder yields a decoder with the same dimensions, probabilities, segmentation and map, loop filter adjustments and reference pixels, consuming exactly the bytes that were written, and the returned length is the number of bytes written. This holds when the three references are the same frame, which is all the format stores.",
  ["inputs"], "all member values, segmentation and adjustments present or absent, all pixel values",
  "The serdes test samples one decoder state; a member written in the wrong order or width is restored wrongly only for some values, and optional parts are independent.",
  ["src/decoder/decoder.cc", "src/decoder/probability_tables.cc", "src/decoder/enc_state_serializer.hh"],
  [("serializers", "serialize and deserialize of Decoder, DecoderState, ProbabilityTables, Segmentation, FilterAdjustments, References"), ("byte layout", "EncoderStateSerializer, EncoderStateDeserializer")],
  "vg", "The deserializer is composed with the serializer over a byte vector with every member symbolic; frame and map sizes are small constants. Byte order and file I/O are taken as given.")

P("P12", "State equality and hashes distinguish every member",
  "Two decoder states, references, probability tables, segmentations, adjustments, hashes or frame headers compare equal exactly when all their members are equal. The decoder hash that names a state depends on every member of that state, including all pixels of the three references.",
  ["inputs"], "all member values",
  "Tests compare states that are equal; a forgotten member shows only for two states that differ in that member alone.",
  ["src/decoder/decoder.cc", "src/decoder/frame_header.hh", "src/decoder/probability_tables.cc", "src/util/raster.cc"],
  [("equality", "operator== of the state and header types"), ("hash", "hash() of the state types, BaseRaster::raw_hash, Decoder::get_hash")],
  "vg", "Each comparison is evaluated on values that differ in one member; each hash term must depend on every member. Collisions of the hash function itself are not considered; concealment is an option, not state.")
P("P13", "Datagrams and fragment reassembly deliver each frame unchanged",
  "A Salsify packet or acknowledgement that is serialized and parsed again has the same fields and payload, and a malformed datagram is refused without reading past its end. A frame is cut into packets of at most 1400 payload bytes that carry it completely, and reassembly yields the original frame for every order of arrival and any duplicates, is complete exactly when every fragment has arrived, and refuses packets of another frame or connection.",
  ["inputs", "schedules"], "all field values and payloads, all frame sizes, all arrival orders and duplications",
  "No test sends or reassembles a packet; arrival order and duplication are up to the network.",
  ["src/net/packet.cc", "src/net/packet.hh"],
  [("wire format", "Packet and AckPacket constructors and to_string"), ("fragmentation and reassembly", "FragmentedFrame constructors, add_packet, complete, frame, partial_frame")],
  "vg", "Writers composed with parsers over symbolic fields and payload sizes. Fragmentation for a set of concrete sizes around the fragment limits; reassembly as one step from an arbitrary set of received fragments, for 1 to 4 fragments. Frames have 1 to 65535 fragments.")

P("P14", "IVF files are written and read back exactly",
  "A file written by the IVF writer has the standard 32-byte header with the given fourcc, dimensions, rate and scale and the current frame count, and each appended frame follows behind a 12-byte header with its size; the reader returns the same header fields and, for every index, exactly the bytes of that frame. A file with another signature, version or header length, or too short for the frames it announces, is refused, and no frame is returned that does not lie inside the file.",
  ["inputs", "histories"], "all header values, all numbers and sizes of frames, truncation at every point",
  "The ivfcopy test copies one file; field widths, offsets beyond the first frames and truncation points are not sampled.",
  ["src/util/ivf.cc", "src/util/ivf_writer.cc"],
  [("reader", "IVF constructor and IVF::frame"), ("writer", "IVFWriter constructors, append_frame, set_expected_decoder_entry_hash")],
  "vg", "Writer: one append step from an arbitrary file state. Reader: files of up to five frames of symbolic sizes, and of symbolic total size. The mapped header page is modelled as the first bytes of the file.")

P("P15", "Byte ranges are never read outside their bounds; transfers are complete",
  "Every access through Chunk (parts, octets, little-endian values, bit fields) either lies inside the range and yields the exact value, or throws, for all offsets and lengths including those whose sum wraps. Writing a range or string to a file descriptor hands every byte to the system exactly once and in order, whatever short writes occur; an exact read returns exactly the bytes asked for or throws at end of file.",
  ["inputs", "schedules"], "all offsets, lengths and sizes up to 2^64, all sequences of short reads and writes",
  "Attacker-chosen lengths and kernel-chosen transfer sizes are outside what a test samples.",
  ["src/util/chunk.hh", "src/util/file_descriptor.hh"],
  [("byte ranges", "Chunk, src/util/chunk.hh"), ("transfers", "FileDescriptor::write, read, read_exactly, src/util/file_descriptor.hh")],
  "vg", "Chunk with modular 64-bit arithmetic and signed overflow as an error value; bit fields for a set of concrete positions. Transfers for up to three short transfers of symbolic length; the loop body is the same for more.")

P("P16", "The encoder's state is the state of a decoder that received its frames",
  "After every frame it emits, the encoder's references, saved probabilities, segmentation parameters and loop filter adjustments are those a decoder reaches by decoding that frame from the encoder's previous state; its state hash, the decoder it exports and any copy of the encoder describe that same state. Each encoding call emits exactly one frame, of the encoder's dimensions, and a key frame exactly when there is no state to build on. The bytes are written with the probabilities the decoder will read them with.",
  ["inputs", "histories"], "all frame headers, all prior states with or without segmentation and adjustments, key and inter frames",
  "Drift between encoder and decoder accumulates over a history and depends on header features a sample clip does not use; the loopback test that runs here encodes a fixed input.",
  ["src/encoder/encoder.cc", "src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc"],
  [("state update", "Encoder::write_frame, update_decoder_state, src/encoder/encoder.cc"), ("hash and export", "Encoder::minihash, export_decoder"), ("copies", "Encoder constructors and operator="),
   ("one frame per call", "Encoder::encode_with_quantizer, encode_with_minimum_ssim, encode_with_target_size")],
  "vg", "One frame from an arbitrary state, compared with the same transcription of the RFC that decides the decoder's transition. Reconstruction and serialization enter as the operations P05-P09 decide, recorded with their arguments. The segmentation map is outside the claim.")

P("P17", "The macroblocks the encoder builds mean what a decoder will read",
  "For every mode, and whatever the macroblock held before, the encoder leaves the mode, vectors, block kinds, second-order block, coefficient and skip flags in the combination a decoder derives for that mode. Vectors are those the mode implies, chroma vectors the average of the luma vectors, and reference and inter flags agree with the mode; a macroblock is marked skipped exactly when all its coefficients are zero. The residue of each block is the transform of source minus prediction in the same block, divided by the factor the decoder multiplies with.",
  ["inputs", "histories"], "all modes, all coefficients and vectors, all previous contents of the reused frame object, key and inter frames, both passes",
  "Frame objects are reused, so stale contents matter, and which mode follows which depends on the video; the tests that run here encode a fixed input.",
  ["src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc", "src/encoder/encoder.cc"],
  [("inter macroblocks", "Encoder::luma_mb_inter_predict, luma_mb_apply_inter_prediction, chroma_mb_inter_predict"), ("intra macroblocks", "Encoder::luma_mb_apply_intra_prediction, luma_sb_apply_intra_prediction, chroma_mb_apply_intra_prediction"),
   ("flags", "Macroblock::calculate_has_nonzero, InterFrameMacroblockHeader::set_reference")],
  "vg", "Symbolic previous contents, costs and search results; the modes are enumerated. The forward transforms and the trellis choice of coefficient values enter as uninterpreted functions of what they are given. Coded vector differences must stay within the search's bounds; wrap-around of 16-bit vectors is excluded.")

P("P18", "The motion search reads the reference frame extended without bound",
  "The padded copy of a reference holds, at every position up to its margin, the nearest pixel of the reference's full plane, whatever the frame's dimensions. Predicting a block from the copy gives, for every whole and fractional vector that stays in the margin, the pixels RFC 6386 predicts from the unbounded frame. Every vector the search tries stays inside the copy, and the copy used is that of the reference searched.",
  ["inputs", "histories"], "all frame sizes, all reference contents, all block positions and vectors within the margin, all search starting points",
  "A copy that is too small or wrong at one border only matters for particular frame sizes and vectors near that border; the encoder tests run one frame size that is a multiple of 16.",
  ["src/decoder/safe_raster.cc", "src/decoder/prediction.cc", "src/encoder/safe_references.cc", "src/encoder/encode_inter.cc"],
  [("padded copy", "SafeRaster, SafeRaster::copy_raster, SafeRaster::at"), ("prediction from the copy", "VP8Raster::Block::inter_predict(MotionVector, SafeRaster)"), ("copies of the references", "SafeReferences::load, SafeReferences::get"), ("search", "Encoder::diamond_search")],
  "vg", "Copies are compared for frames of 16 and 48 lines and any width. Sums of vectors that wrap 16 bits are excluded. The assembly filters enter through their transcribed contracts; at 16x16 the quick tier takes four of the two-dimensional fractions, 4x4 takes all.")

P("P19", "Frames, rasters and caches shared by threads are never corrupted",
  "Threads that decode or encode independently, or work on copies of one coder, do not disturb each other: everything the library keeps in static storage, or changes behind a const interface, is constant, owned by one thread or reached only under the mutex that protects it, and what a program's own threads share is reached only under its lock. A pooled buffer is never in two hands, has the dimensions asked for, returns to its pool once and without a cached hash. A cached hash is the hash of the raster's pixels.",
  ["schedules", "histories"], "all interleavings of threads using the library, all sequences of buffers taken and given back",
  "A data race shows only in particular interleavings, and the test suite runs everything in one thread; a recycled buffer's stale state only shows after particular histories.",
  ["src/decoder/raster_handle.cc", "src/decoder/raster_handle.hh", "src/decoder/frame_pool.cc", "src/decoder/bool_decoder.hh", "src/salsify/salsify-receiver.cc"],
  [("raster pool", "RasterPool, RasterDeleter, src/decoder/raster_handle.cc"), ("hash cache", "HashCachedRaster::hash, reset_cache"), ("frame pool", "FramePool, FrameDeleter, src/decoder/frame_pool.cc"), ("display queue", "display_task, enqueue_frame, src/salsify/salsify-receiver.cc")],
  "flow-sensitive lock-set analysis with ownership over all call sites; value graphs for the pools", "Lock sets are met over all call sites; an object no other thread can reach yet needs no lock. Concurrent use of one coder object by two threads is the caller's to prevent and outside the claim, as are the system libraries.")

P("P20", "Salsify's receiver knows which decoder states it holds and says so",
  "Whatever datagrams are lost, repeated or reordered, the receiver decodes each complete frame once, on the state the sender names if it holds it, shows an incomplete frame when a later one begins, in order, and ignores datagrams of frames already passed. It saves a state, and lists it as complete, exactly when decoding arrived at the state the sender announced; every state it lists, and the initial one, it can load, states older than the one the sender used are dropped, and newer ones are kept. Each acknowledgement names the datagram, the state the decoder is really in, and the states held.",
  ["histories", "schedules", "inputs"], "all sequences of datagrams: losses, reordering, repetition, states that recur, frames that decode to another state than announced",
  "Which state each side is in depends on the whole history of losses; no test runs the receiver, and its display cannot even be built here.",
  ["src/salsify/salsify-receiver.cc"],
  [("datagram handler", "the handler of incoming datagrams in main, src/salsify/salsify-receiver.cc"), ("display", "enqueue_frame, src/salsify/salsify-receiver.cc")],
  "abstract interpretation of the event handlers over maps, lists and tokens for states", "One datagram from every state that satisfies the invariant: up to three saved states and two frames ahead, under every pattern of equality between the states involved (the code only compares them). The fragments themselves are P13. Which picture the screen finally shows, delays and console output are outside the claim.")
P("P21", "Salsify's sender encodes from states the receiver can have",
  "Each frame sent carries the next number, the state its encoder started from and the state it reached, which becomes the receiver's assumed state and whose encoder is kept. A picture is encoded from the assumed state, or, when the receiver acknowledges a state the sender does not know and for some time after, from the last state the receiver listed as complete, or else the initial one, with valid quantizers finer and coarser than that of the last frame sent where there is room; the encoders of these states, of the acknowledged one and of all later ones are kept, and older ones dropped. The largest encoding that fits the estimated capacity is sent, otherwise nothing is and nothing changes, though after three pictures skipped the smallest is sent, and packets leave once each, in order, only when due; acknowledgements of another connection, older than the last, or of frames never sent change nothing.",
  ["histories", "schedules", "inputs"], "all sequences of pictures, finished encodings and acknowledgements, with losses, reordering and states that recur",
  "Which states are kept depends on the whole history of acknowledgements; no test runs the sender, which needs a camera.",
  ["src/salsify/salsify-sender.cc"],
  [("pictures", "the handler of new pictures in main, src/salsify/salsify-sender.cc"), ("encodings", "the handler of finished encodings in main, and do_encode_job, src/salsify/salsify-sender.cc"), ("acknowledgements", "the handler of acknowledgements in main, and ack_seq_no, src/salsify/salsify-sender.cc")],
  "abstract interpretation of the event handlers over maps, lists and tokens for states", "One event from every state with up to three states sent and two listed as complete, and four sent of which one recurs, under every pattern of equality between them; encodings and capacities from a table around the limits. Acknowledgements list states that were sent; the estimate of the capacity itself, the quantizers tried and the delays are outside the claim.")
P("P22", "Video files in YUV4MPEG form are written and read exactly",
  "Each picture is written as the frame marker and the rows of the displayed rectangle of Y, U and V in order, chroma planes of odd sizes rounded up, and reading takes exactly those bytes and returns those pixels; pixels stored beyond the displayed rectangle equal the nearest displayed one, whatever the buffer held before. A header names all dimensions, rates, interlacing and colour space, reads back as written, and is understood with its parameters in any order and comments among them. Headers without dimensions, with other chroma formats or malformed, and pictures without their marker, are refused; the end of the file ends the pictures.",
  ["inputs", "histories"], "all pixels, all earlier contents of buffers, numbers in headers up to 65535",
  "Sizes that are no multiple of 16, odd sizes, recycled buffers and the parameters other programs write are not in the one input file the tests use.",
  ["src/input/yuv4mpeg.cc", "src/util/raster.cc"],
  [("reader", "YUV4MPEGReader::YUV4MPEGReader, get_next_frame"), ("rows and columns beyond the picture", "edge_extend, edge_extend_component"), ("writer", "YUV4MPEGHeader::to_string, YUV4MPEGFrameWriter::write, BaseRaster::display_rectangle_as_planar, BaseRaster::dump")],
  "abstract interpretation over symbolic pixels, file bytes and texts with symbolic numbers", "Pictures of twelve sizes (quick; eighteen thorough) that cover odd dimensions and every relation to 16, with symbolic pixels; headers with symbolic numbers over a table of parameter orders, and literal ones. Parameters on the frame marker, more than 8 bits per sample and numbers above 65535 are outside the claim.")
P("P23", "Re-encoded chunks keep their predictions and get new residues",
  "Re-encoding writes one frame for every picture, in order: a first key frame becomes an inter frame, later key frames are kept, and every inter frame is rebuilt for its own picture from its own original, with the original's quantizer, except that the first frame's main index is the stated weighted mean. A rebuilt macroblock keeps the original's reference, modes and vectors, and its residue is taken after that prediction, each block from neighbours already rebuilt; the frame keeps the original's filter, sign biases and reference updates, but the last frame, and a key frame turned into an inter frame, replaces every reference. Lists or pictures that do not fit, and segmented key frames, are refused.",
  ["inputs", "histories"], "all chunks of up to four frames, every mode, reference and set of vectors, every earlier content of the rebuilt frame",
  "Chunks that begin with an extra frame, hold further key frames, or carry split vectors and sign biases are not in the one chunk the tests re-encode.",
  ["src/encoder/reencode.cc", "src/encoder/encoder.hh"],
  [("driver", "Encoder::reencode"), ("frames", "Encoder::update_residues, Encoder::reencode_as_interframe"), ("macroblocks", "Encoder::update_macroblock")],
  "value graphs over header fields, with the operations other properties decide kept as recorded steps", "Every sequence of key and inter frames up to four, with and without the extra frame; frames of 3x2 macroblocks; every macroblock mode over two earlier contents. How a key frame's macroblocks choose their inter predictions is P17; the written bytes are P16; segmentation of re-encoded inter frames (whose residues use the frame's base quantizer) is outside the claim.")
P("P24", "Playing and rewriting chunks: right start, right state, right order",
  "Playing a file starts at its first key frame or, resumed from a saved state, at its first frame and only when it is a VP8 file of the state's size that expects that state; each frame is decoded once, in order, and each shown picture is given once. The programs that work on chunks (xc-dump, xc-merge, xc-terminate-chunk, xc-zero-out-residues, decode-bundle, xc-enc) use a chunk only when the decoder is in the state it expects, keep the order of its frames, and write what they name: the state after the chosen frame, a last frame that replaces every reference, inter frames without residue, the frames of the two files, the entry state's hash. vp8decode writes one stream header and then each shown picture once, whether it writes to a file or to a pipe.",
  ["inputs", "histories"], "every sequence of key, inter, shown and hidden frames from a list of patterns, any expected state, any sizes, every combination of the options listed in DESIGN.md",
  "No test runs the programs on hidden frames, files that begin with inter frames, states of other sizes, or output that is a pipe.",
  ["src/decoder/player.cc", "src/frontend/", "src/input/ivf_reader.cc"],
  [("players", "FilePlayer, FramePlayer"), ("entry state", "Decoder::minihash_match, IVF::expected_decoder_minihash"), ("programs", "main of vp8decode, xc-dump, xc-merge, xc-terminate-chunk, xc-zero-out-residues, decode-bundle, xc-enc")],
  "effect logs of the programs' value graphs: guarded sequences of frames decoded, frames written and states saved, compared with the sequence the claim names", "Parsing and decoding of one frame are other properties and are recorded steps here; sequences of up to four frames; files that cannot be opened, and the meaning of numbers given as options, are outside the claim.")
P("P25", "Event loop, pacing and datagrams: each ready task once, each payload on time",
  "One round of the event loop waits, once and for the time given, for exactly the active actions whose interest test holds (reading ones only until end of file), reports Exit when there are none and Timeout when nothing happens, and otherwise runs each ready action's callback once in order of registration: a descriptor in error ends the round with failure, a callback's Exit ends it with its status, Cancel keeps the action from running again, and a callback that transfers nothing is refused. The pacer gives payloads in the order they were queued, each due the given delay after the one before it (at once when the queue is empty), and nothing is due earlier than in the same millisecond or in an empty queue. A datagram is sent whole and received whole, up to the largest possible, or refused, and each transfer is counted.",
  ["schedules", "inputs"], "every activity, interest, end of file, readiness, error and callback outcome of up to three actions sharing descriptors or not; all times, delays and sizes",
  "Which descriptors are ready, in error or at their end together, and when, is up to the system; no test runs the loop.",
  ["src/net/poller.cc", "src/net/poller.hh", "src/net/pacer.hh", "src/net/socket.cc"],
  [("event loop", "Poller::poll, Poller::add_action, Poller::Action"), ("pacer", "Pacer::ms_until_due, push, front, pop"), ("datagrams", "UDPSocket::send, sendto, recv")],
  "value graphs over symbolic readiness, interest and outcomes of each action, symbolic times, delays, sizes and flags", "The system is taken to report only events asked for, and errors. Reception times found in control messages are outside the claim; readiness of more than four actions follows the same loop but is not examined.")
P("P26", "What is held is released exactly once, and holders are never copied",
  "An Optional holds an object exactly when it says so: every way of making, copying, moving, assigning, filling, clearing and destroying one destroys the object held before, constructs the new one with the other's value when the other has one, and never constructs over or destroys an object that should not be; the other keeps its own. A descriptor is closed and a mapping removed with its own length exactly once, by the last owner; moving one hands over everything and leaves nothing to release; owners of descriptors, mappings, pictures and files in writing cannot be copied; a final action runs once unless disabled. A system call that fails and a mapping that fails are errors, and an open file's bytes are the mapping of the whole of that file.",
  ["inputs", "histories"], "every held and empty state of both sides, every descriptor including 0, every address, length and outcome",
  "Double closing, leaking and stale contents need particular sequences of empty and full objects, descriptor 0, or failures that no test provokes.",
  ["src/util/optional.hh", "src/util/file_descriptor.hh", "src/util/mmap_region.cc", "src/util/file.cc", "src/util/finally.hh", "src/util/exception.hh"],
  [("held objects", "Optional<T>: constructors, assignments, initialize, reset, clear, destructor"), ("descriptors and mappings", "FileDescriptor, MMap_Region, File"), ("owners", "UnixDomainSocket, UDPSocket, TwoD, TwoDStorage, MutableRasterHandle, IVFWriter"), ("final actions", "FinalAction"), ("errors", "SystemCall")],
  "typestates (held, empty, released) over value graphs of each constructor, assignment and destructor; compile-time witnesses", "Instantiations of Optional are judged over a sample per operation in the quick tier (four of each) and all of them in the thorough one; an Optional assigned to itself (not done anywhere) and exceptions thrown by an element's constructor are outside the claim. The pools behind picture handles are P19.")
N("N01", "The encoder reaches the quality or size asked for",
  "Encoding with a minimum SSIM yields the smallest encoding tried that reaches it, and encoding for a target size does not exceed the target when some quantizer reaches it.",
  ["inputs"], "all videos, all targets", "Whether a search over quantizers ends at the best one depends on the measured size and quality of each trial.",
  ["src/encoder/encoder.cc", "src/encoder/size_estimation.cc", "src/util/ssim.cc"],
  [("searches", "Encoder::encode_with_minimum_ssim, encode_with_target_size")],
  "The claim rests on floating-point similarity and on sizes of entropy-coded trials being monotone in the quantizer; both are runtime quantities that no sound static argument in reach bounds, and monotony is in fact false for some videos.")
N("N02", "The assembly kernels compute what the C++ code specifies",
  "Each x86 kernel called for prediction, transforms, loop filtering and error measures returns, for every input, what RFC 6386 or the portable code defines.",
  ["inputs"], "all pixel values, strides and sizes", "A saturation or lane error shows only for particular pixel values.",
  ["src/decoder/subpixel_ssse3.asm", "src/decoder/loopfilter_sse2.asm", "src/decoder/sad_sse2.asm"],
  [("kernels", "src/decoder/*.asm")],
  "The kernels are yasm sources outside the compiler's representation the analyses work on; they enter the other properties through transcribed contracts, checked at every call site. Deciding the kernels needs a symbolic executor for SSE machine code and a solver, which is another family.")
N("N03", "Salsify keeps delay low and shares the network fairly",
  "The sender's estimate of the network follows the receiver's reports, the queue at the bottleneck stays short, and delay returns to the propagation delay after congestion.",
  ["schedules", "histories"], "all networks and cross traffic", "Delay depends on the network's behaviour over time.",
  ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc"],
  [("estimate", "average of inter-arrival times in src/salsify/salsify-receiver.cc, target_size in src/salsify/salsify-sender.cc")],
  "Delay and throughput are properties of a closed loop with an unknown network in real time; the source does not determine them.")
