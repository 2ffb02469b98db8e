REGISTRY = {}


def reg(prop, mod, fn, rule):
    REGISTRY[prop] = (mod, fn, rule)


reg("P01", "headers", "check", "composition of the header writer with the header parser over an ordered channel of guarded symbols; value-graph equality of every parsed field with the written field")
reg("P02", "mbsyntax", "check", "macroblock parser over a free symbol stream, writer re-emits it; parser against an RFC 6386 transcription by value-graph equality; tree and motion-vector codecs composed symbol by symbol")
reg("P03", "tokens", "check", "token writer composed with token parser over a symbolic block of sixteen coefficients; token parser against an RFC 6386 transcription; token statistics against the written symbols")
reg("P04", "boolcoder", "check", "one coding step from an arbitrary reachable coder state, by value graphs: the decoder step equals the RFC step, the encoder step advances the integer its state denotes as the RFC does")
reg("P05", "container", "check", "frame writer composed with the frame parser over symbolic partition sizes and contents")
reg("P06", "pixels", "check_intra", "intra prediction of a block at every position class and mode, against an RFC 6386 transcription, pixel by pixel, by value graphs over a plane of symbolic pixels and symbolic width")
reg("P07", "pixels", "check_inter", "inter prediction of a block for every fractional motion vector, inside the frame with symbolic position and size, and for source positions straddling every frame edge, against an RFC 6386 transcription, pixel by pixel")
reg("P08", "recon", "check", "dequantization, inverse-transform placement and macroblock reconstruction: the value of every 4x4 block as a term over predictions and residues, and the quantizer factors, against RFC 6386")
reg("P09", "loopfilter", "check", "the sequence of filtered edges of every plane of a 2x2-macroblock frame (position, direction, limits, thresholds) as a term over header, segment and delta values, against RFC 6386 sections 9.6 and 15")
reg("P10", "state", "check", "effect of a frame header on references, probabilities, segmentation and filter adjustments, and the composition of the decoding steps, as value graphs against a transcription of RFC 6386")
reg("P11", "identity", "check_serial", "serializer composed with deserializer over a byte vector, every state member symbolic; value-graph equality of the restored state with the original")
reg("P12", "identity", "check_identity", "equality evaluated on values differing in one member must compare that member; the hash term must depend on every member")
reg("P13", "wire", "check_packets", "datagram writers composed with their parsers over symbolic fields; fragmenting and reassembly as value graphs over an arbitrary set of received fragments")
reg("P14", "wire", "check_ivf", "IVF writer and reader as value graphs over symbolic header fields, frame counts and sizes, against the file layout")
reg("P15", "bytesafe", "check", "chunk accessors as value graphs with machine arithmetic against exact bounds; file descriptor transfers over symbolic short reads and writes")
reg("P16", "encsync", "check", "writing a frame as a value graph from an arbitrary encoder state: recorded decoder state, references and coding tables against a transcription of what RFC 6386 makes the receiving decoder do")
reg("P17", "encframe", "check", "what the encoder leaves in a macroblock for every mode, from arbitrary previous contents, as value graphs against what the decoder reads back for that mode; residue terms against source, prediction and quantizer factors")
reg("P18", "saferaster", "check", "every cell of the padded copy and every prediction from it as value graphs over a plane of symbolic pixels and symbolic width, against RFC 6386 prediction from the frame extended without bound")
reg("P19", "pools", "check", "lock sets, flow-sensitive within a function and met over its call sites, for every member of a class with a mutex and every program variable a lock protects; inventory of static storage; recycling of buffers as value graphs")
reg("P20", "salsify", "check", "one datagram handled by Salsify's receiver from every abstract state (which state hashes are equal, what is stored, what has arrived), by abstract interpretation of the handler over maps, lists and state tokens, against the protocol's invariant")
reg("P21", "salsify", "check_sender", "one event (picture, finished encoding, acknowledgement) handled by Salsify's sender from every abstract state, by abstract interpretation of the handlers over maps, lists and state tokens, against the protocol's invariant")
reg("P22", "y4m", "check", "YUV4MPEG reader and writer as value graphs over a file of symbolic bytes and planes of symbolic pixels, and over header texts with symbolic numbers, against the file format")
reg("P23", "reenc", "check", "the re-encoding driver over every sequence of key and inter frames up to four, as value graphs over header fields; the frame and macroblock updates as value graphs against the original frame's predictions")
reg("P24", "playing", "check", "the file player and the programs that pass over a file, abstractly interpreted over files of every short pattern of key, inter, shown and hidden frames: the sequence of frames decoded, state by state, against the file; programs only after their entry state is checked")
reg("P25", "events", "check", "one round of the event loop, the pacer and datagram transfers as value graphs over symbolic readiness, interest, outcomes, times and sizes, against the loop's contract")
reg("P26", "owners", "check", "typestates of held objects, descriptors, mappings and final actions over value graphs of every constructor, assignment and destructor; compile-time witnesses that owners cannot be copied")
