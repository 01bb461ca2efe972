"""What each check analyses."""

CHECKS = {
    "P01": dict(
        kind="engine", level="proof",
        technique="abstract interpretation (linear-inequality domain with symbolic buffers, path-sensitive partitioning, loop fixpoints) over MIR",
        rule="Every panicking terminator of the MIR (assertions for overflow, bounds, division, shifts; explicit panics, unwrap and expect; and the panic conditions of the modelled functions of std, alloc, weezl and color_quant: slicing, copy_from_slice, split_at, insertion, capacity overflow) that is reachable from a decoding entry point is an obligation: it is discharged if the abstract state refutes the panicking condition. The entry points are called with unknown options, an unknown reader (any bytes, any split into reads, any error at any point) or unknown input slices, unknown buffers and an unknown call sequence, with overflow checks and debug assertions on.",
        note="Covers all inputs, options and call sequences of the entry points as modelled by the harness; calls are made in the order that the type system and documentation allow (any order of fill_buffer, read_into_buffer, next_frame_info and read_next_frame on a Decoder; any StreamingDecoder::update sequence).",
        entries=[
            dict(name="streaming", min=20, reach=["end", "error", "event"]),
            dict(name="streaming_vec", min=20),
            dict(name="streaming_none", min=20),
            dict(name="read_info", min=20, reach=["info", "end"]),
            dict(name="read_next_frame", min=20, reach=["end", "error", "frame", "none"]),
            dict(name="fill", min=20, reach=["end", "fill", "frame"]),
            dict(name="into", min=20, reach=["end", "frame", "into"]),
            dict(name="iter", min=20, reach=["end", "error", "frame", "none"]),
            dict(name="frame_decoder", min=20, reach=["end", "frame", "into"]),
        ],
    ),
    "P19": dict(
        kind="rules", level="other",
        technique="HIR visitor over every item and body, and the effective lint level of the crate",
        rule="Every item, function header, block and expression of the crate (after macro expansion, code derived by std derives excepted as in rustc's own lint) is visited; an unsafe block, function, trait, impl, foreign item, mutable static, link-controlling attribute or inline assembly is a violation, and so is a level of the lint unsafe_code below deny at the crate root.",
        note="Complete over the crate's own HIR for the analysed configuration (std, color_quant, raii_no_panic). Soundness of the dependencies (weezl, color_quant, std) is trusted.",
        floors=dict(bodies=100, items=100, blocks=200),
    ),
    "P20": dict(
        kind="rules", level="other",
        technique="call-graph effect analysis and information-flow analysis of hash iteration order over MIR",
        rule="(1) No function of the crate mentions (calls or passes) a function of the ambient world: time, environment, files, network, processes, threads, standard streams, random hashing state used directly, atomics and locks, type ids, addresses of values used as data; no static of the crate is mutable or has interior mutability. (2) A flow-sensitive, interprocedural taint analysis follows the iteration order of hash containers from every iteration method through locals, references, closures and calls; only a total sort or collecting into a set removes it; it must not reach a result, or memory behind a mutable parameter, of any public function.",
        note="Decides the property over all functions of the crate; dependencies (weezl, color_quant) are trusted to be deterministic.",
        floors=dict(functions=100, external_callees=60),
    ),
    "P21": dict(
        kind="witness", level="proof",
        technique="type-level witness crate: universally quantified Send/Sync/'static obligations discharged by the trait solver, with a compile-fail canary",
        rule="A crate that states, for every reader and writer type, that each public type is Send, Sync, 'static or an Error as promised is type checked against the current tree; it builds exactly if all obligations hold. A canary feature with types that are not Send or Sync must be rejected.",
        note="Complete: the trait solver decides the auto traits of the public types for all type parameters.",
    ),
    "P22": dict(
        kind="engine", level="proof",
        technique="abstract interpretation (interval and linear-equality domain with path-sensitive partitioning) over MIR",
        rule="The conversions are interpreted abstractly from an unknown byte; on every abstract path the returned member's number equals the byte, or the byte differs from every number of the format.",
        note="All 256 values of each table are covered by the abstract paths.",
        entries=[dict(name="tables", min=30, reach=["block known", "block unknown", "extension known", "extension unknown", "disposal known", "disposal unknown", "any extension known", "any extension unknown", "end"])],
    ),
}

ENC = "The encoder is called with an unknown palette and then any number of times with unknown frames (any sizes, offsets, flags, palettes and buffers), pre-encoded frames, extensions, repeat settings or raw extensions, and is then finished explicitly or dropped, over a writer that may fail at any write; the writer is a monitor automaton, analysed together with the encoder, that follows the bytes written through the grammar of the format. "
ENC_NOTE = "Complete for all inputs over each kind of call repeated any number of times after construction (the automaton is at a block boundary between calls, which is proved). Running out of memory is not a property of the input; reservations may fail at any point."
AI = "abstract interpretation (linear-inequality domain with symbolic buffers, path-sensitive partitioning, loop fixpoints) over MIR, composed with a monitor automaton"


def enc(**min_):
    r = dict(frame=["new", "frame", "image", "control", "trailer", "finished", "inner", "dropped", "rejected", "unencodable", "end"],
             pre=["new", "frame", "image", "control", "trailer", "finished", "inner", "dropped", "unencodable", "end"],
             ext=["new", "ext", "control", "netscape", "repeat", "trailer", "end"], raw=["new", "raw", "trailer", "end"])
    return [dict(name="enc_" + k, min=v, reach=r[k]) for k, v in min_.items()]


CHECKS.update({
    "P12": dict(
        kind="engine", level="proof", technique=AI,
        rule=ENC + "Every panicking terminator and every panic condition of the modelled library functions reachable from there, and from the frame constructors called within their documented preconditions, is an obligation that the abstract state has to refute.",
        note=ENC_NOTE + " Excepted: a debug assertion for a frame of zero area with a non-empty buffer (compiled out of release builds); the frame constructors and make_lzw_pre_encoded panic when out of memory; the drop panic of builds without the default feature raii_no_panic, which is documented.",
        entries=enc(frame=1000, pre=1000, ext=200, raw=100) + [dict(name="frames", min=200, reach=["palette", "indexed", "rgba", "rgb", "frame", "end"])]),
    "P13": dict(
        kind="engine", level="proof", technique=AI,
        rule=ENC + "At every byte written the automaton checks block introducers, sub-block lengths against the bytes that follow, terminators, palette sizes against the announced bits, and at every successful return that it is at a block boundary.",
        note=ENC_NOTE,
        entries=enc(frame=100, pre=100, ext=20, raw=10)),
    "P14": dict(
        kind="engine", level="proof", technique=AI,
        rule=ENC + "The fixed-size pieces (screen descriptor, image descriptor, control and repeat extension) are compared byte by byte and bit by bit with the values given to the call.",
        note=ENC_NOTE,
        entries=enc(frame=500, pre=500, ext=50, raw=10)),
    "P15": dict(
        kind="engine", level="proof", technique=AI,
        rule=ENC + "At every return of an error that is not the writer's, nothing must have been written by that call.",
        note=ENC_NOTE,
        entries=enc(frame=20, pre=10)),
    "P16": dict(
        kind="engine", level="proof", technique=AI,
        rule=ENC + "Nothing may be written after a write failed; the call must then return the error of the writer, and success only if no write failed.",
        note=ENC_NOTE,
        entries=enc(frame=1000, pre=500, ext=100, raw=100)),
    "P17": dict(
        kind="engine", level="proof", technique=AI,
        rule=ENC + "Only finishing may write a trailer; finishing or dropping an encoder attempts it exactly once, and nothing is written after it.",
        note=ENC_NOTE,
        entries=enc(frame=50, pre=50, ext=50, raw=50)),
    "P18": dict(
        kind="engine", level="proof", technique=AI,
        rule="Frames with unknown pixels, pre-encoded frames with unknown data and raw extensions are written to the monitor, which compares the payload of the sub-blocks, position by position, with the bytes it expects: the output of the LZW encoder, or the data given. At the end of the block all of it must have been seen. The input of the LZW encoder must be the whole pixel buffer, the code size announced the one used for encoding, and for an arbitrary pixel, followed through the search for the largest one, the code size must be able to represent it.",
        note="Complete for all pixel buffers and data. The LZW encoder itself (weezl) is trusted to compress its whole input.",
        entries=enc(frame=100, pre=10) + [dict(name="enc_data", min=50, reach=["data", "image", "end"]), dict(name="pre_data", min=20, reach=["end"]), dict(name="raw_data", min=10, reach=["data", "image", "end"]), dict(name="frames", min=20)]),
})
CHECKS["P13"]["entries"].append(dict(name="ext_data", min=5, reach=["data", "end"]))

_TODO = "the abstract interpretation of this part of the library is still being built; no check is registered yet"
NOT_APPLICABLE = {f"P{i:02}": _TODO for i in range(1, 27)}
NOT_APPLICABLE = {k: v for k, v in NOT_APPLICABLE.items() if k not in CHECKS}
NOT_APPLICABLE.update({
    "P25": "Round-tripping through LZW is functional correctness of the dictionary coder in the external crate weezl over unbounded data-dependent tables; no static argument in reach relates encoder and decoder dictionaries. The parts of it in this repository (completeness of image data, sub-block framing, code sizes) are P13 and P18.",
    "P26": "That an exact palette preserves colours is a relation between hash-map contents and pixels; the inverse-lookup invariant of the map is outside the abstract domains available here.",
})
