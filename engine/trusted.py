"""What the verdicts rest on and the engine does not check (written into the evidence of every run)."""
BASE = [
    "z3 (back end of every obligation)",
    "the engine's semantics of the Python subset (engine/interp.py, builtins_.py, loops.py, core.py): a function is executed from its AST, read from /repo/src on every run; nothing is dropped except doc strings, annotations and warn()/log output",
    "the engine's contracts on numpy (engine/arr.py, seq.py, npm.py): trusted, numpy itself is not verified",
    "integer arithmetic is mathematical; casts of data values to narrower integer types wrap around (modelled), but counts, offsets and node indices are assumed to fit the type the format stores them in; floating-point arithmetic is treated as real arithmetic",
    "elements of index arrays are in the range the caller promises (0 <= node < number of points)",
]
FILES = [
    "file model (engine/filem.py): a file returns the bytes or text that were written to it, in order; no short reads, no concurrent writer",
    "text of a float: repr, str and formats of at least 17 digits (9 for float32) read back exactly; a format with fewer digits is an uninterpreted rounding that is the same function for every value",
    "text of a number or of a name has at least one character and no white space",
    "base64.b64decode(b64encode(x)) == x; zlib and lzma: decompress(compress(x)) == x",
    "loops of the form `while test(v): ...; v += c` end (the bounded stand-in has time limits)",
]
XML = ["XML model (engine/xmlm.py): parsing what ElementTree/lxml serialised gives the same tree; names contain no XML-special characters"]
H5 = ["h5py model (engine/h5model.py): data sets and attributes are stored faithfully, members of a group are listed in name order"]
NC = ["netCDF4 model (engine/ncmodel.py): variables are stored faithfully and listed in the order of their creation; characters are stored byte by byte"]
PER = {
    "C05": ["a format is listed at most once per extension (precondition of the deregister contract)"],
    "C07": ["frame analysis (engine/frame.py): numpy functions outside the table of mutating and aliasing functions neither modify nor return their arguments"],
    "C10": FILES + XML, "C11": FILES, "C12": FILES + XML + H5, "C13": H5 + NC, "C14": FILES, "C15": FILES, "C16": FILES[:1],
    "C17": ["reader and writer called by the command line tools are represented by their contracts (C05)"],
}


def base(prop):
    return BASE + PER.get(prop, [])
