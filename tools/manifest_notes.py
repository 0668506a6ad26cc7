"""Technique and level note per property."""
COMMON = (" Everything the library did is checked step by step against the specification by TLC (Trace). Trusts: the harness bridges between abstract values and C++ objects, "
          "the reader of JSON texts in tools/jsontext.py (cross-checked against spec/Text.tla by C22), clang and TLC. Bounded: the types of the catalogue and the values and texts explored.")
T = "TLA+ model explored by TLC; its states replayed into the library and the recorded traces validated against the specification by TLC"
NOTES = {
 "C01": (T, "Bounded-exhaustive values of about 300 parseable types from the model plus seeded larger values, written and parsed back." + COMMON),
 "C02": (T, "As C01 for all deserializable types including variants and shared graphs, through document, copied-text and in-place forms." + COMMON),
 "C03": (T, "Every value is written by all six output forms; the documents must be the same." + COMMON),
 "C04": (T, "Texts from the model (all single changes of small documents) and seeded ones are given to every read form; verdicts and objects must agree up to the documented differences." + COMMON),
 "C05": (T, "The verdict and value of every read form must be what Par/Des of the specification say, for all single changes of small documents and seeded larger ones." + COMMON),
 "C06": (T, "Boundary literals of every integer and floating-point type at every position; 8-bit types completely." + COMMON),
 "C07": (T, "All lengths around the declared one at every fixed-length place, nested in containers and classes." + COMMON),
 "C08": (T, "Subsets, orders and unknown names of class members, from the model and seeded." + COMMON),
 "C09": (T, "The reported path must be in the set of mismatches the specification computes; parse offsets must lie at the token at which Par stops." + COMMON),
 "C10": (T, "Emitted documents must be exactly the ones Emitted allows, for bounded-exhaustive and seeded larger values." + COMMON),
 "C11": (T, "Shared object graphs of the model (all sharing patterns of small values) and seeded ones; every reference must resolve to where the object was written." + COMMON),
 "C12": (T, "Documents with valid, dangling, forward and ill-typed references from the model and seeded; identity structure compared with Des." + COMMON),
 "C15": (T, "Variants with overlapping alternatives, nested and with shared pointers; the result must be that of the first alternative that accepts." + COMMON),
 "C16": (T, "Exception types, agreement of forms, untouched destinations for values with unrepresentable elements at every place and for failing reads." + COMMON),
 "C13": (T, "TLC relates a streaming automaton to the closed form for all short sequences over representative bytes; those and seeded sequences go through encoder and decoder against guard pages." + COMMON),
 "C14": (T, "TLC walks every day of years 0000 to 9999 relating the ticking calendar to the closed form; dates, seconds and malformed texts are replayed into both writers and readers." + COMMON),
 "C17": (T, "TLC explores the handler stack model (sizes, alignments, throwing constructors, exhaustion); its histories are replayed into the real stack; deep texts are parsed under AddressSanitizer." + COMMON),
 "C18": (T, "Classes of many shapes of names read with every name and near miss; the lookup table itself is built for sets of names from the model and seeded ones and queried exhaustively." + COMMON),
 "C19": (T, "The schemas the library generates are interpreted by the specification: structure, references and bounds, and conformance of every emitted document." + COMMON),
 "C20": (T, "TLC explores interleavings of operations over shared tables (with a negative control); the library runs threads under ThreadSanitizer and each result must equal the one obtained alone." + COMMON),
 "C21": (T, "Histories from a model of calls on shared objects are replayed in order; each result must be the one the specification gives to the call alone." + COMMON),
 "C22": (T, "TLC explores all short texts over several alphabets, relating a byte-by-byte machine of RFC 8259 to a recursive reader and a renderer; those texts and seeded larger ones are converted by the library and judged by the same machine, which builds the documents of input and output." + COMMON.replace("the reader of JSON texts in tools/jsontext.py (cross-checked against spec/Text.tla by C22)", "Python's conversion of decimal literals to doubles")),
}
