TECH = {
    "C08": "bounded-exhaustive enumeration of programs (bodies x layouts, macro call structures x import structures on disk); product-state exploration of the really compiled machine with the specification LTS whose nodes carry construct and call chain, every source-map entry compared on every reached pair",
    "C09": "bounded-exhaustive enumeration of routine sets; product-state exploration of the input machine LTS with the specification LTS of the really decompiled text (nodes carry their positions) and with the really recompiled machine, every source-map entry compared on every reached pair",
    "C18": "bounded-exhaustive enumeration of sources (places, spellings, layouts, pairs and nestings of Position literals); each really listed and compared with an independent reader, every delimited span really replaced by edited marks and the result really compiled",
    "C16": "bounded-exhaustive enumeration of base programs and of all their re-spellings at bounded distance (every spelling change at every token, all pairs in small programs, uniform changes); each really compiled and compared with the compile result of the base",
    "C17": "bounded-exhaustive enumeration of texts (all token and character sequences up to a length, every program of the corpus); each really lexed and the tokens compared with the text and an independent tokenizer",
    "C06": "bounded-exhaustive enumeration of well-formed routine sets (arbitrary op lists, jump targets, arities, routine tables, offset numberings); each really decompiled within a watchdog and the answer checked against the three permitted forms",
    "C10": "bounded-exhaustive enumeration of token sequences, token edits, character strings, misplaced statements, macro graphs and import graphs; each really compiled and the outcome compared with a static-semantics oracle",
    "C04": "bounded-exhaustive enumeration of parameter values and of literal spellings; each really printed by both decompilers at every place and really recompiled",
    "C07": "bounded-exhaustive enumeration of arbitrary op lists, jump targets, routine tables, opcode names and parameters; each really decompiled to SsbScript and really recompiled",
    "C02": "bounded-exhaustive enumeration of well-formed routine sets (all op lists with all jump targets, all compile results of program spaces); product-state exploration of the input machine LTS against the specification LTS of the decompiled text and the machine LTS of the recompiled ops",
    "C11": "explicit-state exploration of the process: all call histories up to the depth over an alphabet of real calls (every one in a forked process), state hashing of everything the package keeps (fixpoint: states after pairs are states after single calls), long histories over enumerated inputs, exhaustive exploration of set orders and id reuse in a controlled copy of the package",
    "C12": "stateless exploration of real threads under a controlled scheduler (fork at every scheduling point): all schedules with one switch at every executed line, all with two switches at pairs of function entries, cold parser caches; write profile of all shared state, line by line, which shows which calls are independent (partial-order argument) and adds schedules around every write",
    "C13": "bounded-exhaustive enumeration of flat programs; the really decompiled text of each is read back and its statement multiset compared with the source's",
    "C14": "exhaustive enumeration of source maps and of all partial offset mappings / operation sequences on them, compared step by step with a reference map",
    "C15": "bounded-exhaustive enumeration of programs and JSON documents run through both real CLIs; product-state exploration of the round-tripped program",
    "C01": "bounded-exhaustive enumeration of programs; product-state exploration (bisimulation) of the specification LTS against the LTS of the really compiled ops",
    "C03": "closure invariant checked on the compile result of every program of bounded-exhaustive spaces (ExplorerScript, macros, SsbScript)",
    "C05": "bounded-exhaustive enumeration of macro programs, call graphs and file layouts; product-state exploration of the inlined specification LTS against the really compiled ops",
}
NOTES = {
    "C08": "exhaustive within the bounds listed in the evidence; parameter_mapping (informational) is not judged, entries of jumps that stand for several constructs are restricted to places where structures or jumps begin",
    "C09": "exhaustive within the bounds listed in the evidence; entries of jumps that were dissolved into structures are only restricted, not required",
    "C18": "exhaustive within the bounds listed in the evidence; the sign of -0.5 is not representable and not judged",
    "C16": "exhaustive within the bounds listed in the evidence",
    "C17": "exhaustive within the bounds listed in the evidence",
    "C06": "exhaustive within the bounds listed in the evidence",
    "C10": "exhaustive within the bounds listed in the evidence; texts beyond the bounds (length, nesting) only at selected sizes",
    "C04": "exhaustive within the bounds listed in the evidence; offset 4 of a position mark means the same as 2",
    "C07": "exhaustive within the bounds listed in the evidence; names that are keywords of SsbScript have no spelling in the language",
    "C02": "exhaustive within the bounds listed in the evidence; fixed-arity operations have operands of the kinds their encoding has room for",
    "C11": "exhaustive over histories of the alphabet to the depth given in the evidence; the ANTLR caches are not part of the hashed state (their effect is covered by the executed histories); orders of sets with up to 1-2 deviations",
    "C12": "exhaustive over schedules with 1 switch (lines; bytecodes in thorough) and 2 switches (function entries) of the call alphabet; C code (igraph) is atomic as under the GIL; more switches are covered by the independence shown by the write profile",
    "C13": "exhaustive within the bounds listed in the evidence",
    "C14": "exhaustive within the bounds listed in the evidence",
    "C15": "exhaustive within the bounds listed in the evidence",
    "C01": "exhaustive within the bounds on program size, nesting, labels and forms listed in the evidence",
    "C03": "exhaustive within the bounds listed in the evidence",
    "C05": "exhaustive within the bounds listed in the evidence; capture of a callee's unbound $name by a caller's parameter is not judged (the documentation leaves it open)",
}
NA = {f"C{i:02d}": "check under construction" for i in range(1, 19)}
