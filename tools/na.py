NA = {
 "C21": "Absence of panics needs value ranges of header-derived numbers at every index, subtraction and unwrap, through user-supplied readers and the codecs. The path engine proves many of these but leaves others open whose safety rests on relations between vectors filled in different functions, and what it cannot prove it must not report, so no sound and quiet rule results. Count validation is decided by C01, C18 and C26.",
 "C22": "Memory reserved at runtime is a function of header values; bounding every allocation by the input size needs a quantitative argument over runtime quantities (and the crate has no such bound for LZMA dictionaries and BCJ2 buffers by design), which no sound static argument in reach gives.",
 "C29": "Byte-identity of a round trip through range coder, match finders and model adaptation quantifies over all contents; no static argument in reach decides it. The structural parts are decided by C08, C09, C13, C15, C17 and C19.",
 "C31": "Step bounds depend on the progress made by runtime-valued loops in the codecs; a ranking argument for match finders, range coder and user-supplied Read/Write implementations is out of reach of a sound static analysis here.",
}
