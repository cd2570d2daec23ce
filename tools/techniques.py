# property -> (technique, level note); NA: property -> reason
S = "sampled: absence of a counterexample in the generated cases, not a proof. "
TECH.update({
 "H01": ("property-based testing: generated HAR logs vs component-wise reference", S + "URLs are assembled from parts, so the reference never re-parses them."),
 "H02": ("property-based testing: generated message lists vs reference partition", S + "The public suffix of a host is taken from the publicsuffix library."),
 "H03": ("property-based testing: generated header dictionaries vs reference filter", S),
 "H04": ("property-based testing: header sets and edited copies vs reference comparison", S),
 "H05": ("property-based testing: generated stream programs vs exact recomputation", S + "Printed numbers are compared to the decimals shown."),
 "H06": ("property-based testing: whole runs with scripted fault-injecting codecs vs reference run", S),
 "H07": ("property-based testing: the page's script run on generated TSV files against a recording stand-in for d3, the drawing read back into numbers", S + "d3 itself is not available offline; the stand-in has the documented behaviour of the functions charts use."),
 "P11": ("property-based testing: generated contents dumped by every copy and read back; traced against silent histories", S),
 "P12": ("property-based testing: generated header sets framed and read back by an independent SPDY/3 reader; loops, timer, summary and whole runs under a generated clock, under sanitizers", S),
 "C01": ("property-based testing: round trip and independent text reader", S),
 "C02": ("property-based testing: histories inflated and parsed by an independent reader", S),
 "C03": ("property-based testing: round trip of generated histories", S),
 "C04": ("property-based testing: round trip of generated histories at many table sizes", S),
 "C05": ("property-based testing: histories decoded by an independent draft decoder, plus crafted frames", S),
 "C06": ("property-based testing: round trip of generated histories under option combinations", S),
 "C07": ("property-based testing: histories decoded by an independent reader of the frames, plus crafted frames", S),
 "C08": ("property-based testing: generated strings against code words recovered from the coder", S + "The alphabet and code-book completeness are checked exhaustively."),
 "C09": ("property-based testing: round trip of generated histories under storage limits", S),
 "C10": ("property-based testing: histories read by an independent peer model, plus crafted frames", S),
 "C11": ("property-based testing: round trip of generated histories under option combinations", S),
 "C12": ("property-based testing: histories read by an independent bounded peer model, plus crafted frames", S),
 "C13": ("property-based testing: generated histories, read by independent readers of the blocks and frames", S),
 "C14": ("property-based testing: values assembled from parts vs a reference encoder that parses nothing", S),
 "C15": ("property-based testing: round trip of generated histories, independent reader and writer of the blocks", S),
 "C16": ("property-based testing: histories relayed through a scripted external process", S),
 "C17": ("property-based testing: interleaved histories of several instances vs each driven alone", S + "A metamorphic relation between runs; what a single run must give is judged by C01-C15."),
 "C18": ("property-based testing: fuzzing of decoders with structurally damaged frames of generated histories", S + "Judges that decoding ends and that other instances are unaffected, not what is made of a damaged frame."),
 "P01": ("property-based testing: generated operation programs vs a list of bits", S),
 "P02": ("property-based testing: generated frequency tables and texts vs an independent optimal-code bound and decoder", S),
 "P05": ("property-based testing: round trip of generated field sequences, layout of integers against a reference", S),
 "P06": ("property-based testing: stateful programs vs a list model of the storage", S),
 "P07": ("property-based testing: stateful programs vs the set of identifiers in use", S),
 "P03": ("property-based testing: generated operation programs vs a list of bits, under sanitizers", S + "Built from the working tree with AddressSanitizer and UBSan."),
 "P04": ("property-based testing: generated frequency tables, texts and arbitrary bits vs an independent optimal-code bound, encoder and decoder, under sanitizers", S),
 "P08": ("property-based testing: stateful histories vs an independent peer that reads the frames, under sanitizers", S + "Evicting histories with several fields per frame are held to the bound and well-formedness only."),
 "P09": ("property-based testing: generated and damaged texts vs a line-by-line reference, under sanitizers", S),
 "P10": ("property-based testing: generated observations vs exact counts", S),
})
NA = {}
