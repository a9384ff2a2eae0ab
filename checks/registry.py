"""property id -> ([check functions], explanation for the evidence file)"""
from . import codec
CHECKS = {}
def reg(pid, expl, *fns): CHECKS[pid] = (list(fns), expl)

reg("P01", "Bit-provenance abstract interpretation of the integer writers composed with the integer readers: every 32-bit (64-bit) value is covered by a finite partition, in each part every output byte is an exact function of input bits, and the reader's result is compared bit by bit with the written value.", codec.P01)
reg("P02", "Same domain, with the mantissa/exponent of a weight as symbolic bit vectors and both infinities as separate cases; the integer code the weight code is built on is checked too.", codec.P02, codec.P01int)
from . import classes
reg("P08", "Dataflow over every user-written copy constructor and assignment operator (and the helpers they call): every member is taken from the same member of the source on every path, element-wise where it is an array, owned pointers get storage of their own, the old storage is released before it is overwritten, and self-assignment does nothing.", classes.P08)
reg("P15", "Definite initialisation: for every constructor, every scalar and pointer member has been given a value on every path to its end, and is not read earlier.", classes.P15)
from . import cli
reg("P12", "Disjunctive constant propagation through the main() of every tool (helpers in the tool's file, the option setters and the constructors of the engine classes inlined), once per command line of an enumerated set: the processing step reached, its files, its mode argument and the engine's settings at that moment are compared with the documented meaning of the options; the option parser and the code behind each setting are checked separately.", cli.P12)
from . import fail
reg("P11", "Path-sensitive dataflow over every tool and library function: after an error message no path returns normally; one failing open, unreadable or malformed XML file, invalid dictionary or escaping exception is assumed at a time and every path of the tool's main() must then end with a nonzero status.", fail.P11)
from . import dix
reg("P17", "Disjunctive constant propagation through procEntry() of lt-comp and lt-expand, through matchTransduction() and through lt-restrict's main(), once per combination of an entry's attributes, the direction and the selected variants; the decision reached is compared with a table of the documented selection rules.", dix.P17)
reg("P18", "Constant propagation through the code that reads each element of the dictionary format (procNode, readString, procIdentity, procTransduction, procPar, procRegexp, insertEntryTokens), once per element name, emptiness and node type; the symbols, refusals and reader position reached are compared with the documented meaning of the element.", dix.P18)
from . import fmt, uni
reg("P03", "Bit-provenance abstract interpretation of the UTF-16 encoder composed with the decoders over all characters, and of the UTF-8 input over all first bytes; type-based scan of every conversion between characters (32 bits) and UTF-16 units and of every place that takes a character.", uni.P03)
reg("P04", "The writer of each object is interpreted abstractly into a tape of primitives (integers, weights, strings, nested objects, loops with symbolic counts); the reader is interpreted against that tape, loop by loop, with loop-carried variables related by induction; what it stores is compared, as functions of the loop indices, with what the writer held.", fmt.P04)
reg("P05", "The readers are interpreted against the tape of a file without header, and against headers with every feature word that has a bit outside the known enumerators (each bit alone, with all known bits, and all of them); the feature words the writers emit are compared with the enumerators and with what follows.", fmt.P05)
reg("P06", "As for P04, with typed items: each instantiation of Serialiser<T>/Deserialiser<T> is one obligation, nested types are single items, and the classes' own serialise/deserialise are interpreted against each other.", fmt.P06)
from . import hist, nul
reg("P14", "Dataflow over every processing mode: at the end of a word (token, segment) each variable that outlives it is marked as stale, and no path of the next word reads it before it is set; members, statics, the dictionary, recycled buffers and the stream reader are covered by effect rules.", hist.P14)
reg("P07", "Dataflow with every read of the input returning NUL, end of file or another character: no path reads past a NUL, loses it or reports one that is not there; every mode writes one NUL per segment, flushes it before reading on, and has nothing of the segment left.", nul.P07)
from . import conc
reg("P10", "Effect analysis: for every place that starts a thread or an asynchronous task, what the task's function may change (through everything it calls) is compared with what other tasks and the starting thread can reach; dataflow from the start to the point where it is waited for; the operations performed with and without threads are compared.", conc.P10)
from . import weights
reg("P09", "Provenance of every transition and final state that is created: each label, target and weight is traced (through locals, containers, helpers) to the transition, final state or file record it was taken from, and the weight must come from the same ones, added where there are two; dataflow over the code that replaces final states, and over the code that runs transducers, shows that no weight is left behind.", weights.P09)
