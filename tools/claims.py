NA = {}
TECH["P19"] = ("exhaustive enumeration of byte streams, splits, faults and connection histories on the real server, checked against an independent decoder and the reference model",
  "model_checking", "Exhaustive within the stated requests, split places, corruptions and history depth, on a loopback port. A client that stays connected and silent keeps the others waiting: the property speaks of the time after its connection.")
TECH["P21"] = ("stateless exploration of all schedules of two threads up to a preemption bound on the real code (memory-access instrumented build, controlled scheduler), against all sequential orders",
  "model_checking", "Exhaustive over the stated pairs of operations, at lock operations, accesses to memory both threads use, hardware accesses and operation boundaries, up to 2 (quick) or 3 (thorough) preemptions. Sequentially consistent memory; accesses inside precompiled libraries are not scheduling points; setting a criterion state is not covered.")
TECH["P17"] = ("exhaustive enumeration of all texts up to a length over the grammar's tokens, all rule trees up to a size and all single-character edits, each executed on the real code and judged by an independent parser",
  "model_checking", "Exhaustive within the stated token alphabets and lengths; placements of blanks the documentation does not settle may be accepted or refused, but never accepted as another rule.")
TECH["P22"] = ("exhaustive enumeration of all sequences of C API calls up to a depth (valid, misused, failing), each executed on the real library and compared with a reference model of the interface and the framework",
  "model_checking", "Exhaustive over the stated call alphabets and depths. Calls the header makes undefined (null handles and names, use after unbind) are not made. A criterion value outside its type may be stored or refused; reading an unsigned value above INT32_MAX through the int32 access is not judged.")
TECH["P18"] = ("exhaustive enumeration of all value-addition sequences and criterion-state histories up to a depth on the real types and system, compared with an independent table and the reference model",
  "model_checking", "Exhaustive over the stated names, numbers and depths. Not settled and so not judged: the sign bit as a set member, empty parts between '|', an empty name in an exclusive type.")
TECH["P24"] = ("exhaustive enumeration of all interleaved histories of two real instances up to a depth, each compared with the reference model of its own part alone, and of all ordered pairs of structure descriptions alive at once",
  "model_checking", "Exhaustive over the stated systems, operations and depths; the instances are used by one thread, and share no remote port.")
TECH["P26"] = ("exhaustive enumeration of families of structure descriptions (type graphs, mapping placements, parameter kinds, one or two edits), each started on the real code and compared with an independent interpreter of descriptions",
  "model_checking", "Exhaustive over the stated families. Not settled and so only run for crashes: context keys on arrays, amendments after a lone %, repeated enumeration values, content inside a Component, hexadecimal or otherwise unusual numbers.")
TECH["P23"] = ("exhaustive enumeration of all texts up to a length over names, separators and indices as paths of every command, and of all naming histories up to a depth, on the real code, against an independent resolver and the reference model",
  "model_checking", "Exhaustive over the stated alphabets, lengths and depths. Not judged: other spellings of an index (01, +1), array elements addressed within configurations, names with surrounding blanks.")
TECH["P16"] = ("exhaustive enumeration of all configurations, structures and settings one edit (and pairs of faults in different files) away from a valid system, and of every cut of each file, under all combinations of the failure policies, each started on the real code and compared with an independent reading of the files; all dependences among three (thorough: four) plugins in every position",
  "model_checking", "Exhaustive over the stated edits, cuts and policies. Not settled and so only run for crashes: repeated sections, unusual paths (escapes, '..', URLs), unusual numbers in ServerPort.")
TECH["P25"] = ("exhaustive enumeration of families of domain descriptions (nestings, rule trees, types, element orders and factorisations, all single edits, source combinations), each compiled by the real generator and compared with an independent reading, rules in every criterion state",
  "model_checking", "Exhaustive over the stated families; the generator's main runs in a Jython kept alive, its connector and the library are the built ones. Not settled and so only run for crashes: types after a configuration of their name, groups named like a configuration inside or after them, empty operators, unusual names and options.")
TECH["P27"] = ("exhaustive enumeration of argument vectors, answers, corruptions, splits and socket failures, each run on the real remote-process against a scripted server with an independent decoder, and of command histories of a real system driven through it, against the reference model",
  "model_checking", "Exhaustive over the stated alphabets, cuts and failing calls, on the loopback. A server that stays connected and silent keeps the client waiting; name resolution is not explored.")
TECH["P28"] = ("exhaustive enumeration of families of structure descriptions, with all single edits of two of them, each started on the real code and everything every element tells of itself compared with an independent reading of the description; the domain dump in every state of a breadth-first exploration, against the reference model",
  "model_checking", "Exhaustive over the stated families and depths. Not judged: defaults of the logarithmic adaptation, whether a component without children counts among the parameters, the wording of refusals beyond the range they name.")
