"""What each check runs: workload modules of mon/, sanitizer build, number of cases per tier."""
BUDGET = {"quick": 300, "thorough": 780}     # seconds of workload after the build; a cap, not a target
PLAN = {}


def P(prop, technique, note, rule, *runs, cover="cover"):
    PLAN[prop] = {"technique": technique, "note": note, "rule": rule, "runs": list(runs), "cover": cover}


def M(module, quick, thorough, san="asan", **kw):
    d = {"module": module, "quick": quick, "thorough": thorough, "san": san}
    d.update(kw)
    return d


P("P01", "online shadow-state monitor over random multi-variant histories, under ASan/UBSan",
  "seeded random histories of writes, clones, removals and selections over generated networks; after every step the full observable state of every variant is compared with its shadow",
  "distinct final states (number of observed values x set of variants) of the histories",
  M("variants_isolated", 240, 2400))
P("P02", "model-based trace monitor of the variant manager, under ASan/UBSan",
  "seeded random histories of variant operations with hostile arguments; names, working variant and stored values compared with a map model after every call",
  "distinct sequences of operation outcomes",
  M("variant_manager", 800, 12000))
P("P04", "online monitor of the index and of every enumeration against a recount, under ASan/UBSan",
  "seeded random histories of creations, refused creations, removals, alias changes and reuse of names; after every step every name ever used is looked up and every typed enumeration is recounted from the containers",
  "distinct histories (names ever used and operation kinds)",
  M("index", 400, 5000), M("unique_ids", 500, 6000))
P("P05", "state-diff monitor around refused calls, under ASan/UBSan",
  "each operation of the API is run with one argument replaced by an unacceptable one, then with valid arguments; the full state of every variant and the index are compared before and after each refusal",
  "distinct (operation or attribute, refused argument) pairs",
  M("refusals", 700, 9000), M("never", 250, 3000))
P("P06", "online invariant monitor of the domain rules in every variant, under ASan/UBSan",
  "seeded random creations, setter calls with boundary and exotic values, variants and removals; after every step the rules are evaluated on every object in every variant, accepted values are read back, verdicts are compared with the rule table",
  "distinct (attribute, verdict) pairs exercised",
  M("rules", 6000, 60000), M("one_regulating", 400, 8000))
P("P07", "reference-model monitor of the bus views (union-find over nodes, switches and buses), under ASan/UBSan",
  "seeded random histories of topology changes in several variants with partially warmed caches; computed buses, memberships, equipment and lookups compared with a reference computed from nodes and switches",
  "distinct topology shapes judged",
  M("views", 1600, 20000))
P("P09", "reference-model monitor of connected and synchronous components, under ASan/UBSan",
  "same histories as P07; component numbers, sizes, order and members compared with reference components",
  "distinct topology shapes judged",
  M("components", 2400, 30000))
P("P10", "state-diff monitor of removals, under ASan/UBSan",
  "removal of every kind of object from generated networks with extensions, regulations, aliases and variants: removed set, unrelated changes, leftovers in dumps, exports and views, reuse of names and nodes",
  "distinct (operation, sizes) removals judged",
  M("removals", 700, 9000))
P("P08", "trace monitor of connect and disconnect against an independent path search, under ASan/UBSan",
  "random switch graphs (breakers, disconnectors, load break switches, internal connections, loops, parallel edges) and bus/breaker levels in several variants; every call judged on its result, the switches it operated and everything else in every variant",
  "distinct (operation, outcome, distance, switches operated, graph size) observations",
  M("connect", 700, 7000))
P("P11", "round-trip monitor: full state before export, after export and after import, byte comparison of successive exports, under ASan/UBSan",
  "generated networks in any variant with exotic values, names, extensions and topologies, written to memory or files and read back; full state compared attribute by attribute; the export itself must not change the network",
  "distinct exported documents",
  M("roundtrip", 2400, 30000), M("samples", 180, 2000))
P("P12", "round-trip monitor over older versions, coarser topologies and export options, under ASan/UBSan",
  "generated networks exported in every format version (refusing or logging), at every topology level and with flows or extensions left out, read back; every difference must be one the version, the level or the option accounts for",
  "distinct (version, mode, features used, size) and distinct coarser documents",
  M("versions", 3000, 30000), M("levels", 1500, 15000), M("options", 1500, 15000))
P("P13", "leak scanner and mapping monitor over anonymised exports, under ASan/UBSan",
  "networks whose identifiers, names, aliases, operators and tags all carry a marker, exported anonymised in every version and level: marker search, token by token comparison with the plain export, mapping one-to-one, restoration, incomplete mappings; model-based histories of the anonymizer itself",
  "distinct anonymised documents and anonymizer histories",
  M("anonymised", 3000, 30000), M("anonymizer", 400, 4000))
P("P16", "online equation monitor in extended precision over computed flows, currents and balances, under ASan/UBSan",
  "random branches, taps, states and topologies: the other side's state from Kirchhoff's laws with propagated error bounds, forward and back; terminal currents, dangling line boundaries, star points of transformers and bus balances against sums over their terminals, through tap, variant and topology changes",
  "distinct (kind of branch, shape of parameters and state) observations",
  M("equations", 20000, 200000), M("derived", 6000, 60000))
P("P17", "online monitor of limits, overloads and violations against a recount from the shadow of the limits, under ASan/UBSan",
  "random limits of all kinds added, replaced, edited and removed on branches and sides while flows and voltages vary; every lookup, overload, duration and violation recomputed from a shadow; the sets of limits of every holder (sides of branches, dangling lines, legs) compared with a model after every definition, refusal, edit and removal",
  "distinct (limits, flow position, answer) observations",
  M("limits", 10000, 110000), M("limit_sets", 1500, 15000))
P("P18", "model-based monitor of reactive limits, tap changers and shunt models, under ASan/UBSan",
  "random curves, min/max limits, tap changers and shunt models replaced and edited in several variants; every value over every step, section and active power compared with a shadow model",
  "distinct sequences of models and edits",
  M("characteristics", 3000, 30000))
P("P19", "model-based monitor of the graph and of the component computation, under ASan/UBSan",
  "random multigraphs edited by random histories (vertices and edges added, removed and reused, loops, parallel edges, isolated vertices, hostile arguments) compared after every step with a model; paths, traversals and components compared with an independent search",
  "distinct graph shapes judged",
  M("multigraph", 4000, 60000), M("graph_components", 2000, 20000))
P("P15", "model-based monitor of attached extensions in every variant, and through the format, under ASan/UBSan",
  "random histories of extension creations (valid and refused), replacements, edits, removals, variant operations and removals of owners or of referenced equipment; after each step every object is asked for its extensions by enumeration, by type and by name, and every value in every variant is compared; exports with chosen extension versions read back; lists of measurements, feeders, merged nodes and slack terminals driven through all their operations and compared with a model",
  "distinct histories, and distinct sets of versions and extensions exported",
  M("extensions", 700, 9000), M("ext_versions", 1000, 15000), M("ext_lists", 400, 6000), M("ext_parts", 400, 6000), M("ext_slack", 500, 8000), M("ext_refusals", 60, 1500))
P("P20", "trace monitor of traversals and visitors against an independent search, under ASan/UBSan",
  "random networks and topology histories; traversals from random terminals and nodes with random stopping choices, visitors on every level and bus, terminal searches; the sequence of callbacks is recorded and compared with what a search over nodes, switches, buses and terminals reaches",
  "distinct (reached, stopped, switches, levels) traversals and distinct visited sets",
  M("traversals", 1600, 16000))
P("P14", "mutation fuzzing of documents under ASan/UBSan with acceptance oracles and an allocation-growth monitor",
  "documents written from random networks in every format version, altered one to six times (bytes, values, attributes and elements removed, doubled, moved, renamed, borrowed from another document, versions, truncations) and byte strings which are no documents; what is refused must be refused by an exception and hold no memory; what is accepted must be a sane network (references, rules, views, components, index), exportable and readable to the same values",
  "distinct (alteration, outcome) pairs",
  M("mutations", 1000, 12000), M("garbage", 600, 6000))
P("P03", "trace comparison of threads with the same work done alone, under ThreadSanitizer",
  "two to five threads, each in a variant of its own of a generated network, write, switch, connect, query views and components, traverse and export with random pauses; each thread's transcript is compared with the transcript of the same work done alone, the other variants and the shared state with their values before; selections, removals and unset variants are compared with a model; the race detector watches every access",
  "distinct (threads, network, interleaving) runs",
  M("own_variants", 500, 6000, san="tsan"), M("selections", 4000, 40000, san="tsan"))
P("P21", "twin-trace monitor of networks which are moved or have neighbours, under ASan/UBSan",
  "the same random history is run on two networks, one of which is moved to new owners at random points, then on networks alone and interleaved with others; every answer, value in every variant and address is compared, and stale references surface under the sanitizers",
  "distinct moves (way, content, variants) and neighbourhoods",
  M("handover", 400, 5000), M("coexist", 400, 5000))
P("P22", "valgrind memcheck on random histories, trace comparison across processes with different memory contents, locales and layouts, and an allocation-balance monitor",
  "random histories of all kinds of operations, exports and imports run under memcheck (uninitialised values, freed or foreign memory); the same histories in child processes with different fill patterns, layouts, time zones and locales must give the same transcripts; repeated histories must return all their memory",
  "distinct histories",
  M("history", 72, 700, san="plain", wrap="valgrind"), M("processes", 160, 1800), M("leaks", 320, 3000))
P("P23", "round-trip and refusal monitors over text forms, with a hostile global locale, under ASan/UBSan",
  "random numbers of every magnitude and bit pattern, random XML trees with special and long texts, every name of every enumeration, random dates in random zones, random property sets and options; what is written must read back equal, what is malformed must be refused",
  "distinct texts, names, malformed forms and options",
  M("numbers", 1200, 20000), M("streams", 3000, 40000), M("names", 400, 4000), M("dates", 2500, 30000), M("parameters", 2500, 30000))
P("P24", "ThreadSanitizer over concurrent readers of one network and over threads with networks of their own, with trace comparison",
  "two to five threads query, dump, traverse and export the same generated network, and threads build, edit, export and import networks of their own; each transcript is compared with the one of the same work done alone",
  "distinct (network, threads) runs",
  M("readers", 500, 6000, san="tsan"), M("independent", 300, 3500, san="tsan"))
P("P25", "twin-trace monitor with and without loggers, model-based monitor of the loggers, under ASan/UBSan and ThreadSanitizer",
  "random histories run without loggers then with loggers at random levels must give the same transcript and network; random sequences of installing, removing, looking up and using loggers are compared with a model, from one thread and from several under the race detector",
  "distinct (level, kind of lookup, history) observations",
  M("observers", 500, 6000), M("loggers", 800, 10000), M("log_threads", 3000, 30000, san="tsan"))
P("P26", "fault injection on files and streams with outcome and state monitors, under ASan/UBSan",
  "random networks are exported to streams which take only a part of the document (short writes, throwing devices, streams with exceptions enabled, already failed ones), to files which may not grow (documents and anonymisation mappings), to places which cannot be written; imported from sources which come by pieces, end early or break, and with unreadable mappings; an outcome which is not an exception must have moved every byte, and the network, its next export and the open files are compared",
  "distinct (kind of device, point of failure, outcome) observations",
  M("failing_streams", 300, 4000))

P("P27", "differential monitor over rewritten documents, under ASan/UBSan",
  "documents exported from random networks are written again with the same content and another lexical form (order of the attributes, quotes, references, blanks, comments, instructions, CDATA sections, empty elements, ends of lines, byte order mark, prefix of the namespace) and imported; the networks read must be equal to the one read from the document as exported, in every variant",
  "distinct (form, size of the document) observations",
  M("lexical", 300, 4000))

P("P28", "invariant monitor and reference model over loaded libraries, under ASan/UBSan",
  "directories of generated libraries (copies of one library whose serializers are named after its file, with links, subdirectories, files which are no library, libraries without entry point, names already taken, factories which throw) are loaded in random orders, again and through other paths; the providers found and listed must be the ones of the model, and extensions must travel through the library expected",
  "distinct (contents of the directory, pattern, outcome) observations",
  M("providers", 160, 2000))
