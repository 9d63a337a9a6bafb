prop("C01", "Reconfiguring an element equals rebuilding it",
     "After a successful in-place reconfigure of one element, that element behaves exactly like one built afresh from the new "
     "configuration: nothing computed from, or stored by, its former configuration influences it any more. Its index in the machine "
     "and its attached observer are kept. A reconfigure that would change the element's type, or whose configuration is rejected, "
     "fails and leaves the element as it was.",
     ["inputs", "histories", "configurations"],
     "every element type of every simulation type, every pair of old and new configurations, every history before the call",
     "tests reconfigure a few parameters of a few element types; a member forgotten in one type's copy shows only for that parameter of that type",
     ["src/base.cpp", "src/moment.cpp", "src/linear.cpp", "src/flame/rf_cavity.h", "src/chg_stripper.cpp", "src/flame/base.h"],
     [("Machine::reconfigure builds a replacement and copies it over", "src/base.cpp"), ("assign() of every element class", "src/moment.cpp, src/linear.cpp, src/flame/rf_cavity.h, src/chg_stripper.cpp")],
     technique="value-flow abstract interpretation of the reconfigure path per element class, with exposed-read analysis for uncopied members",
     note="Decides, for every element class the factory can build, that each member equals the replacement's afterwards or is never "
          "read before being rewritten. Trusts the library containers' assignment to copy values.")

prop("C02", "Copying a beam state carries everything, and only that",
     "A clone of a beam state, and the target of an assignment from another state of the same simulation type, holds the same value as its "
     "source in every simulation quantity; the source is unchanged. Assignment keeps the target's place in the lattice, its travel "
     "direction and its script wrapper, and a clone has no script wrapper. Assigning from a state of another simulation type fails and changes nothing.",
     ["inputs", "histories"],
     "every state type and every content a state can have",
     "tests clone a freshly allocated state and compare one or two arrays; a forgotten member shows only when it differs from its default",
     ["src/base.cpp", "src/linear.cpp", "src/moment.cpp", "src/flame/moment.h", "src/flame/state/matrix.h", "src/flame/state/vector.h"],
     [("clone constructors and assign() of each state class", "src/moment.cpp, src/linear.cpp, src/base.cpp")],
     technique="value-flow abstract interpretation of clone() and assign() per state class, compared member by member",
     note="Every member of every concrete state class, on every path. Trusts library container copies.")

prop("C03", "State introspection describes the real storage of each quantity",
     "Enumerating a state's parameters by index from zero yields a fixed, contiguous list of uniquely named entries, the same for every state "
     "of a simulation type. Each entry is completely filled in, points at the first element of the quantity its name denotes inside that state, and gives that "
     "quantity's own element type, number of dimensions, extents and strides; no two names share storage. Enumeration does not change the state.",
     ["inputs", "histories"],
     "every index and every state content (any number of charge states)",
     "scripts read a handful of attributes with one charge state, where a wrong stride or extent is invisible",
     ["src/moment.cpp", "src/linear.cpp", "src/base.cpp", "src/flame/base.h"],
     [("getArray() of each state class falls through to its base", "src/moment.cpp, src/linear.cpp, src/base.cpp")],
     technique="per-index constant propagation through getArray, descriptor compared with the declared storage",
     note="Every index of every state class; extents and strides compared with the type-resolved container behind the pointer. Assumes charge-state vectors of one state have equal length and phase-space containers have their fixed dimension.")

prop("C04", "Configurations are values: changing one never changes another",
     "A configuration copied, assigned, passed on or derived as an inner scope from another is independent of it: no operation on one "
     "configuration changes any parameter that another configuration delivers, whichever way the two were made from each other and whatever storage they share internally. "
     "No operation hands out writable access to storage that another configuration may share.",
     ["inputs", "histories"],
     "every sequence of copies, assignments, scopes and updates over any number of configurations",
     "sharing is invisible unless two particular configurations share a map at the moment of an update; tests exercise a few pairs",
     ["src/config.cpp", "src/flame/config.h"],
     [("copy-on-write parameter maps", "Config::_cow in src/config.cpp")],
     technique="ownership analysis by abstract interpretation: every map write in Config must be to a map provably held by this configuration alone",
     note="Every method of Config on every path. Not concurrent use of one configuration object; std::map and shared_ptr trusted.")

prop("C05", "Configuration lookup and scoping follow the documented rules",
     "Looking up a parameter delivers the value in the innermost scope that defines it, and nothing else: inner names hide outer ones in every way "
     "of nesting (new inner scope, pushed scope, flattened scope). A missing name raises key_error; a typed lookup of a value of another type raises "
     "key_error too; lookup with a default never raises and gives the default exactly in those two cases; a try-lookup reports false exactly "
     "in those cases and then leaves the caller's variable as it was. Storing sets exactly the named parameter of the inner scope. Lookups change no parameter.",
     ["inputs", "histories"],
     "every content of inner and outer scope, every name, every stored and requested type",
     "tests look up a few names of the right type; the wrong-type and twice-nested cases are rarely met",
     ["src/config.cpp", "src/flame/config.h"],
     [("Config accessors", "src/config.cpp, src/flame/config.h"), ("new_scope/push_scope/flatten", "src/config.cpp")],
     technique="symbolic abstract interpretation of each accessor; every path judged in every presence/type scenario it allows",
     note="All instantiations used in the tree. Maps and variants modelled by their documented behaviour.")

prop("C06", "Machines in different threads do not interfere or deadlock",
     "Threads that each build, use and destroy machines and states of their own, log, register loggers and types, or fetch data files, need no "
     "coordination: every table shared by the whole process is read and changed only under its own lock, nothing in it is handed out to be used "
     "after the lock is gone unless it can no longer change, no lock is taken twice by one thread or in conflicting orders, every lock is given back on every "
     "way out, and no user-supplied logger runs while one of the library's locks is held.",
     ["inputs", "schedules", "histories"],
     "every interleaving of any number of threads using objects of their own",
     "a test samples one schedule; a missing lock or a log message on a rare path under a lock shows only in a particular interleaving or on that path",
     ["src/base.cpp", "src/util.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp", "src/config.cpp", "src/glps_parser.cpp"],
     [("registry, logger and cache locks", "src/base.cpp, src/util.cpp"), ("curve and cavity file tables", "src/moment_sup.cpp, src/rf_cavity.cpp")],
     technique="lockset and lock-order analysis over the call graph, with escape and callback rules",
     note="Every function of the library. One object shared between threads is the caller's responsibility. The log level is a setting the library itself never writes.")

prop("C07", "Propagation visits exactly the requested elements, once each, in order",
     "Propagating a state from a start index with a signed limit visits the element at the start index first and goes on one element at a time, upwards for "
     "a limit of zero or more and downwards for a negative one, until the state's next-element index lies outside the machine or as many elements as the limit's magnitude were visited; "
     "it never touches anything outside the machine, and a start outside it visits nothing. During each visit the state already names the following element and the direction of travel. "
     "Each visited element advances the state exactly once, and after that its own observer, if it has one, sees that element and state exactly once. Tracing changes none of this.",
     ["inputs", "histories"],
     "every machine size, start index, limit and set of observers, and every next-element index an element may leave behind",
     "tests run a few ranges over small lattices; backward runs with observers or tracing at the ends are not met",
     ["src/base.cpp", "src/flame/base.h"],
     [("Machine::propagate", "src/base.cpp")],
     technique="typestate monitor over an abstract interpretation of propagate, with linear facts for bounds and counts",
     note="All paths for both directions with symbolic size, start and limit; the count limit exactly for the first four visits, every other rule for any number of visits. The limit INT_MIN, whose magnitude is not an int, is left out.")

prop("C08", "What an element remembers from earlier passes never shows",
     "Moment-matrix elements keep the results of their last pass to save work. A pass of a beam state through an element gives what a freshly built element would give, whatever "
     "states went through the element before, in whatever direction and order, with however many charge states, and whether or not those passes failed: results are reused only if the arriving reference and every charge state "
     "(energy, rest energy, charge, weight, phase, frequency) were compared with those the results were computed from and found the same, and nothing else of an earlier beam may show. The one exception, going backward "
     "through an RF cavity, is refused unless the beam matches what the last forward pass left.",
     ["inputs", "histories"],
     "every sequence of passes, directions, beam states and failures",
     "tests push one beam through once or repeat the same beam; a stale result needs two beams that differ in just the field not compared, another number of charge states, or a failure in between",
     ["src/moment.cpp", "src/flame/moment.h", "src/flame/rf_cavity.h"],
     [("check_cache, operator==(Particle)", "src/moment.cpp, src/flame/moment.h"), ("advance() of the moment elements", "src/moment.cpp, src/flame/rf_cavity.h")],
     technique="two-pass dependency analysis by abstract interpretation: what the second pass leaves may depend on the first only through quantities compared equal on the path",
     note="Every moment element class, both directions, every outcome of the first pass, two charge states (and one or three in the second pass). Loading cavity files is taken as a function of the configuration.")

prop("C09", "A pass through an element leaves a complete and consistent state",
     "Whenever propagation through an element succeeds, in either direction and for any number of charge states, the state has moved by the element's length in the direction of travel (a source sets it anew, a stripper has no length); "
     "total energy, velocity, rigidity and wave number of the reference and of every charge state agree with their energy, mass and frequency; the bunch averages (centroid, rms, envelope matrix) agree with the charge states as they are afterwards; "
     "and every charge state was treated like the others, from its own data and not another's. An element that cannot go backward says so.",
     ["inputs"],
     "every state, element configuration, direction and number of charge states",
     "tests follow the forward numbers of a few lattices, mostly with one charge state; a stale average or a mixed-up charge state in one branch of one element shows only there",
     ["src/moment.cpp", "src/flame/moment.h", "src/flame/rf_cavity.h", "src/flame/linear.h", "src/linear.cpp", "src/chg_stripper.cpp"],
     [("advance() of every element class", "src/moment.cpp, src/flame/rf_cavity.h, src/flame/linear.h"), ("recalc and calc_rms", "src/flame/moment.h, src/moment.cpp")],
     technique="abstract interpretation of advance(): deriving the dependent quantities again must be the identity on the result; dependency symmetry between charge states",
     note="Every element class and outcome, one to three charge states. Not the numbers themselves. The redistribution a stripper makes is outside the symmetry rules.")

prop("C10", "A wrong call from Python ends as a Python exception",
     "Whatever arguments, objects or values Python code passes to the module, and whatever fails on the way (a conversion, memory, an iterator, the library behind), the call either succeeds or "
     "raises a Python exception: no C++ exception and no NULL or foreign object gets past the boundary, failure is never reported without an exception nor a result with one pending, numbers are not silently cut off, element "
     "indices are refused unless they name an element, an array is copied into a state attribute only after its shape was found equal to the attribute's, and an assignment that fails changes nothing. "
     "An error in a Python log handler does not end the process.",
     ["inputs", "failures"],
     "every argument and object, and every API call failing or not",
     "tests make mostly correct calls; the failing second call on some path, or the object of a wrong type, is not met",
     ["python/flame/modmachine.cpp", "python/flame/modstate.cpp", "python/flame/modconfig.cpp", "python/flame/modmain.cpp", "python/flame/pyflame.h"],
     [("every method, slot and callback", "python/flame/*.cpp")],
     technique="typestate abstract interpretation of every entry point with each Python API call split into success and failure",
     note="Every function in a method table or type slot, and every library callback, on all paths with each call able to fail. numpy and CPython behave as documented. Re-entry of the same object from Python code run by a conversion is not modelled.")

prop("C11", "The Python module gives back exactly once what it acquires",
     "Every reference, buffer, beam state, configuration and machine the Python module acquires during a call is released exactly once or handed to exactly one owner, on every path including every failure; "
     "nothing is used or returned after its release, no element keeps pointing to the observer of a propagate call that has ended, and an object being destroyed is first withdrawn from the garbage collector.",
     ["inputs", "failures", "histories"],
     "every path through the module, with every API call failing or not",
     "a leaked or doubly released reference shows only in long runs or when a particular call fails",
     ["python/flame/modmachine.cpp", "python/flame/modstate.cpp", "python/flame/modconfig.cpp", "python/flame/modmain.cpp", "python/flame/pyflame.h"],
     [("PyRef, wrapstate, PyScopedObserver", "python/flame/pyflame.h, modstate.cpp, modmachine.cpp")],
     technique="ownership (reference count) typestate by abstract interpretation of every entry point",
     note="Same paths as C10. Module initialisation failing half way is judged like any other path.")

prop("C12", "Every beam state and element is handled as what it is",
     "A beam state only ever passes through elements of its own simulation type: an element given a state of another type refuses it with an exception before any simulation quantity of that state has changed, and accepts every state of its own type. "
     "Every element class registered for a simulation type handles that type's states and reports, as its type, the name it is registered under; reconfigure never turns an element into one of another type; and no state or element is ever read as an object of a class it is not an instance of.",
     ["inputs", "configurations"],
     "every registered element class crossed with the state of every simulation type, and every pair of element classes of a type",
     "tests only ever pass states to machines of the type they were allocated from",
     ["src/base.cpp", "src/linear.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/flame/linear.h", "src/flame/moment.h", "src/flame/rf_cavity.h", "src/flame/base.h"],
     [("advance of each element class, registerLinear and registerMoment, element_builder_impl::rebuild, assign", "src/*.cpp, src/flame/*.h")],
     technique="dynamic-type (cast) analysis by abstract interpretation over all pairs of registered classes",
     note="Which class an object is comes from the registrations in the source. A downcast is judged at the cast, whatever is done with the result.")

prop("C13", "A machine holds exactly the lattice's elements, and lookup finds them",
     "A machine built from a lattice has one element per lattice entry, in order: the i-th is made from the i-th entry's parameters by the class registered, for the lattice's sim_type, under the entry's type, and its index is i. "
     "An unknown sim_type or element type, or an element that cannot be constructed, is an exception that leaves nothing behind: every element already built is destroyed. Destroying a machine destroys each element exactly once. "
     "Looking up by name or by type finds exactly the elements of that name or type, in lattice order, also after an element was reconfigured under a new name; find(name, n) gives the n-th of them or nothing.",
     ["inputs", "failures"],
     "lattices of zero to three entries with every step failing or not; tables with any mix of names before, at and after the one looked for",
     "tests build a few fixed lattices and never fail half way through construction",
     ["src/base.cpp", "src/flame/base.h", "src/flame/util.h", "python/flame/modmachine.cpp"],
     [("Machine::Machine, Machine::~Machine, Machine::find, equal_range, equal_range_type, all_range, LookupKey, reconfigure", "src/base.cpp, src/flame/base.h"), ("PyMachine_find", "python/flame/modmachine.cpp")],
     technique="abstract interpretation with containers of each small size and every call able to throw (ownership of the elements, contents of the lookup tables)",
     note="Small-scope in the number of elements (0-3) and table rows (0-7), symbolic in their contents. An element's own constructor cleaning up after itself is the language's business.")

prop("C14", "A lattice text means what it says, and a mistake in it is reported with its line",
     "For every lattice text: names, numbers, strings, comments and punctuation are told apart as the language says; an expression has the value its operators, parentheses and functions give it, with * and / before + and -, left to right; "
     "each assigned variable, each element's properties (in the element's own scope, with the variables visible) and the selected beam line (the last, or the one USE names; nested lines expanded in order, '-' reversed, 'n*' repeated) arrive in the Config exactly as written, and nothing else does. "
     "Variables set on the parser beforehand are there for the text, file names are relative to the text's own directory, and a text given as string, bytes, file or standard input means the same. "
     "A text with a mistake (syntax, an undefined or twice defined name, a wrong operand or argument type, a non-finite quotient, an illegal character, an unknown command) is refused with an exception naming the line of the first mistake; a text without one is never refused. A parser reads the next text as if it were its first.",
     ["inputs", "histories"],
     "every text: characters through all states of the scanner, token sequences through every production, pair of operators and operand type, with symbolic numbers",
     "tests parse a dozen texts",
     ["src/glps.l", "src/glps.y", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp"],
     [("scanner rules", "src/glps.l"), ("grammar and its actions", "src/glps.y"), ("glps_add_value, glps_add_op, glps_assign, glps_add_element, glps_add_line, glps_append_*", "src/glps_parser.cpp"), ("operations", "src/glps_ops.cpp"), ("GLPSParser, Pvt::fill_vars, Pvt::fill_context", "src/config.cpp")],
     technique="abstract interpretation of the semantic actions over bison's LALR tables with symbolic numbers; the scanner's tables compared with the language for every state and continuation",
     note="Beam lines of up to eight elements, vectors of up to four, expressions of up to three operators; the generated driver code of flex and bison is trusted, their tables are not. h5file() and what print() prints are not covered.")

prop("C15", "Reading any text is safe",
     "Whatever the text (memory exhaustion aside), and wherever in it a mistake stops the parse, reading it releases everything it made exactly once and in the way it was made, uses nothing after releasing it, follows no NULL pointer, accesses no container or buffer outside its bounds, lets no exception through the C parser, "
     "closes a file it opened and nothing else, and leaves nothing behind except the Config given to the caller.",
     ["inputs", "failures"],
     "for each state of the parser's automaton, a text that reaches it followed by every token, the end of the text or an illegal character; every operand kind; every library step that can fail failing or not",
     "tests parse a handful of wrong texts, without a memory checker",
     ["src/glps.y", "src/glps.l", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp"],
     [("%destructor rules and actions", "src/glps.y"), ("glps_*_cleanup, glps_append_*, glps_add_*, parse_common", "src/glps_parser.cpp"), ("GLPSParser::parse_file", "src/config.cpp")],
     technique="typestate (made, released, handed over) of every heap object, file and scanner, by abstract interpretation of actions and destructors over bison's LALR tables",
     note="Allocations are taken to succeed; the generated driver code of flex and bison is trusted.")

prop("C16", "Settings of any length are used safely",
     "Whatever the lengths of the vector-valued settings of a simulation, an element or a data file it names (missing, empty, too short, too long, of unequal lengths), constructing a state or an element, and passing a beam of any number of charge states through it, either throws or "
     "completes with every vector, matrix and table accessed only within its bounds and no null pointer followed; a MomentState that was constructed, or has passed an element, has at least one charge state and as many entries in real, moment0, moment1 and transmat; and settings of the documented lengths are accepted.",
     ["inputs"],
     "each vector setting absent and in every length around the documented one, and pairs of settings; contents unknown; beams of one, two and three charge states, also changing between passes",
     "tests use settings of the right lengths",
     ["src/moment.cpp", "src/linear.cpp", "src/moment_sup.cpp", "src/chg_stripper.cpp", "src/rf_cavity.cpp", "src/util.cpp"],
     [("MomentState::MomentState, load_storage", "src/moment.cpp"), ("MatrixState::MatrixState, VectorState::VectorState, ElementGeneric", "src/linear.cpp"), ("GetCurveData", "src/moment_sup.cpp"),
      ("ElementStripper::Stripper_GetMat", "src/chg_stripper.cpp"), ("ElementRFCavity::LoadCavityFile, GetCavPhase, PropagateLongRFCav", "src/rf_cavity.cpp")],
     technique="abstract interpretation of constructors and advance() over container sizes: concrete lengths, unknown contents",
     note="Field maps read by numeric_table::read have unknown sizes; accesses whose index or size depends on contents are not judged. The long computations of a cavity are entered one at a time, for fewer combinations.")

prop("C90", "Backward propagation numerically inverts forward propagation",
     "Propagating a beam forward and then backward over the same elements restores the initial centroid, moments, phase and energy to within rounding.",
     ["inputs", "histories"], "every lattice and beam", "tests compare one lattice within a tolerance",
     ["src/moment.cpp", "src/flame/rf_cavity.h"], [("inverse matrices in advance()", "src/moment.cpp")],
     na="equality of floating-point results within rounding: depends on run-time values and conditioning no static argument here can bound (the structural part, position and bookkeeping, is C09)")
prop("C91", "Transfer matrices are the physical model's (symplectic where lossless)",
     "Every element's transfer matrix agrees with the documented beam-dynamics model for all parameters and energies.",
     ["inputs"], "every element parameter set and beam energy", "tests compare a few lattices with recorded numbers",
     ["src/moment_sup.cpp", "src/rf_cavity.cpp", "src/linear.cpp"], [("matrix formulae", "src/moment_sup.cpp")],
     na="numerical correctness of formulae: no oracle in the source other than the formulae themselves; a syntactic comparison would freeze text")
prop("C92", "Printing a parsed lattice and parsing it again gives an equal configuration",
     "For every configuration that can be printed, parsing the printed text yields the same parameters and elements.",
     ["inputs"], "every configuration", "tests round-trip a few lattices",
     ["src/glps_parser.cpp", "src/glps.l", "src/glps.y"], [("GLPSPrint and the grammar", "src/glps_parser.cpp")],
     na="round-trip equality over run-time strings and doubles (formatting precision, escaping); the agreement of printer and scanner quantifies over run-time text")
