"""Level, technique and notes per property."""
LEVELS = {f"C{i:02d}": "proof" for i in range(1, 21)}

_D = "contract-based deductive verification (pyvc: symbolic execution of the real Python functions against contracts, z3)"
TECH = {p: _D for p in LEVELS}
TECH["C05"] = TECH["C06"] = TECH["C10"] = _D + "; laws as lemmas over the contracts"
TECH["C07"] = _D + "; loop invariants for the depth-first search"
TECH["C19"] = _D + "; loop invariant for the walk up the type hierarchy"
TECH["C03"] = TECH["C04"] = _D + "; step specification of the flattening loop, lemmas by induction"
TECH["C13"] = TECH["C11"] = _D + ", one contract per production of the grammar file"
TECH["C14"] = _D + ", printed tokens read back production by production"
TECH["C12"] = _D + "; representation invariant, step invariant over the groups of a list"
TECH["C15"] = _D + ", printed tokens read back production by production; invariant for the loop that orders the types"

_ALL = ("Every obligation is generated from the source in /repo on each run and holds for all inputs of the stated types; trusted: pyvc (the verifier "
        "in this directory, with its models of Python's builtins), z3, and the callee contracts that the evidence lists. "
        "A bounded run of the same contract on the real code follows, as a cross-check and to replay failures; it is not counted as proved. ")
NOTES = {
    "C01": _ALL + "instantiate of each of the formula classes refines its substitution contract (parts by contract: induction on the formula).",
    "C02": _ALL + "Action.instantiate and Plan.instantiate, any number of parameters and steps; instantiate of formulas by its contract (C01).",
    "C03": _ALL + "The flattening loop refines flat(new, stack) step by step; truth of the operands of flat is a lemma by induction. Termination of the flattening and dict.fromkeys are trusted.",
    "C04": _ALL + "As C03 with sums and products; arithmetic is exact (mathematical) and associative, commutative: floating-point rounding is not modelled.",
    "C05": _ALL + "Every == and hash of a kind refines equality of the public components (parts by contract: induction on depth; domains, problems and plans: == only, they are not hashable by contents); laws are lemmas; copy/pickle by the real __getstate__/__setstate__ and CPython's reduce protocol (trusted).",
    "C06": _ALL + "Trichotomy, transitivity and agreement of <=, >, >= on three arbitrary objects per order. Trusted: sequences of totally ordered elements are totally ordered; NaN excluded.",
    "C07": _ALL + "Types refines its contract; find_cycle by invariants of its two loops. Termination and 'a walk that meets itself contains a cycle' are argued on paper (assumptions).",
    "C08": _ALL + "check_type of each class refines 'no bad tag anywhere' (parts by contract), Domain's constructor rejects exactly if a part does; typed terms, predicates, functions, actions of any size.",
    "C09": _ALL + "Patterns are compared as regular languages (automata), keywords as sets; each constructor takes its name through the contract and reports it unchanged.",
    "C10": _ALL + "Membership of each of the requirements in the closure of an arbitrary set; monotone, idempotent; argument not written to.",
    "C11": _ALL + "Per production of grammar.lark, with the state left by the callbacks of arbitrary declarations. Trusted: Lark calls the callbacks bottom-up, left to right, on the parse tree of the text.",
    "C12": _ALL + "add_item preserves the representation invariant and rejects exactly what must be; the reports; reading a token list by an invariant over its typed groups (any number, any length, one or several types), then an untyped rest.",
    "C13": _ALL + "Per production of grammar.lark: callback on arbitrary parts and state equals the denotation in specs/grammar.py; sections write only their own state. Trusted: Lark itself (grammar loading, LALR tables, lexing). Derived predicates: C19; typed lists: C12.",
    "C14": _ALL + "Per production: the text printed for its value is cut into tokens, read as a production of the grammar and denotes the value; no part of the text depends on the enumeration order of a set. Trusted: Lark accepts every text derivable from its grammar; repr of numbers; induction on the size of the formula.",
    "C15": _ALL + "As C14 for actions, predicates, functions, plan steps and the sections of types, constants, objects, functions and predicates; then the texts of a whole domain, problem and plan, with the sections by contract, are read as the grammar's domain, problem, plan and give equal components. No text depends on the order of a set. Assumed: the object was read (its components satisfy what C07, C12, C13 guarantee). Trusted: Lark; textwrap.indent adds only white space.",
    "C16": _ALL + "Plan.check refines the three conditions, any number of steps; membership of constants by equality (C05).",
    "C17": _ALL + "Problem's constructor, check and domain setter refine their contract; check_type of the goal and literals by contract (C08).",
    "C18": _ALL + "__call__ of each parser with its transformer in an arbitrary state equals a call with a new one, exceptional exits included, and restores sys.tracebacklimit; a scan of the package for writes to anything that outlives a call (module globals, classes, caches) must be empty. Trusted: Lark keeps nothing between parses; the scan does not follow aliases of globals.",
    "C19": _ALL + "derived_predicates callback, update_type_tags per class, subtype check with a loop invariant over arbitrary hierarchies. copy.copy trusted to keep components.",
    "C20": _ALL + "Accessors after construction for each class; frames: instantiate, ==, <, hash, str, check write only memo fields. Printing, comparing, checking and instantiating domains, problems and plans write to nothing reachable from them (component by component); what a part's own operation writes is by that part's frame.",
}
