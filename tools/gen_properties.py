import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe)))
I=["inputs"]
p("C01","Formula instantiation is capture-respecting simultaneous substitution",
 "Instantiating any formula or effect (atoms, numeric expressions, comparisons, and/or/oneof/imply/not, quantifiers, conditional and universal effects, derived predicates) with a mapping from variables to terms returns the same formula in which exactly the free occurrences of the mapped variables are replaced, all at once. Constants, unmapped variables, variables bound by a quantifier (identified by name), names, numbers, connectives and the order of operands and terms are kept; conjunctions and disjunctions are rebuilt by their constructors. The formula and the mapping given are left untouched.",
 I,"All formulas of any size and nesting, all (partial, total, empty, permuting) mappings from variables to terms.",
 "The tests instantiate a handful of small formulas; nesting depth, operator mix, shadowing and partial or swapping mappings are unbounded.",
 ["pddl/logic/base.py","pddl/logic/predicates.py","pddl/logic/functions.py","pddl/logic/effects.py"],
 [("instantiate methods of every formula class","pddl/logic/*.py")],["Formula.instantiate"])
p("C02","Actions and plans are instantiated positionally",
 "Instantiating an action with as many terms as it has parameters yields an action with the same name, those terms as parameters, and its precondition and effect instantiated with the i-th parameter replaced by the i-th term; any other number of terms is rejected with a ValueError, and a missing precondition or effect stays missing. Instantiating a plan yields, step by step and in order, the instantiation of the domain action with that step's name on that step's arguments, and a step naming no action of the domain is rejected with a ValueError.",
 I,"All actions, term sequences, plans and domains with distinct action names.",
 "Tests use fixed actions with one or two parameters and short plans.",
 ["pddl/action.py","pddl/core.py"],[("Action.instantiate","pddl/action.py"),("Plan.instantiate","pddl/core.py")],["Action.instantiate","Plan.instantiate"])
p("C03","Building boolean formulas preserves truth and operand order",
 "For every truth assignment to the operands, And(...) is true exactly if all of its operands are, Or(...) exactly if at least one is, and the operators ~, &, | and >> and the helper that replaces a missing formula denote negation, conjunction, disjunction, material implication, and truth (or falsity). The only simplifications are flattening an operand of the same connective, dropping repeated operands, and returning the single operand; the remaining operands are in order of first occurrence from left to right. Oneof and imply keep their operands exactly as given.",
 I,"All sequences of operands with any nesting and repetition.",
 "Tests check a few hand-written nestings; flattening is a worklist algorithm over arbitrary trees.",
 ["pddl/logic/base.py"],[("BinaryOpMetaclass and operand simplification","pddl/logic/base.py"),("Formula operators","pddl/logic/base.py")],["And(...).operands","Or(...).operands"])
p("C04","Building numeric expressions preserves their value",
 "For every assignment of numbers to the operands, an arithmetic expression built from operands denotes the sum, product, difference or quotient of exactly those operands (repetitions count). Nested sums in a sum and products in a product may be flattened keeping the order; subtraction, division, comparisons and assignment-like effects keep the operands exactly as given, in order. Instantiation and type-tag propagation on them keep this value too.",
 I,"All sequences of operands with any nesting and repetition.",
 "Tests build expressions with two distinct operands; repetition and nesting are not covered.",
 ["pddl/logic/functions.py","pddl/logic/base.py"],[("BinaryFunction and its subclasses","pddl/logic/functions.py"),("operand simplification","pddl/logic/base.py")],["BinaryFunction.operands"])
p("C05","Equality is an equivalence and agrees with hashing",
 "On terms, formulas, numeric expressions, effects, metrics and actions, == is reflexive, symmetric and transitive and two objects are equal exactly if they are of the same kind and their public components are equal (constants: by name only; variables: name and type tags). Domains, problems and plans are equal exactly if they are of the same kind and everything they report (and the domain a problem is attached to) is equal. Equal objects have equal hashes, whether or not the hash was computed before, and a pickled and restored or copied object equals the original and has the same hash in any interpreter it is restored in. Objects of different kinds, or a library object and a foreign object, are never equal.",
 ["inputs","histories"],"All pairs and triples of objects of all kinds; all orders of hashing, pickling and comparing.",
 "Tests compare a few objects; symmetry, transitivity and hash agreement are universally quantified over pairs and triples and over what was memoised before.",
 ["pddl/logic/terms.py","pddl/logic/base.py","pddl/logic/predicates.py","pddl/logic/functions.py","pddl/logic/effects.py","pddl/action.py","pddl/core.py","pddl/helpers/cache_hash.py"],
 [("__eq__/__hash__ of each class","pddl/logic/*.py"),("hash memoisation and pickling","pddl/helpers/cache_hash.py")],["==","hash()","pickle"],[("memoised hash","cached hash value of an object","pddl/helpers/cache_hash.py")])
p("C06","The orders on terms, atoms and requirements are strict and total",
 "Among terms, among predicates, among numeric functions, among numeric values and among requirements, exactly one of a < b, a == b, b < a holds, and < is transitive. <=, > and >= agree with < and ==. Terms are ordered by kind, then name, then (variables only) sorted type tags; atoms by name and then terms from left to right; requirements by keyword; derived predicates by their predicate, and then by their condition when those are comparable.",
 I,"All pairs and triples of objects of each of these kinds.",
 "Sorting relies on it for deterministic output; tests sort a few objects only.",
 ["pddl/logic/terms.py","pddl/logic/predicates.py","pddl/logic/functions.py","pddl/requirements.py"],[("__lt__ with total_ordering","pddl/logic/*.py, pddl/requirements.py")],["<","sorted()"])
p("C07","Exactly the well-formed type hierarchies are accepted",
 "Building a domain from a type dictionary is rejected with a validation error if and only if some type has a supertype and typing is not among the requirements (directly or implied by another one), or object is given a supertype, or the subtype relation has a cycle. An accepted domain reports exactly the given dictionary, and its available types are exactly the keys and the supertypes. The check terminates on every dictionary.",
 I,"All finite type dictionaries over valid type names, of any depth, and all requirement sets.",
 "Tests use hierarchies of a few types; cycles of any length starting anywhere must be found, and acyclic ones never rejected.",
 ["pddl/_validation.py","pddl/helpers/base.py"],[("Types","pddl/_validation.py"),("find_cycle","pddl/helpers/base.py")],["Domain(...)","Domain.types"])
p("C08","Every type used in a domain is declared, wherever it occurs",
 "Building a domain is rejected with a validation error if a type tag that is neither declared nor object (or any type tag at all, if typing is not among the stated or implied requirements) occurs on a constant, a predicate, a function, an action parameter, or on any term or quantified variable at any depth inside an action's precondition or effect or a derived predicate. A domain in which no such occurrence exists is not rejected on account of its types.",
 I,"All domains: any number of components, formulas of any depth, any requirement set.",
 "Tests plant a bad type in a few fixed positions; the positions inside formulas are unbounded.",
 ["pddl/_validation.py","pddl/core.py"],[("TypeChecker.check_type","pddl/_validation.py"),("Domain consistency check","pddl/core.py")],["Domain(...)"])
p("C09","Names are accepted exactly if they are PDDL names and not keywords",
 "A domain, problem, action, predicate, term, function or type name is accepted if and only if it matches [A-Za-z][-_A-Za-z0-9]* as a whole and is not a PDDL keyword; a type may in addition be named object, and a function total-cost. A keyword is rejected with a validation error and any other bad name with a ValueError; an accepted name is reported unchanged.",
 I,"All strings, for each kind of name.",
 "The set of strings is infinite; tests try a few bad names.",
 ["pddl/custom_types.py","pddl/helpers/base.py","pddl/parser/symbols.py"],[("parse_name, parse_type, parse_function","pddl/custom_types.py"),("RegexConstrainedString","pddl/helpers/base.py")],["constructors"])
p("C10","Requirement closure is exact",
 "The requirements implied by a set of requirements are that set plus universal and existential preconditions if quantified preconditions are in it, plus strips, typing, negative and disjunctive preconditions, equality, conditional effects and universal and existential preconditions if adl is in it, plus object and numeric fluents if fluents is in it, and nothing else. The closure is monotone and idempotent, and the given set is not modified.",
 I,"All 2^16 requirement sets.",
 "Tests sample a few requirement combinations.",
 ["pddl/requirements.py"],[("requirement extension","pddl/requirements.py")],["requirement gating, typing checks"])
p("C11","The parser enforces requirements exactly",
 "In the text of a domain, a disjunction or implication is accepted only if disjunctive-preconditions or adl is declared, forall and exists conditions only with universal- or existential-preconditions respectively (or quantified-preconditions or adl), equality of terms only with equality or adl, oneof only with non-deterministic, and a type with a supertype only with typing or adl; otherwise parsing fails with the missing-requirement error naming that requirement. With the requirement declared, none of these is rejected for lack of a requirement. The same holds for the goal of a problem that declares requirements; a problem that declares none may use any of them.",
 I,"All domain and problem texts; all requirement sets; constructs at any depth.",
 "Tests parse files that declare what they use; rejection is hardly tested.",
 ["pddl/parser/domain.py","pddl/parser/problem.py"],[("gd_or, gd_imply, gd_quantifiers, atomic_formula_term, c_effect, types callbacks","pddl/parser/domain.py")],["DomainParser","ProblemParser"],[("declared requirements","requirements of the text being parsed, with closure","pddl/parser/domain.py")])
p("C12","Typed lists are read faithfully",
 "In a typed list every name is assigned the type(s) that follow the first dash after it, and no type if no dash follows; order and number of names are kept. In lists of types, constants, objects and functions a repeated name or a name with several types is rejected; in lists of variables a name may repeat only with the same set of types. Nothing else is rejected apart from invalid names.",
 I,"All token lists: any number of names, groups and types, any repetition pattern.",
 "Tests cover lists of a few tokens; grouping, repetition and untyped tails are unbounded.",
 ["pddl/parser/typed_list_parser.py","pddl/parser/domain.py"],[("TypedListParser","pddl/parser/typed_list_parser.py"),("typed_list_* callbacks","pddl/parser/domain.py")],["DomainParser","ProblemParser"])
p("C13","Parsing builds exactly what the text says",
 "Parsing a domain, problem or plan yields the object whose name, requirements, constants, objects, predicates, functions, initial literals, metric and plan steps are exactly those written, and whose formulas have, at every depth, the connective, operator, names, numbers and operands written, in the written order (conjunctions and disjunctions as built by their constructors). In an action, variables that are parameters carry the parameter's types; constants declared in a domain carry their declared type wherever they occur in it, and objects declared in a problem carry theirs among its objects and in its initial literals (in goals, function terms, metrics and plans constants carry no type); an empty or omitted precondition or effect is the empty conjunction or missing, respectively. Referring in a domain to an undeclared constant is rejected.",
 I,"All texts of the grammar.",
 "Tests parse about a hundred fixed files and mostly check that nothing fails.",
 ["pddl/parser/domain.py","pddl/parser/problem.py","pddl/parser/plan.py","pddl/parser/grammar.lark"],[("transformer callbacks","pddl/parser/*.py"),("grammar","pddl/parser/grammar.lark")],["DomainParser","ProblemParser","PlanParser"])
p("C14","Printed formulas read back as the same formula",
 "For every condition, effect and numeric expression obtained by parsing, printing it and parsing the text again (in the same action, with the same requirements) yields an equal formula with the same operators, order, type tags and numbers. The printed text depends only on the formula, not on hash seeds or construction history.",
 ["inputs","histories"],"All formulas of any depth obtained by parsing.",
 "Tests round-trip fixed files; the nesting of connectives, either-types, exponents and empty connectives are not sampled.",
 ["pddl/logic/base.py","pddl/logic/predicates.py","pddl/logic/functions.py","pddl/logic/effects.py","pddl/logic/terms.py","pddl/helpers/base.py","pddl/parser/domain.py"],[("__str__ of each formula class","pddl/logic/*.py")],["str(formula)"])
p("C15","Printed domains, problems and plans read back as equal objects",
 "For every domain (in which every supertype other than object is itself declared), problem and plan obtained by parsing, printing it and parsing the text again yields an equal object, with the same types of constants and objects. The text printed is the same whatever the order in which collections were given and whatever the hash seed. Every element of every section is printed exactly once.",
 ["inputs","histories"],"All parsed domains, problems and plans; all iteration orders of sets.",
 "Tests round-trip fixed files under one hash seed.",
 ["pddl/core.py","pddl/formatter.py","pddl/action.py","pddl/helpers/base.py"],[("Domain, Problem, Plan, Action __str__","pddl/core.py, pddl/action.py"),("section printers","pddl/formatter.py")],["str(domain)","str(problem)","str(plan)"])
p("C16","A plan check accepts exactly the plans that fit domain and problem",
 "Checking a plan against a domain and a problem passes if and only if every step names an action of the domain, has as many arguments as that action has parameters, and uses only objects of the problem or constants of the domain. Otherwise it raises a validation error. Neither plan, domain nor problem is changed.",
 I,"All plans, of any length, domains and problems.",
 "Tests use plans of a few steps with a defect in one place.",
 ["pddl/core.py"],[("Plan.check","pddl/core.py")],["Plan.check"])
p("C17","A problem check accepts exactly the problems that fit the domain",
 "Checking a problem against a domain raises a validation error if and only if the domain names differ (ignoring case), the problem states requirements that the domain does not have, or an object, initial fact or the goal uses, at any depth, a type the domain does not provide (or any type although typing is not among the domain's stated or implied requirements). Building a problem is rejected if an initial fact is not a literal, if neither domain nor domain name is given, or if they (or the requirements of the problem and domain) disagree; building or assigning with a domain includes the check above.",
 I,"All problems and domains.",
 "Tests sample a few mismatches; facts, goals and types are unbounded.",
 ["pddl/core.py","pddl/_validation.py"],[("Problem.check","pddl/core.py")],["Problem.check","Problem(...)"])
p("C18","Parsing does not depend on what was parsed before",
 "The result of parsing a text (object or error) depends on the text only: it is the same for a new parser and for one that has parsed any sequence of texts before, whether those succeeded or failed. Parsing leaves the interpreter's settings as they were, whether it succeeds or fails, and never changes objects returned earlier.",
 ["histories","inputs"],"All histories of earlier parses with the same or other parser objects.",
 "Tests use one parser in a fixed order of texts and never look at a parser after a failed parse.",
 ["pddl/parser/base.py","pddl/parser/domain.py","pddl/parser/problem.py","pddl/parser/plan.py"],[("BaseParser.__call__","pddl/parser/base.py")],["DomainParser()","ProblemParser()","PlanParser()"],[("transformer state","names, requirements and types collected during a parse","pddl/parser/domain.py")])
p("C19","Derived predicates take their types from the predicate definition",
 "In a derived predicate, each argument without types gets the types of the corresponding argument of the predicate's definition, and each argument with types keeps them, and is rejected if one of its types is neither among the definition's types nor below one of them in the type hierarchy (at any distance; untyped and object admit everything). Exactly the free occurrences of these variables in the condition carry these types, at any depth; a quantified variable keeps its own types for its scope. A derived predicate that is not defined, or has another number of arguments, is rejected; the check terminates on every hierarchy.",
 I,"All derived predicates, conditions of any depth and type hierarchies of any depth, including cyclic ones.",
 "Tests use hierarchies of depth one and shallow conditions.",
 ["pddl/parser/_update_type_tags.py","pddl/parser/domain.py"],[("update_type_tags","pddl/parser/_update_type_tags.py"),("derived_predicates callback and subtype check","pddl/parser/domain.py")],["DomainParser"])
p("C20","Objects report what they were built from and no operation changes them",
 "Every term, atom, formula, effect, numeric expression, metric, action, plan, problem and domain reports through its accessors exactly the components it was built from (collections as sets, sequences in order; a missing collection as an empty one), also after the caller has changed the collections it passed in. No instantiation, comparison, hashing, printing, checking or parsing changes what an existing object reports, nor the collections passed in by the caller.",
 ["inputs","histories"],"All constructor arguments and all sequences of operations.",
 "Tests read back a few attributes and never compare objects before and after an operation.",
 ["pddl/logic/terms.py","pddl/logic/base.py","pddl/logic/predicates.py","pddl/logic/functions.py","pddl/logic/effects.py","pddl/action.py","pddl/core.py","pddl/_validation.py","pddl/helpers/base.py"],[("constructors and properties","pddl/**/*.py"),("ensure_set, ensure_sequence, check_no_duplicates","pddl/helpers/base.py")],["properties of all classes"])
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
    if not q['anchors']['state']: del q['anchors']['state']
open('properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
