CHECKS = {
    'C01': ('c_strings', 'c01'),
    'C02': ('c_strings', 'c02'),
    'C03': ('c_strings', 'c03'),
    'C04': ('c_text', 'c04'),
    'C05': ('c_text', 'c05'),
    'C06': ('c_text', 'c06'),
    'C07': ('c_text', 'c07'),
    'C08': ('c_json', 'c08'),
    'C09': ('c_json', 'c09'),
    'C10': ('c_json', 'c10'),
    'C11': ('c_json', 'c11'),
    'C12': ('c_bigint', 'c12'),
    'C13': ('c_bigint', 'c13'),
    'C14': ('c_bigint', 'c14'),
    'C15': ('c_bigdec', 'c15'),
    'C16': ('c_mem', 'c16'),
    'C18': ('c_mem', 'c18'),
    'C19': ('c_expected', 'c19'),
    'C20': ('c_expected', 'c20'),
    'C21': ('c_file', 'c21'),
    'C22': ('c_file', 'c22'),
    'C23': ('c_runner', 'c23'),
    'C24': ('c_runner', 'c24'),
    'C25': ('c_console', 'c25'),
    'C27': ('c_app', 'c27'),
    'C28': ('c_values', 'c28'),
    'C17': ('c_threads', 'c17'),
    'C29': ('c_types', 'c29'),
    'C30': ('c_dialect', 'c30'),
    'C31': ('c_parallel', 'c31'),
    'C26': ('c_text', 'c26'),
    'C32': ('c_names', 'c32'),
}
TV = 'TLA+ specification: exhaustive TLC model + TLC trace validation of recorded implementation histories + tests generated from TLC transitions'
TR = ' Trusted: TLC, the driver\'s reading of the public API, the compiler; histories outside the generated families are not observed.'
NOTES = {
    'C12': (TV, 'BigNat/BigInt limb arithmetic is checked exhaustively against TLC integers; every recorded result of the code must be the one the specification gives.' + TR),
    'C13': (TV, 'Quotient, remainder and root are accepted exactly when the defining laws hold in the exact arithmetic of the specification.' + TR),
    'C14': (TV, 'Canonical text, refusal of malformed text and the six comparisons follow the specification for every recorded value.' + TR),
}
NA = {}
NOTES['C01'] = (TV, 'Structure, decoding and encoding of UTF-8 are specified byte by byte and checked exhaustively over class-boundary bytes; every text and code point built by the code must decode and encode as specified.' + TR)
NOTES['C02'] = (TV, 'Three strings as a state machine of edits; every recorded edit must lead to the state the specification gives, in all views of the string.' + TR)
NOTES['C03'] = (TV, 'Searching, slicing and order are specified on code point sequences; all positions of each recorded pair of texts are compared.' + TR)
NOTES['C15'] = (TV, 'Decimals are exact integers with a scale in the specification, whose laws are checked exhaustively on small decimals; every recorded text, result and comparison must be the specified one.' + TR)
NOTES['C04'] = (TV, 'Case maps and classes of all 1114112 code points are recorded and compared with the tables of the specification, whose coherence is model-checked.' + TR)
NOTES['C05'] = (TV, 'The template language is a specification whose laws are checked on all short templates; each of these and generated longer ones is formatted by the code and compared.' + TR + ' Placeholders whose body is neither an index nor a specification are left open.')
NOTES['C06'] = (TV, 'Parsing and meaning of field specifications are specified; all short specifications and generated ones are applied to values of every kind.' + TR + ' f on text that is no number and specifications outside the documented grammar are left open.')
NOTES['C07'] = (TV, 'Builders are a state machine of texts; every recorded history must be one of its behaviours.' + TR + ' The moved-from builder is not used again.')
NOTES['C26'] = (TV, 'Each utility has its definition in the specification; model-checked laws, all short inputs and generated longer ones.' + TR + ' \\u escapes of surrogates and U+0000 are not generated.')
NOTES['C16'] = (TV, 'Variables, fields, objects and owners are a state machine with cascading destruction; every recorded step must destroy exactly the objects the specification destroys and show its owners and expiries.' + TR)
NOTES['C18'] = (TV, 'Unique ownership with release, adoption and raw wrappers is a state machine; every recorded step must destroy exactly what it destroys.' + TR)

NOTES['C08'] = (TV, 'The JSON grammar is a decoder in the specification, itself checked against declarative grammars on all short token and character sequences; every recorded parse must have its verdict and its tree.' + TR + ' Constructs outside RFC 8259 that are tolerated today (leading +, leading zeros, bare points, raw control characters), lone surrogates, U+0000 and denormal numbers are left open.')
NOTES['C09'] = (TV, 'Printed texts are decoded by the specification and must denote the tree that was built; compact, indented and stream output and the parse of the output are compared.' + TR + ' Floating values are compared to six digits; NaN and infinities are not generated.')
NOTES['C10'] = (TV, 'Documents and detached values are a state machine of trees with mutable access, copies, moves and removal; every recorded step must lead to its state, seen through all accessors; leaks by counting blocks.' + TR)
NOTES['C11'] = (TV, 'Parsing, copying and moving documents is part of the same state machine with an error mark; every way of parsing is recorded after every outcome.' + TR)
NOTES['C19'] = (TV, 'Combinators are functions of the specification whose laws are model-checked; every recorded call must make exactly the callback calls and have the outcome of the specification.' + TR)
NOTES['C20'] = (TV, 'An instance-level model of construction and assignment with failing copies refines the value-level one; every recorded step must leave the results, and the number of live payloads, of the specification.' + TR)
NOTES['C21'] = (TV, 'Disk content and file objects are a state machine; the content read back from disk after every recorded call must be that of the specification.' + TR)
NOTES['C22'] = (TV, 'Reading is part of the same state machine (position, end of file, pieces between delimiters), whose laws are model-checked; every recorded read must give its piece, position and mark.' + TR)
NOTES['C23'] = (TV, 'A step-by-step runner is model-checked against the declarative report of a registry; the complete output, calls and status of every recorded run must be the report.' + TR)
NOTES['C24'] = (TV, 'The conditions, the end of a test at its first failure and the content of the failure text are specified; every recorded assertion must pass, fail, name and evaluate as specified.' + TR)
NOTES['C25'] = (TV, 'Standard output, standard error and the pending input are a state machine; the bytes on the real descriptors after every recorded call, and every line read, must be those of the specification.' + TR)
NOTES['C27'] = (TV, 'Initialisation, the caller\'s storage and the reported arguments are a state machine; every recorded history over two translation units must be one of its behaviours.' + TR)
NOTES['C28'] = (TV, 'The order of numbers, the laws of mixed comparison on machine integers with the conversions of the language, and the answers of the other helpers are specified; every recorded answer must be the specified one.' + TR)

NOTES['C17'] = (TV, 'Shared ownership of several threads with hidden atomic steps, and a happens-before memory, are specified; a model of the counting algorithm is checked against both under every interleaving; every recorded interleaving of the real code, instrumented and scheduled, must be allowed by both.' + TR + ' Programs of two and three threads and up to four operations each.')
NOTES['C29'] = (TV, 'Types are terms, predicates and transformations functions of terms whose laws are model-checked on all types of few constructors; the answers compiled into generated programs must be those of the specification.' + TR + ' Where compilers and standards disagree (triviality of volatile classes and of classes without usable copies) nothing is decided.')
NOTES['C30'] = ('TLA+ specification: trace validation of histories recorded from the code compiled in other dialects, against the specifications of the other properties', 'The drivers of the other properties are compiled as C++14, C++17, C++20, with Clang and with optimisation; what they record must be behaviours of the same specifications.' + TR)
NOTES['C31'] = ('TLA+ specification: TLC model of threads over a happens-before memory; trace validation of histories recorded by concurrent threads against the specifications of the other properties', 'A model shows that threads over separate and constant objects find what they find alone unless operations share scratch areas, caches or counts; the drivers of the other properties run their histories by four threads at a time, looking at objects by two at once, under the race detector with delays at atomic operations; each log must be a behaviour of its specification, and a race is no step of any.' + TR + ' Schedules are those that happened; races are judged by happens-before, whatever the order.')
NOTES['C32'] = ('TLA+ specification: exhaustive TLC model of the tables of names + TLC trace validation of what programs compiled in eight dialects report', 'The chart of names, the aliases per standard and the facts per build are tables of the specification whose coherence is model-checked; what each build reports, name by name and completely, must be what the tables say.' + TR)
