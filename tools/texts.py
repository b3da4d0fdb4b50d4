"""What decides each property, and what that is worth."""
A = 'abstract interpretation of MIR: '
GENERAL = ('Decided from the type-checked program, nothing is executed. Trusts the rustc nightly front end (trait resolution, layout, MIR) and the analyser in /verif/analyzer; '
           'an obligation the analyser cannot decide makes the check exit 2, never 0. ')
CORPUS = ('User structs are covered through an enumerated corpus of client declarations expanded by the current derive: every ordered pair of 18 size/alignment classes, every supported member type, '
          'member counts 1-24 twice and up to 130, five levels of nesting, syntactic variety, hostile scopes (thorough: all triples of 12 classes, random structs from VERIF_SEED, up to 300 members). '
          'Within each struct the result holds for all values. ')
TEXT = {
    'C01': ('type-layout query over the compiler\'s layouts against a GLSL std140 oracle, plus ' + A + 'byte provenance of each component',
            GENERAL + 'Complete for all 26 published std140 types: size, ALIGNMENT, every component offset and column stride.'),
    'C02': ('type-layout query over the compiler\'s layouts against a GLSL std430 oracle, plus ' + A + 'byte provenance of each component',
            GENERAL + 'Complete for all 26 published std430 types.'),
    'C03': ('translation validation of the derive: type-layout query of every derived type against a GLSL std140 layout oracle', GENERAL + CORPUS),
    'C04': ('translation validation of the derive: type-layout query of every derived type against a GLSL std430 layout oracle', GENERAL + CORPUS),
    'C05': ('type-level audit of every unsafe Pod/Zeroable/Std140/Std430 impl: bytes covered by members, member kinds, generic bounds', GENERAL + CORPUS),
    'C06': (A + 'byte provenance; every non-component byte of the converted value must be the constant 0', GENERAL + CORPUS),
    'C07': (A + 'byte provenance; every component byte must be exactly the input byte GLSL puts there', GENERAL + CORPUS),
    'C08': (A + 'byte provenance through as_std* then from_std*, and of from_std* on its own', GENERAL + CORPUS),
    'C09': (A + 'boolean words; true/false enumerated, arbitrary 32-bit words as intervals', GENERAL + CORPUS),
    'C10': (A + 'writer effects with a symbolic offset (congruence and interval domain, split per residue)',
            GENERAL + 'Covers every starting offset from 0 to 2^63 (a symbolic offset, plus the offsets around powers of two where narrower arithmetic would wrap), a history of earlier writes for writers that keep more state than an offset, and every element type of the crate; the sink accepts everything or fails as enumerated for C12.'),
    'C11': (A + 'emitted byte sequence of slice and iterator writes',
            GENERAL + 'For every offset and every value; lengths 0-3 for every element type, for representative types 0-16 (thorough 0-64), lengths around every integer literal of the code and around powers of two up to 1024 (thorough 4096); iterators with absent, wrong and resuming size hints; hand-written elements that write several values, none, or a number that depends on the value, up to 65 (257) of them. Bounded in length, hence not a proof.'),
    'C12': (A + 'sink outcomes enumerated as effects at every write call (ok, error, zero, interrupted, short), and error kinds followed to the caller',
            GENERAL + 'Up to two (thorough: three) deviations per operation, slices up to three (five) elements, every offset and value.'),
    'C13': (A + 'Sizer and Writer placement tables compared per residue of the offset', GENERAL + 'All types of the crate, all offsets; plus concrete sequences over representative pairs (thorough: triples).'),
    'C14': (A + 'reported size compared with the bytes a fresh Writer emits', GENERAL + CORPUS + 'Slices of 0-11 (thorough 0-39) elements and lengths around powers of two up to 128 (1024), for one type also around the integer literals of the code; hand-written writable types, including ones that write more or less depending on their value.'),
    'C15': ('type-layout query and ' + A + 'byte provenance of DynamicUniform around every subject type', GENERAL + 'All inner types of the crate and derived structs of the syntax corpus.'),
    'C16': ('constant query of Glsl::NAME against the GLSL oracle of the type\'s layout', GENERAL + 'Complete for all types of the four libraries and both layouts; derived names through the corpora.'),
    'C17': (A + 'text emitted by glsl_definition() and the FIELDS constants against the declared members', GENERAL + CORPUS),
    'C18': ('compile-fail witnesses with compiling twins, decided by the type checker', GENERAL + 'One witness per item kind and unsupported member type for each of the three derives.'),
    'C19': ('type-checking a corpus of hostile client scopes, and type-layout query of the results', GENERAL + 'Scopes are enumerated by kind of interference; not every conceivable one.'),
    'C20': ('trait-implementation query (trait solver) over the table of supported types', GENERAL + 'Complete for the listed types of the four libraries; the list is the oracle.'),
    'C21': ('compilation and re-analysis of every feature configuration; crate-graph query for std', GENERAL + 'All 16 combinations of std and the math libraries, and the derive debug feature.'),
    'C22': (A + 'pointer and length returned by as_bytes', GENERAL + CORPUS),
    'C23': (A + 'panic reachability on every path of the modelled entry points', GENERAL + 'Offsets up to 2^63; lengths and sink faults bounded as for C11 and C12; analysed with and without debug assertions.'),
    'C24': ('constant query of every published ALIGNMENT', GENERAL + CORPUS),
    'C30': (A + 'undefined behaviour on any path: accesses outside objects, misaligned accesses, uninitialised or invalid values read, unreachable code reached, contracts of unsafe standard-library functions broken',
            GENERAL + 'Entry points, lengths, offsets and sink faults as for C23. Aliasing rules (stacked borrows) are not modelled.'),
    'C28': ('effect analysis over the MIR of every function of crevice and of every function the derives generate: globals, thread-locals, environment, clock, files, foreign calls',
            'Decided from the type-checked program, nothing is executed. Complete for the bodies of crevice (all features on) and of the derived corpora; functions of other crates are judged by their path, not by their bodies.'),
    'C27': ('version query of every standard-library item, implementation and language construct named by the crate, its derives and the code they generate, against the declared minimum; minimum versions of its dependencies',
            'Decided from the type-checked program, nothing is executed. Uses the stability attributes of the standard library (since which version each item, implementation and constant function is stable) and a list of the language features stabilised after 1.85. '
            'Not seen: changes of type inference, of lints and of what the compiler accepts without a feature gate. That nalgebra 0.35 asks for Rust 1.89 is a recorded finding.'),
    'C29': ('effect analysis over the MIR of every function of the derive crate: globals, environment, clock, files, hash-table order, source positions',
            'Decided from the type-checked program, nothing is executed. Complete for the bodies of crevice-derive; syn, quote and proc-macro2 are judged by the functions called, not by their bodies.'),
    'C31': ('compile-fail witnesses with compiling twins, decided by the type and borrow checker', 'Decided by the type checker on the current source, nothing is executed. Trusts rustc nightly. The witnesses enumerate kinds of misuse, not every program.'),
    'C32': ('compile-pass witnesses: client programs over every kind of sink, value, iterator and generic context, decided by the type and borrow checker', 'Decided by the type checker on the current source, nothing is executed. Trusts rustc nightly. Generic witnesses hold for every instance of their parameters; the concrete ones enumerate kinds.'),
    'C33': (A + 'calls on a recording sink before, during and after writes, and destructors run', GENERAL + 'All types of the crate and the syntax corpus, slices of 0, 1 and 3 elements, iterators of up to 5 (16) values with destructors, one (two) sink failures per operation.'),
    'C25': (A + 'offsets of slice elements against the GLSL array stride', GENERAL + CORPUS + 'The std140 spacing of scalars and two-component vectors is a recorded finding.'),
}
NA = {
    'C26': 'What a shader compiler and GPU driver do with the bytes is outside the repository: there is no source to analyse. The Rust side (bytes and generated text) is C01-C09, C16, C17.',
}
