#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))

prop("C01","std140 primitives have the GLSL std140 size, alignment and member offsets",
 "Every std140 scalar, vector and matrix type published by the crate has exactly the size, alignment requirement, component offsets and column stride that the GLSL std140 rules give to the GLSL type of the same name.",
 ["programs"],"all published std140 primitive types (5 scalars incl. bool, 15 vectors, 6 matrices) and every component/column of each",
 "Tests assert offsets of mat2/mat3/mat4 only; no test looks at dmat*, ivec*/uvec*/dvec2/dvec3, bvec3/4, nor at column padding of double matrices.",
 ["src/std140/primitives.rs","src/bool.rs"],
 [("vectors!/matrices! tables","src/std140/primitives.rs"),("Std140::ALIGNMENT","src/std140/traits.rs")],
 observe=["size_of::<std140::T>()","<std140::T as Std140>::ALIGNMENT","offset_of!(std140::T, field)"])
prop("C02","std430 primitives have the GLSL std430 size, alignment and member offsets",
 "Every std430 scalar, vector and matrix type published by the crate has exactly the size, alignment requirement, component offsets and column stride that the GLSL std430 rules give to the GLSL type of the same name.",
 ["programs"],"all published std430 primitive types and every component/column of each",
 "Tests assert the std430 layout of mat2 only; every other std430 vector and matrix is unasserted.",
 ["src/std430/primitives.rs","src/bool.rs"],
 [("vectors!/matrices! tables","src/std430/primitives.rs"),("Std430::ALIGNMENT","src/std430/traits.rs")],
 observe=["size_of::<std430::T>()","<std430::T as Std430>::ALIGNMENT","offset_of!(std430::T, field)"])
prop("C03","Derived std140 structs place every member where GLSL std140 does",
 "For every struct of supported members (including nested derived structs, in any order and number), the derived std140 type puts each member at the std140 offset, has the std140 alignment (at least 16, at least every member's) and a size rounded up to that alignment.",
 ["programs"],"all user structs: any number of members, any sequence of member types, any nesting depth",
 "A dozen hand-written structs with at most four members are asserted; the layout is computed by macro-generated code whose behaviour depends on the member sequence, and tests always run with the derive crate's debug feature on.",
 ["crevice-derive/src/layout.rs","crevice-derive/src/lib.rs","src/internal.rs"],
 [("generated padding functions","crevice-derive/src/layout.rs"),("align_offset/max_arr","src/internal.rs"),("minimum struct alignment 16","crevice-derive/src/lib.rs")],
 observe=["offset_of!(<T as AsStd140>::Output, member)","size_of::<<T as AsStd140>::Output>()","ALIGNMENT"])
prop("C04","Derived std430 structs place every member where GLSL std430 does",
 "For every struct of supported members (including nested derived structs, in any order and number), the derived std430 type puts each member at the std430 offset, has the largest member alignment as its own and a size rounded up to that alignment.",
 ["programs"],"all user structs: any number of members, any sequence of member types, any nesting depth",
 "Three structs are asserted for std430; nesting is never tested for std430.",
 ["crevice-derive/src/layout.rs","crevice-derive/src/lib.rs","src/internal.rs"],
 [("generated padding functions","crevice-derive/src/layout.rs"),("align_offset/max_arr","src/internal.rs"),("no struct alignment floor","crevice-derive/src/lib.rs")],
 observe=["offset_of!(<T as AsStd430>::Output, member)","size_of::<<T as AsStd430>::Output>()","ALIGNMENT"])
prop("C05","Layout types never contain uninitialised or invalid bytes",
 "Every type that is publicly declared safe to view as bytes (all std140/std430 primitives, the bool type, dynamic-uniform wrappers and all derived types) consists only of explicit plain-data bytes: no compiler-inserted padding, no references, and no member with invalid bit patterns.",
 ["programs"],"all types for which the crate or its derive asserts Pod/Zeroable/Std140/Std430, over all user structs",
 "The assertion is an unchecked unsafe impl; a violation is undefined behaviour that ordinary assertions do not observe.",
 ["src/std140/primitives.rs","src/std430/primitives.rs","src/bool.rs","src/std140/dynamic_uniform.rs","crevice-derive/src/layout.rs"],
 [("unsafe impl Pod/Zeroable","src/std140/primitives.rs"),("explicit _pad fields","crevice-derive/src/layout.rs")],
 observe=["bytes_of(value)"])
prop("C06","Converting to a GPU layout always zeroes every padding byte",
 "For every value of every supported or derived type, each byte of its std140/std430 form that does not belong to a component is zero.",
 ["inputs","programs"],"all values of all supported math types and all derived structs, every padding byte in both layouts",
 "No test reads a padding byte; leftovers would be stale or arbitrary memory and look fine in a field-by-field comparison.",
 ["src/util.rs","crevice-derive/src/layout.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("..Zeroable::zeroed() in conversions","src/util.rs"),("..Zeroable::zeroed() in generated code","crevice-derive/src/layout.rs")],
 observe=["value.as_std140().as_bytes()","value.as_std430().as_bytes()"])
prop("C07","Every component reaches exactly its own GLSL slot, bit for bit",
 "Converting any value of a supported math type (mint, cgmath, glam, nalgebra; scalars, vectors, points, column-major matrices) or derived struct to std140/std430 stores each component, unchanged, at the byte offset GLSL assigns to that component, member or column.",
 ["inputs","programs"],"all component values (every bit pattern) of every supported type and derived struct, both layouts",
 "Run-time tests exercise six small f32 structs through mint only; the conversions for cgmath, glam and nalgebra, all integer, bool and double types are never executed.",
 ["src/util.rs","src/imp/imp_mint.rs","src/imp/imp_cgmath.rs","src/imp/imp_glam.rs","src/imp/imp_nalgebra.rs","crevice-derive/src/layout.rs"],
 [("easy_impl!/minty_impl! tables","src/util.rs"),("per-library type tables","src/imp/"),("generated as_std* body","crevice-derive/src/layout.rs")],
 observe=["value.as_std140().as_bytes()","value.as_std430().as_bytes()"])
prop("C08","Converting to a layout and back returns the original value",
 "For every value of every supported type and derived struct, converting to std140 (or std430) and back yields the same value, component for component and bit for bit.",
 ["inputs","programs"],"all values of all supported math types and derived structs, both layouts",
 "One test round-trips one std140 value of one struct on the CPU; six more go through a GPU with small constants; std430 and the non-mint libraries are never round-tripped.",
 ["src/util.rs","src/imp/","src/std140/traits.rs","src/std430/traits.rs","src/bool.rs","crevice-derive/src/layout.rs"],
 [("from_std140/from_std430","src/util.rs"),("generated from_std* body","crevice-derive/src/layout.rs")],
 observe=["T::from_std140(x.as_std140())","T::from_std430(x.as_std430())"])
prop("C09","Booleans are canonical 32-bit 0/1 words and any nonzero word reads as true",
 "Writing a bool (alone, in a vector/point or a derived struct) produces a 32-bit word that is 0 for false and 1 for true, and reading back treats 0 as false and every other bit pattern as true.",
 ["inputs"],"both booleans and all 2^32 words, in every bool-carrying type of every math library, both layouts",
 "Tests check only the offsets of bool members; no bool value is ever converted in either direction.",
 ["src/bool.rs","src/std140/primitives.rs","src/std430/primitives.rs","src/imp/"],
 [("From<bool> for Bool / From<Bool> for bool","src/bool.rs"),("AsStd140/AsStd430 for bool","src/std140/primitives.rs, src/std430/primitives.rs")],
 observe=["true.as_std140().as_bytes()","bool::from_std140(bytes)"])
prop("C10","The Writer aligns every value, zero-fills the gap and reports true offsets",
 "Whatever was written before, writing a value through the std140 or std430 Writer emits exactly the zero bytes needed to reach the next multiple of the value's alignment followed by exactly the value's bytes; it returns the offset where the value starts, and len() equals the number of bytes emitted so far.",
 ["inputs","histories"],"every starting offset, every value of every type, any history of earlier writes",
 "One unit test checks two offsets of a 256-aligned f32; padding bytes, returned offsets and the std430 Writer are not asserted.",
 ["src/std140/writer.rs","src/std430/writer.rs","src/internal.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("Writer::write_std140/write_std430","src/std140/writer.rs, src/std430/writer.rs"),("align_offset","src/internal.rs")],
 state=[dict(name="offset",meaning="bytes emitted so far",where="src/std140/writer.rs, src/std430/writer.rs")],
 observe=["bytes received by the wrapped io::Write","return value of write","len()"])
prop("C11","Writing a slice or iterator writes each element exactly once, in order",
 "Writing a slice or an iterator emits the elements one after another in order, each exactly once and with the same alignment as if written individually, and returns the offset of the first element; when empty it emits nothing and returns len().",
 ["inputs","histories"],"all lengths (including zero and one), all element types that can be written, both layouts",
 "Slices and iterators are written only by doc examples that look at nothing; the changelog records a past bug writing the first element twice.",
 ["src/std140/traits.rs","src/std430/traits.rs","src/std140/writer.rs","src/std430/writer.rs"],
 [("WriteStd140/WriteStd430 for [T]","src/std140/traits.rs, src/std430/traits.rs"),("Writer::write_iter","src/std140/writer.rs, src/std430/writer.rs")],
 observe=["sequence of element writes","return value"])
prop("C12","I/O errors stop the write, reach the caller and are never counted as written",
 "If the wrapped sink fails at any point, the current write, slice write or iterator write returns that error without emitting anything further, and len() never counts a value or padding run that the sink did not fully accept.",
 ["fault_sequences","histories"],"every sink failure point (each padding or value write of each element), both layouts",
 "No test uses a failing or short sink.",
 ["src/std140/writer.rs","src/std430/writer.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("? on every write_all / write_std*","src/std140/writer.rs, src/std430/writer.rs"),("offset advanced only after success","src/std140/writer.rs, src/std430/writer.rs")],
 state=[dict(name="offset",meaning="bytes emitted so far",where="src/std140/writer.rs, src/std430/writer.rs")],
 observe=["io::Result returned","bytes received by the sink after the error","len() after the error"])
prop("C13","The Sizer predicts the Writer exactly",
 "For any sequence of types, Sizer::add returns the offset at which a Writer would place a value of that type after the same sequence, and Sizer::len() equals the number of bytes the Writer would have emitted.",
 ["inputs","histories"],"every starting offset and every type, any sequence of additions, both layouts",
 "Only one length (32) is asserted in a doc example; offsets returned by add are never checked and never compared with the Writer.",
 ["src/std140/sizer.rs","src/std430/sizer.rs","src/std140/writer.rs","src/std430/writer.rs","src/internal.rs"],
 [("Sizer::add","src/std140/sizer.rs, src/std430/sizer.rs"),("Writer::write_std140/430","src/std140/writer.rs, src/std430/writer.rs")],
 state=[dict(name="offset",meaning="bytes laid out so far",where="src/std140/sizer.rs, src/std430/sizer.rs")],
 observe=["Sizer::add","Sizer::len"])
prop("C14","Reported sizes equal the bytes a fresh Writer emits",
 "std140_size_static/std430_size_static and std140_size/std430_size of any type or slice equal the number of bytes a fresh Writer emits for it, which for a single value is the size of its layout form.",
 ["inputs","programs"],"all supported and derived types, slices of every length, values of every user type that implements the write trait, both layouts",
 "One test compares a size with itself for f32; slices and user-implemented writable types are never sized.",
 ["src/std140/traits.rs","src/std430/traits.rs"],
 [("std140_size/std140_size_static","src/std140/traits.rs"),("std430_size/std430_size_static","src/std430/traits.rs")],
 observe=["std140_size_static()","std140_size()","Writer::len()"])
prop("C15","DynamicUniform raises the alignment to at least 256 and changes nothing else",
 "Wrapping any type in DynamicUniform gives alignment max(256, inner alignment), the same size, the same bytes and a lossless conversion back.",
 ["inputs","programs"],"all inner types and values",
 "The wrapper is only tested around f32.",
 ["src/std140/dynamic_uniform.rs","src/internal.rs"],
 [("DynamicUniformStd140::ALIGNMENT","src/std140/dynamic_uniform.rs"),("repr(transparent)","src/std140/dynamic_uniform.rs")],
 observe=["ALIGNMENT","size_of","as_bytes","from_std140"])
prop("C16","GLSL type names match the memory layout of the type",
 "The GLSL name reported by every primitive, bool, math-library type or derived struct names the GLSL type whose layout the std140/std430 form has, and every GLSL primitive type the crate supports has a name.",
 ["programs"],"all types with a GLSL name in every supported math library, both layouts, and all derived structs",
 "Only vec3 and mat2 appear in a snapshot; a wrong name elsewhere compiles and silently reinterprets data in the shader.",
 ["src/glsl.rs","src/std140/primitives.rs","src/std430/primitives.rs","src/util.rs","crevice-derive/src/glsl.rs"],
 [("Glsl::NAME","src/glsl.rs"),("easy_impl!/minty_impl! NAME","src/util.rs")],
 observe=["<T as Glsl>::NAME"])
prop("C17","Generated GLSL lists exactly the struct's members, in order, with their types",
 "For every struct deriving the GLSL definition, the generated text is a GLSL struct with the Rust struct's name whose members are exactly the Rust members in declaration order (hence layout order), each with its GLSL type name and its plain identifier.",
 ["programs"],"all user structs: any number, order, types and names of members (raw identifiers included), nested structs",
 "One two-member snapshot.",
 ["src/glsl.rs","crevice-derive/src/glsl.rs"],
 [("GlslStruct::glsl_definition","src/glsl.rs"),("generated FIELDS/NAME","crevice-derive/src/glsl.rs")],
 observe=["T::glsl_definition()","T::FIELDS","T::NAME"])
prop("C18","The derives reject what they cannot lay out",
 "Deriving a layout or GLSL definition for a tuple struct, unit struct, enum or union, or for a struct with a member that has no layout/GLSL equivalent (8-, 16- and 64-bit integers, characters, strings, pointers, collections, options, tuples, arrays, row-major matrices, quaternions, types without the derive or with only the other layout's), fails to compile.",
 ["programs"],"all item kinds and member types outside the supported set, for all three derives",
 "There are no compile-fail tests.",
 ["crevice-derive/src/layout.rs","crevice-derive/src/glsl.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("match on Data/Fields","crevice-derive/src/layout.rs, crevice-derive/src/glsl.rs"),("trait bounds in generated code","crevice-derive/src/layout.rs")],
 observe=["compiler acceptance of a client crate"])
prop("C19","Derived code compiles and means the same in any client scope",
 "A supported struct derives successfully with the same result wherever it is declared: without the traits imported, with local items or inherent methods of the same names as those the generated code uses, without a prelude, at any visibility, inside functions, with any number of members, and with any member names. (Not meant: scopes that redefine primitive type names, that contain an item with the very name of a generated one, such as Std140Foo next to Foo, or a lower-case constant named like a local variable of the generated code; lints and forbid(unsafe_code).)",
 ["programs"],"all client scopes, visibilities and member names",
 "Every test imports the traits into a plain module with a normal prelude and ordinary member names.",
 ["crevice-derive/src/layout.rs","crevice-derive/src/glsl.rs","src/internal.rs"],
 [("absolute paths in generated code","crevice-derive/src/layout.rs, crevice-derive/src/glsl.rs")],
 observe=["compiler acceptance of a client crate","resulting layout"])
prop("C20","Every advertised math type is supported in both layouts and in GLSL",
 "For mint, cgmath, glam and nalgebra, each supported vector, point and column-matrix type converts to and from both std140 and std430 and has a GLSL name; no type is supported in one layout but not the other.",
 ["configurations","programs"],"all types of all four libraries, both layouts and the GLSL trait",
 "The tables are only compiled; dropping or retargeting an entry breaks no test.",
 ["src/imp/imp_mint.rs","src/imp/imp_cgmath.rs","src/imp/imp_glam.rs","src/imp/imp_nalgebra.rs","src/util.rs","src/glsl.rs"],
 [("easy_impl!/minty_impl! tables","src/imp/")],
 observe=["trait implementations visible to a client crate"])
prop("C21","Feature flags never change a layout or a conversion",
 "Every combination of the std and math-library features (and the derive crate's debug feature) compiles, the crate needs nothing but core when std is off, and sizes, alignments, offsets, conversions and sizer results are identical in all of them. (The client chooses glam's math backend, as glam demands; GlslStruct needs std.)",
 ["configurations"],"all combinations of std, cgmath, glam, nalgebra and the derive debug feature",
 "Tests run only with std, all math libraries and the derive debug feature on; the no_std build is compiled but never tested, and single-library builds are not even compiled.",
 ["src/lib.rs","src/imp.rs","src/std140.rs","src/std430.rs","crevice-derive/src/layout.rs"],
 [("cfg(feature) gates","src/lib.rs, src/imp.rs, src/std140.rs, src/std430.rs"),("cfg!(feature = \"debug-methods\")","crevice-derive/src/layout.rs")],
 observe=["compilation","layouts and conversions per configuration"])
prop("C22","as_bytes is exactly the value's own memory",
 "For every std140/std430 value, as_bytes (the trait method and the method on derived types) returns a slice that starts at the value, is exactly as long as its layout size, and contains its bytes unchanged.",
 ["inputs","programs"],"all values of all layout types, primitive, dynamic and derived",
 "Only the GPU tests look at as_bytes, for a handful of f32 structs.",
 ["src/std140/traits.rs","src/std430/traits.rs","crevice-derive/src/layout.rs"],
 [("Std140::as_bytes/Std430::as_bytes","src/std140/traits.rs, src/std430/traits.rs"),("generated inherent as_bytes","crevice-derive/src/layout.rs")],
 observe=["value.as_bytes()"])
prop("C23","Conversions, sizing and writing never panic",
 "For every value and every realistic buffer length, conversions in both directions, as_bytes, Sizer and Writer operations return normally or with an io error; they never panic.",
 ["inputs","histories","fault_sequences"],"all values, all starting offsets up to isize::MAX minus the value size, all sink outcomes, both layouts",
 "A panic only on some offset, value or sink failure is not reached by the handful of successful writes in the tests.",
 ["src/internal.rs","src/std140/","src/std430/","src/util.rs","src/bool.rs","crevice-derive/src/layout.rs"],
 [("align_offset guards a zero alignment","src/internal.rs"),("? instead of unwrap in writers","src/std140/writer.rs, src/std430/writer.rs")],
 observe=["normal return"])
prop("C24","Every published alignment is a power of two consistent with the type",
 "Every std140/std430 layout type publishes a power-of-two alignment of at least 1; a derived type's alignment is at least that of each member and divides its size.",
 ["programs"],"all layout types of the crate, all derived structs including empty and deeply nested ones",
 "Alignments of eleven structs are asserted; the trait contract (power of two) is unchecked for the rest.",
 ["src/std140/traits.rs","src/std430/traits.rs","crevice-derive/src/layout.rs","src/internal.rs","src/std140/dynamic_uniform.rs"],
 [("max_arr over member alignments","src/internal.rs"),("generated ALIGNMENT","crevice-derive/src/layout.rs")],
 observe=["<T as Std140>::ALIGNMENT","<T as Std430>::ALIGNMENT"])
prop("C25","Consecutive slice elements are spaced like a GLSL array",
 "When a slice of a supported or derived type is written through a Writer, element i starts exactly i times the GLSL array stride of the element type after the first element (std140: stride rounded up to 16; std430: not).",
 ["inputs","programs"],"all supported element types and derived structs, all lengths, both layouts",
 "No test writes a slice and looks at the element offsets.",
 ["src/std140/traits.rs","src/std430/traits.rs","src/std140/writer.rs","src/std430/writer.rs"],
 [("WriteStd140/WriteStd430 for [T]","src/std140/traits.rs, src/std430/traits.rs")],
 observe=["bytes received by the sink"])
prop("C26","A real shader reads back exactly the uploaded values",
 "Data uploaded in std140/std430 form and declared in a shader through the generated GLSL is read by that shader, on any conforming compiler and driver, as the original values.",
 ["inputs","configurations"],"all values, shader compilers and GPU drivers",
 "Six tests run six values through one software driver.",
 ["src/glsl.rs","src/std140/","src/std430/"],
 [("layouts and generated GLSL agree","src/glsl.rs, crevice-derive/src/")],
 observe=["shader output buffer"])
prop("C27","The crate builds on its declared minimum Rust version",
 "Every feature configuration of the crate, and code generated by its derives, compiles with the minimum Rust version it declares.",
 ["configurations"],"all feature combinations on Rust 1.85",
 "The sandbox tests run on one newer stable compiler only.",
 ["Cargo.toml","src/","crevice-derive/src/"],
 [("rust-version","Cargo.toml")],
 observe=["compilation with Rust 1.85"])
prop("C28","Results depend on nothing but the arguments and their types",
 "No function of the crate, and no function its derives generate, reads or changes anything besides its arguments: no global or thread-local state kept between calls, no environment variables (at run time or while compiling), no clock, files, randomness, standard streams or foreign code; the only input/output is through the sink the caller gave to the Writer. The same values therefore give the same bytes, offsets, sizes and text on every call, thread, run and machine.",
 ["inputs","histories","schedules"],"all calls, in any order and from any number of threads, of every function of the crate and of every derived type",
 "A test observes a few calls in one process; state shared between calls, threads or builds shows only in other histories.",
 ["src/","crevice-derive/src/layout.rs","crevice-derive/src/glsl.rs"],
 [("stateless functions and writers that own their offset","src/std140/, src/std430/, src/internal.rs")],
 observe=["any result, called twice or from two threads"])
prop("C29","The derives' output depends on the annotated item alone",
 "Expanding a derive reads nothing besides the tokens of the annotated item: no environment variables, files, clock, state kept between expansions, hash-table order or source position. The same declaration always gives the same layout type and text.",
 ["programs","histories"],"all declarations, in any order of expansion, in every build",
 "Tests expand each declaration once per build and cannot see an expansion differ between builds or between neighbours.",
 ["crevice-derive/src/"],
 [("expansion as a function of the parsed item","crevice-derive/src/lib.rs, layout.rs, glsl.rs")],
 observe=["expansion of the same item in another build, file or order"])
prop("C30","Safe calls never cause undefined behaviour",
 "Conversions in both directions, byte views, writers, sizers, size queries and dynamic-uniform wrappers, called through their safe interface with any values, never access memory outside the values involved, access it misaligned, read or pass on uninitialised bytes, produce a value that is invalid for its type, or break the contract of an unsafe library function.",
 ["inputs","fault_sequences","histories"],"all values, writer offsets and sink outcomes, for all supported and derived types",
 "Undefined behaviour need not show: a read past the end or of uninitialised bytes usually yields plausible data in a test.",
 ["src/std140/","src/std430/","src/bool.rs","src/util.rs","src/internal.rs","crevice-derive/src/layout.rs"],
 [("bytemuck casts instead of raw pointers","src/std140/traits.rs, src/std430/traits.rs, writer.rs"),("zeroed() padding","crevice-derive/src/layout.rs, src/util.rs")],
 observe=["Miri-style monitoring of any safe call"])
prop("C31","Safe client code cannot get round the guarantees",
 "Code that would break a guarantee is rejected by the compiler unless it says `unsafe`: the layout and GLSL traits can only be implemented with `unsafe` and only for Pod types; a conversion's layout type must be one; values without a layout, or of the other layout, cannot be written, sized or wrapped; bytes borrow from their value and a Writer from its sink; a Writer, Sizer or DynamicUniform is no more Send or Sync than what is in it; offsets, Bool words and private layout types cannot be made up. The correct counterpart of each is accepted.",
 ["programs"],"all safe client programs that misuse the public traits, types and functions in one of these ways, both layouts",
 "A test is a program that compiles; what must not compile cannot be one, and no existing test is a compile-fail test.",
 ["src/std140/","src/std430/","src/glsl.rs","src/bool.rs","crevice-derive/src/layout.rs"],
 [("unsafe traits with Pod supertraits","src/std140/traits.rs, src/std430/traits.rs, src/glsl.rs"),("as_bytes borrows self; Writer owns its sink; private fields","src/std140/, src/std430/, crevice-derive/src/layout.rs")],
 observe=["whether client code compiles"])
prop("C32","The interface takes every sink, value, iterator and generic context",
 "Client code written against the public traits alone compiles: a Writer works over any io::Write (owned, borrowed, boxed, trait object, not Send, of any lifetime) and can be stored, sent and passed on; write takes every writable value including unsized ones, write_iter every IntoIterator of writable values with no further demands; generic functions need only AsStd140/Std140/WriteStd140 (or the std430 ones); each trait can be implemented by hand with its required items alone; layout types are Copy, Debug, Send, Sync, Pod and 'static, and usable in constants; the derives accept named structs of any visibility, place, ownership and attribute, also where unsafe code is forbidden. (A member's layout type that is not Debug is a recorded finding.)",
 ["programs","configurations"],"all client programs of these kinds, both layouts",
 "Tests use one sink type, a few values and no generic code; an added bound or a lost auto trait breaks none of them.",
 ["src/std140/","src/std430/","src/glsl.rs","crevice-derive/src/"],
 [("bounds of Writer, Sizer and the traits","src/std140/, src/std430/"),("generated items","crevice-derive/src/layout.rs, glsl.rs")],
 observe=["whether client code compiles"])
prop("C33","A Writer only hands bytes to its sink; everything given is dropped exactly once",
 "Creating a Writer, asking for its length and dropping it call nothing on the sink; a write only hands bytes over and never flushes. The sink is dropped exactly once, with its Writer, whether writes succeeded or failed; write_iter drops the iterator and every value it yields exactly once; conversions neither drop nor forget what they were lent.",
 ["inputs","fault_sequences","histories"],"all values and sinks, success and failure of any write, both layouts",
 "Tests write into a Vec, which cannot tell a flush, a call from new or drop, or a leaked value.",
 ["src/std140/writer.rs","src/std430/writer.rs","src/std140/traits.rs","src/std430/traits.rs"],
 [("Writer { writer, offset } without Drop","src/std140/writer.rs, src/std430/writer.rs"),("write_iter, WriteStd140 for [T]","writer.rs, traits.rs")],
 observe=["calls on the sink","destructors run"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
