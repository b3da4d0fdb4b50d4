// Hostile scopes.  Every `derived__` table lists structs to analyse.
pub mod no_imports {
    DERIVE
    pub struct A {
        pub a: f32,
        b: mint::Vector3<f32>,
        c: bool,
    }
    DERIVE
    pub struct B {
        x: A,
        y: f64,
    }
    pub fn derived__no_imports() -> (A, B) { loop {} }
}
#[no_implicit_prelude]
pub mod bare {
    DERIVEABS
    pub struct A {
        pub a: f32,
        b: ::mint::Vector3<f32>,
        c: bool,
    }
    DERIVEABS
    pub struct B {
        x: A,
        y: f64,
    }
    DERIVEABS
    pub struct E {}
    pub fn derived__bare() -> (A, B, E) { loop {} }
}
pub mod crate_names {
    pub mod core {}
    pub mod std {}
    pub mod alloc {}
    pub mod crevice {
        pub mod internal {}
        pub mod std140 {}
        pub mod std430 {}
        pub mod glsl {}
    }
    pub mod bytemuck {}
    pub mod internal {
        pub const fn align_offset(_: u8) -> u8 { 1 }
        pub const fn max_arr(_: u8) -> u8 { 1 }
    }
    DERIVEABS
    pub struct A {
        pub a: f32,
        b: ::mint::Vector3<f32>,
        c: f64,
    }
    pub fn derived__crate_names() -> (A,) { loop {} }
}
pub mod type_names {
    pub struct Vec3;
    pub struct Vec<T>(T);
    pub struct String;
    pub struct Box;
    pub struct Bool;
    pub struct Writer;
    pub struct Sizer;
    pub struct Std140;
    pub struct Std430;
    pub struct Output;
    pub struct GlslField;
    pub enum Option { Some, None }
    pub enum Result { Ok, Err }
    pub use self::Option::*;
    pub use self::Result::*;
    pub trait Debug {}
    pub trait Clone {}
    pub trait Copy {}
    pub trait Sized {}
    pub trait Default {}
    pub trait Into {}
    pub trait From {}
    pub trait Pod {}
    pub trait Zeroable {}
    pub trait AsStd140 {}
    pub trait AsStd430 {}
    pub trait Glsl {}
    pub trait GlslStruct {}
    pub trait WriteStd140 {}
    pub trait WriteStd430 {}
    DERIVE
    pub struct A {
        pub a: f32,
        b: mint::Vector3<f32>,
        c: bool,
        d: mint::ColumnMatrix3<f32>,
    }
    DERIVE
    pub struct B {
        x: A,
        y: f64,
    }
    pub fn derived__type_names() -> (A, B) { loop {} }
}
pub mod value_names {
    pub const ALIGNMENT: u8 = 3;
    pub const SIZE: u8 = 3;
    pub const NAME: u8 = 3;
    pub static FIELDS: u8 = 3;
    pub const N: u8 = 3;
    pub const fn size_of<T>() -> u8 { 1 }
    pub const fn align_of<T>() -> u8 { 1 }
    pub const fn align_offset(_: u8) -> u8 { 1 }
    pub const fn max_arr(_: u8) -> u8 { 1 }
    pub const fn max(_: u8) -> u8 { 1 }
    pub fn zeroed() {}
    pub fn as_std140() {}
    pub fn as_std430() {}
    pub fn from_std140() {}
    pub fn from_std430() {}
    pub fn as_bytes() {}
    pub fn bytes_of() {}
    pub fn drop() {}
    pub fn transmute() {}
    DERIVE
    pub struct A {
        pub a: f32,
        b: mint::Vector3<f32>,
        c: bool,
        d: f64,
    }
    DERIVE
    pub struct B {
        x: A,
        y: f64,
        z: A,
    }
    pub fn derived__value_names() -> (A, B) { loop {} }
}
pub mod macro_names {
    macro_rules! stringify { ($($t:tt)*) => { compile_error!("local stringify") } }
    macro_rules! concat { ($($t:tt)*) => { compile_error!("local concat") } }
    macro_rules! format { ($($t:tt)*) => { compile_error!("local format") } }
    macro_rules! panic { ($($t:tt)*) => { compile_error!("local panic") } }
    macro_rules! assert { ($($t:tt)*) => { compile_error!("local assert") } }
    macro_rules! debug_assert { ($($t:tt)*) => { compile_error!("local debug_assert") } }
    macro_rules! vec { ($($t:tt)*) => { compile_error!("local vec") } }
    macro_rules! matches { ($($t:tt)*) => { compile_error!("local matches") } }
    macro_rules! offset_of { ($($t:tt)*) => { compile_error!("local offset_of") } }
    macro_rules! unreachable { ($($t:tt)*) => { compile_error!("local unreachable") } }
    DERIVE
    pub struct A {
        pub a: f32,
        b: mint::Vector3<f32>,
        c: f64,
    }
    pub fn derived__macro_names() -> (A,) { loop {} }
}
pub mod blanket {
    // methods and associated items of the same names on every type
    pub trait Methods {
        const ALIGNMENT: u8 = 9;
        const NAME: u8 = 9;
        const FIELDS: u8 = 9;
        const SIZE: u8 = 9;
        fn as_std140(&self) -> u8 { 1 }
        fn as_std430(&self) -> u8 { 1 }
        fn from_std140(self) -> u8 where Self: Sized { 1 }
        fn from_std430(self) -> u8 where Self: Sized { 1 }
        fn as_bytes(&self) -> u8 { 1 }
        fn write_std140(&self) -> u8 { 1 }
        fn write_std430(&self) -> u8 { 1 }
        fn std140_size(&self) -> u8 { 1 }
        fn std430_size(&self) -> u8 { 1 }
        fn std140_size_static() -> u8 { 1 }
        fn std430_size_static() -> u8 { 1 }
        fn glsl_definition() -> u8 { 1 }
        fn zeroed() -> u8 { 1 }
        fn clone(&self) -> u8 { 1 }
        fn fmt(&self) -> u8 { 1 }
        fn into(&self) -> u8 { 1 }
        fn from(&self) -> u8 { 1 }
        fn eq(&self) -> u8 { 1 }
        fn borrow(&self) -> u8 { 1 }
    }
    impl<T: ?Sized> Methods for T {}
    DERIVE
    pub struct A {
        pub a: f32,
        b: mint::Vector3<f32>,
        c: bool,
        d: mint::ColumnMatrix2<f64>,
    }
    DERIVE
    pub struct B {
        x: A,
        y: f64,
        z: A,
    }
    pub fn derived__blanket() -> (A, B) { loop {} }
}
pub mod inherent {
    DERIVE
    pub struct A {
        pub a: f32,
        b: mint::Vector3<f32>,
        c: bool,
    }
    impl A {
        pub const ALIGNMENT: u8 = 77;
        pub const NAME: u8 = 77;
        pub const FIELDS: u8 = 77;
        pub const SIZE: usize = 77;
        pub fn as_std140(&self) -> u8 { 1 }
        pub fn as_std430(&self) -> u8 { 1 }
        pub fn from_std140(_: u8) -> u8 { 1 }
        pub fn from_std430(_: u8) -> u8 { 1 }
        pub fn std140_size_static() -> u8 { 1 }
        pub fn std430_size_static() -> u8 { 1 }
        pub fn as_bytes(&self) -> u8 { 1 }
        pub fn clone(&self) -> u8 { 1 }
        pub fn zeroed() -> u8 { 1 }
        pub fn into(&self) -> u8 { 1 }
        pub fn glsl_definition() -> u8 { 1 }
    }
    DERIVE
    pub struct B {
        x: A,
        y: f64,
        z: A,
    }
    impl std::ops::Add for B {
        type Output = u8;
        fn add(self, _: B) -> u8 { 1 }
    }
    impl std::ops::Deref for B {
        type Target = A;
        fn deref(&self) -> &A { &self.x }
    }
    impl IntoIterator for B {
        type Item = u8;
        type IntoIter = std::iter::Empty<u8>;
        fn into_iter(self) -> std::iter::Empty<u8> { std::iter::empty() }
    }
    DERIVE
    pub struct C {
        a: f32,
        b: B,
        c: mint::Vector2<f32>,
    }
    impl Drop for C {
        fn drop(&mut self) {}
    }
    pub fn derived__inherent() -> (A, B, C) { loop {} }
}
pub mod imports {
    use crevice::glsl::GlslStruct;
    use crevice::std140::AsStd140;
    use crevice::std430::AsStd430;
    use crevice::std140::AsStd140 as Renamed;
    #[derive(AsStd140, AsStd430, GlslStruct)]
    pub struct A {
        a: f32,
        b: mint::Vector3<f32>,
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    #[derive(Renamed)]
    #[derive(Default, AsStd430)]
    #[derive(GlslStruct)]
    pub struct B {
        a: f32,
        b: bool,
        c: f64,
    }
    #[derive(GlslStruct, Debug, AsStd430, Clone, AsStd140)]
    #[repr(C, align(64))]
    pub struct Aligned {
        a: f32,
        b: f64,
    }
    pub fn derived__imports() -> (A, B, Aligned) { loop {} }
    pub mod globs {
        use super::*;
        use crevice::std140::*;
        use mint::*;
        #[derive(AsStd140, AsStd430, GlslStruct)]
        pub struct A {
            a: f32,
            b: mint::Vector3<f32>,
            c: super::A,
            d: ColumnMatrix3<f32>,
        }
        pub fn derived__globs() -> (A,) { loop {} }
    }
    pub mod globs430 {
        use crevice::std140::*;
        use crevice::std430::*;
        use crevice::glsl::*;
        use cgmath::*;
        DERIVE
        pub struct A {
            a: f32,
            b: cgmath::Vector3<f32>,
            d: Matrix3<f32>,
        }
        pub fn derived__globs430() -> (A,) { loop {} }
    }
}
pub mod visibility {
    DERIVE
    struct Private {
        a: f32,
        b: mint::Vector3<f32>,
    }
    DERIVE
    pub(crate) struct InCrate {
        pub(self) a: Private,
        pub(super) b: f32,
        pub c: f64,
    }
    DERIVE
    pub(super) struct InSuper {
        a: InCrate,
        pub(crate) b: f32,
    }
    DERIVE
    pub(in crate::visibility) struct InPath {
        pub(in crate::visibility) a: f32,
        b: InSuper,
    }
    DERIVE
    pub struct Public {
        pub a: f32,
        b: f64,
    }
    mod inner {
        DERIVE
        pub struct Unreachable {
            pub a: f32,
            b: super::Public,
        }
        DERIVE
        pub(super) struct ToParent {
            pub(super) a: super::Private,
            b: Unreachable,
        }
        pub(super) fn derived__inner() -> (Unreachable, ToParent) { loop {} }
    }
    fn derived__visibility() -> (Private, InCrate, InSuper, InPath, Public) { loop {} }
}
pub fn in_function(x: u32) -> u32 {
    DERIVE
    struct Local {
        a: f32,
        b: mint::Vector3<f32>,
    }
    fn derived__in_function() -> (Local,) { loop {} }
    if x > 0 {
        DERIVE
        struct Local {
            b: mint::Vector3<f64>,
            a: f32,
        }
        fn derived__in_block() -> (Local,) { loop {} }
    }
    let f = || {
        DERIVE
        pub struct InClosure {
            a: f32,
            b: f64,
            c: mint::Vector2<f32>,
        }
        pub fn derived__in_closure() -> (InClosure,) { loop {} }
    };
    f();
    x
}
pub struct Holder;
impl Holder {
    pub fn method(&self) {
        DERIVE
        struct InMethod {
            a: f32,
            b: mint::Vector3<f32>,
            c: f64,
        }
        fn derived__in_method() -> (InMethod,) { loop {} }
    }
}
pub fn generic<T: Copy, const K: usize>(t: T) -> T {
    DERIVE
    struct InGeneric {
        a: f32,
        b: mint::Vector4<f32>,
        c: bool,
    }
    fn derived__in_generic() -> (InGeneric,) { loop {} }
    t
}
pub const IN_CONST: usize = {
    DERIVE
    pub struct InConst {
        a: f32,
        b: mint::Vector3<f32>,
    }
    pub fn derived__in_const() -> (InConst,) { loop {} }
    3
};
const _: () = {
    DERIVE
    pub struct InAnonymous {
        a: f64,
        b: mint::Vector3<f32>,
    }
    pub fn derived__in_anonymous() -> (InAnonymous,) { loop {} }
};
pub mod by_macro {
    // every token of the struct comes from another place
    macro_rules! whole {
        ($vis:vis $name:ident { $($f:ident : $t:ty),* $(,)? }) => {
            DERIVE
            $vis struct $name { $($f: $t),* }
        };
    }
    whole!(pub A { a: f32, b: mint::Vector3<f32>, c: f64 });
    whole!(pub B { input: A, offset: f32, alignment: f64, starting_offset: bool });
    macro_rules! hygienic {
        ($name:ident) => {
            DERIVE
            pub struct $name { a: f32, input: mint::Vector3<f32>, offset: f64, value: bool }
        };
    }
    hygienic!(C);
    macro_rules! per_field {
        ($($name:ident $t:ty),*) => { $(
            DERIVE
            pub struct $name { pub only: $t, pub more: $t }
        )* };
    }
    per_field!(D f32, E mint::Vector3<f32>, F bool, G A);
    pub fn derived__by_macro() -> (A, B, C, D, E, F, G) { loop {} }
}
pub mod same_names {
    pub mod a {
        DERIVE
        pub struct Same { a: f32 }
        pub fn derived__a() -> (Same,) { loop {} }
    }
    pub mod b {
        DERIVE
        pub struct Same { a: f64, b: super::a::Same }
        pub fn derived__b() -> (Same,) { loop {} }
    }
    DERIVE
    pub struct Same { a: b::Same, c: f32, b: a::Same }
    DERIVE
    pub struct Pad { a: f32, b: f64 }
    DERIVE
    pub struct _Pad { a: f32, b: f64 }
    DERIVE
    pub struct Pad1 { a: f32, b: f64 }
    pub fn derived__same() -> (Same, Pad, _Pad, Pad1) { loop {} }
}
