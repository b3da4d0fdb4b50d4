// Ways to write a struct and its members.  `//@derived` lists the types to analyse.
pub mod somewhere {
    DERIVE
    pub struct Inner {
        pub a: mint::Vector2<f32>,
        pub(crate) b: mint::Vector3<f32>,
    }
    pub type Alias = mint::Vector3<f64>;
    pub mod deeper {
        DERIVE
        pub(in crate::somewhere) struct Hidden {
            pub(super) v: super::Inner,
            w: super::Alias,
        }
        DERIVE
        pub struct Public {
            a: super::Inner,
            b: crate::somewhere::Inner,
            c: f32,
        }
    }
}
//@derived somewhere::Inner
//@derived somewhere::deeper::Public
pub type V3 = mint::Vector3<f32>;
pub type Generic<T> = mint::Vector2<T>;
pub trait Assoc {
    type T;
}
impl Assoc for f32 {
    type T = mint::Vector4<f32>;
}
macro_rules! vec3_ty {
    () => {
        mint::Vector3<f32>
    };
}
macro_rules! declare {
    ($name:ident, $f:ident, $t:ty, $v:vis) => {
        DERIVE
        $v struct $name {
            $v $f: $t,
            $v after: f32,
        }
    };
}
declare!(FromMacro, field, mint::Vector3<f32>, pub);
declare!(FromMacro2, r#type, Generic<f64>, pub(crate));
//@derived FromMacro
//@derived FromMacro2

DERIVE
pub struct Paths {
    pub a: V3,
    pub b: Generic<f64>,
    pub c: <f32 as Assoc>::T,
    pub d: vec3_ty!(),
    pub e: (f32),
    pub f: ::mint::Vector3<f32>,
    pub g: self::somewhere::Alias,
    pub h: crate::somewhere::Inner,
    pub i: std::primitive::f32,
    pub j: core::primitive::bool,
}
//@derived Paths

/// Documented.
DERIVE
#[derive(Debug, Clone, Copy, PartialEq, Default)]
#[repr(C)]
#[allow(non_snake_case)]
pub struct Attributes {
    /// A member.
    #[allow(unused)]
    pub Upper: f32,
    #[doc = "another"]
    #[cfg(all())]
    pub snake_case_name: f64,
    #[cfg(any())]
    pub gone: String,
    pub x: bool,
    pub _unused: u32,
    pub __double: i32,
}
//@derived Attributes

DERIVE
pub struct RawNames {
    pub r#type: f32,
    pub r#match: mint::Vector3<f32>,
    pub r#fn: f64,
    pub r#struct: bool,
    pub r#move: mint::Vector2<f32>,
}
//@derived RawNames
DERIVE
#[allow(non_camel_case_types)]
pub struct r#struct {
    pub a: f32,
    pub r#in: mint::Vector3<f32>,
}
//@derived r#struct

// Names the generated code might use itself.
DERIVE
pub struct Clashes {
    pub input: f32,
    pub value: mint::Vector3<f32>,
    pub padding: f32,
    pub _pad0: f64,
    pub _pad1: f32,
    pub pad: f32,
    pub alignment: mint::Vector2<f32>,
    pub starting_offset: f32,
    pub size: f64,
    pub offset: f32,
    pub fields: bool,
    pub zeroed: f32,
    pub as_std140: mint::Vector3<f32>,
    pub from_std140: f32,
    pub as_std430: f32,
    pub from_std430: f64,
    pub as_bytes: f32,
    pub Output: f32,
    pub ALIGNMENT: u32,
    pub NAME: i32,
    pub FIELDS: f64,
    pub result: f32,
    pub output: f32,
    pub self_: f32,
    pub x: f32,
    pub writer: f32,
}
//@derived Clashes
DERIVE
pub struct PaddingNames {
    pub _pad0: f32,
    pub _pad1: mint::Vector3<f32>,
    pub _padding: f32,
    pub _pad2: f64,
    pub pad0: f32,
    pub __pad0: mint::Vector3<f32>,
    pub _Pad0: f32,
    pub _pad_0: f32,
    pub _padding0: f64,
}
//@derived PaddingNames

// Names that look like the generated ones.
DERIVE
pub struct Std140 {
    pub a: f32,
    pub b: mint::Vector3<f32>,
}
//@derived Std140
DERIVE
pub struct Pad0 {
    pub a: f32,
    pub b: Std140,
}
//@derived Pad0
DERIVE
pub struct Vec3 {
    pub x: f64,
    pub y: f32,
}
//@derived Vec3
DERIVE
pub struct Mat4 {
    pub x: Vec3,
    pub y: f32,
}
//@derived Mat4
DERIVE
pub struct lower_case {
    pub x: f32,
}
//@derived lower_case
DERIVE
pub struct Numbered1 {
    pub m1: f32,
    pub m10: f64,
    pub m2: mint::Vector3<f32>,
}
//@derived Numbered1
DERIVE
pub struct Numbered10 {
    pub m2: Numbered1,
    pub m1: f32,
}
//@derived Numbered10
DERIVE
pub struct Unicode {
    pub größe: f32,
    pub 名前: mint::Vector3<f32>,
}
//@derived Unicode

// Layout types as members.
#[derive(crevice::std140::AsStd140)]
pub struct Of140 {
    pub a: crevice::std140::Vec2,
    pub b: crevice::std140::Vec3,
    pub c: f32,
    pub d: crevice::std140::Mat3,
    pub e: crevice::std140::Bool,
    pub f: crevice::std140::BVec3,
    pub g: f64,
    pub h: crevice::std140::DMat4,
}
//@140 Of140
#[derive(crevice::std430::AsStd430)]
pub struct Of430 {
    pub a: crevice::std430::Vec2,
    pub b: crevice::std430::Vec3,
    pub c: f32,
    pub d: crevice::std430::Mat3,
    pub e: crevice::std430::Bool,
    pub f: crevice::std430::BVec3,
    pub g: f64,
    pub h: crevice::std430::Mat2,
    pub i: f32,
}
//@430 Of430
#[derive(crevice::std140::AsStd140)]
pub struct Dynamic {
    pub a: f32,
    pub b: crevice::std140::DynamicUniform<mint::Vector3<f32>>,
    pub c: f32,
    pub d: crevice::std140::DynamicUniform<N12>,
    pub e: f64,
}
//@140 Dynamic
#[derive(crevice::std140::AsStd140)]
pub struct Only140 {
    pub a: f32,
    pub b: mint::Vector2<f32>,
}
//@140 Only140
#[derive(crevice::std430::AsStd430)]
pub struct Only430 {
    pub a: f32,
    pub b: mint::Vector2<f32>,
}
//@430 Only430

// Members in an order that pads everywhere, and one that pads nowhere.
DERIVE
pub struct Sparse {
    pub a: bool,
    pub b: mint::Vector4<f64>,
    pub c: bool,
    pub d: mint::ColumnMatrix3<f64>,
    pub e: f32,
    pub f: N12,
    pub g: f32,
    pub h: mint::ColumnMatrix2<f32>,
    pub i: f32,
}
//@derived Sparse
DERIVE
pub struct Dense {
    pub a: mint::Vector4<f64>,
    pub b: mint::Vector4<f32>,
    pub c: mint::Vector3<f32>,
    pub d: f32,
    pub e: f64,
    pub f: mint::Vector2<f32>,
}
//@derived Dense
// nesting
DERIVE
pub struct D1 {
    pub a: f32,
}
DERIVE
pub struct D2 {
    pub a: D1,
    pub b: f32,
}
DERIVE
pub struct D3 {
    pub a: f64,
    pub b: D2,
    pub c: D1,
}
DERIVE
pub struct D4 {
    pub a: D3,
    pub b: f32,
    pub c: D3,
    pub d: bool,
}
DERIVE
pub struct D5 {
    pub a: bool,
    pub b: D4,
    pub c: D1,
    pub d: D4,
}
//@derived D4
//@derived D5
DERIVE
pub struct EmptyStruct {}
DERIVE
pub struct HoldsEmpty {
    pub a: f32,
    pub b: EmptyStruct,
    pub c: mint::Vector2<f32>,
}
//@derived EmptyStruct
//@derived HoldsEmpty
