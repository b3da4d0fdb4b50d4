// GLSL type -> the Rust types that must represent it.  The function name is the oracle's GLSL type.
pub fn glsl__float() -> (f32,) { loop {} }
pub fn std140__float() -> (f32,) { loop {} }
pub fn std430__float() -> (f32,) { loop {} }
pub fn glsl__double() -> (f64,) { loop {} }
pub fn std140__double() -> (f64,) { loop {} }
pub fn std430__double() -> (f64,) { loop {} }
pub fn glsl__int() -> (i32,) { loop {} }
pub fn std140__int() -> (i32,) { loop {} }
pub fn std430__int() -> (i32,) { loop {} }
pub fn glsl__uint() -> (u32,) { loop {} }
pub fn std140__uint() -> (u32,) { loop {} }
pub fn std430__uint() -> (u32,) { loop {} }
pub fn glsl__bool() -> (bool,) { loop {} }
pub fn std140__bool() -> (crevice::std140::Bool,) { loop {} }
pub fn std430__bool() -> (crevice::std430::Bool,) { loop {} }
pub fn glsl__vec2() -> (mint::Vector2<f32>, cgmath::Vector2<f32>, nalgebra::Vector2<f32>, mint::Point2<f32>, cgmath::Point2<f32>, nalgebra::Point2<f32>, glam::Vec2,) { loop {} }
pub fn std140__vec2() -> (crevice::std140::Vec2,) { loop {} }
pub fn std430__vec2() -> (crevice::std430::Vec2,) { loop {} }
pub fn glsl__vec3() -> (mint::Vector3<f32>, cgmath::Vector3<f32>, nalgebra::Vector3<f32>, mint::Point3<f32>, cgmath::Point3<f32>, nalgebra::Point3<f32>, glam::Vec3,) { loop {} }
pub fn std140__vec3() -> (crevice::std140::Vec3,) { loop {} }
pub fn std430__vec3() -> (crevice::std430::Vec3,) { loop {} }
pub fn glsl__vec4() -> (mint::Vector4<f32>, cgmath::Vector4<f32>, nalgebra::Vector4<f32>, glam::Vec4,) { loop {} }
pub fn std140__vec4() -> (crevice::std140::Vec4,) { loop {} }
pub fn std430__vec4() -> (crevice::std430::Vec4,) { loop {} }
pub fn glsl__dvec2() -> (mint::Vector2<f64>, cgmath::Vector2<f64>, nalgebra::Vector2<f64>, mint::Point2<f64>, cgmath::Point2<f64>, nalgebra::Point2<f64>, glam::DVec2,) { loop {} }
pub fn std140__dvec2() -> (crevice::std140::DVec2,) { loop {} }
pub fn std430__dvec2() -> (crevice::std430::DVec2,) { loop {} }
pub fn glsl__dvec3() -> (mint::Vector3<f64>, cgmath::Vector3<f64>, nalgebra::Vector3<f64>, mint::Point3<f64>, cgmath::Point3<f64>, nalgebra::Point3<f64>, glam::DVec3,) { loop {} }
pub fn std140__dvec3() -> (crevice::std140::DVec3,) { loop {} }
pub fn std430__dvec3() -> (crevice::std430::DVec3,) { loop {} }
pub fn glsl__dvec4() -> (mint::Vector4<f64>, cgmath::Vector4<f64>, nalgebra::Vector4<f64>, glam::DVec4,) { loop {} }
pub fn std140__dvec4() -> (crevice::std140::DVec4,) { loop {} }
pub fn std430__dvec4() -> (crevice::std430::DVec4,) { loop {} }
pub fn glsl__ivec2() -> (mint::Vector2<i32>, cgmath::Vector2<i32>, nalgebra::Vector2<i32>, mint::Point2<i32>, cgmath::Point2<i32>, nalgebra::Point2<i32>, glam::IVec2,) { loop {} }
pub fn std140__ivec2() -> (crevice::std140::IVec2,) { loop {} }
pub fn std430__ivec2() -> (crevice::std430::IVec2,) { loop {} }
pub fn glsl__ivec3() -> (mint::Vector3<i32>, cgmath::Vector3<i32>, nalgebra::Vector3<i32>, mint::Point3<i32>, cgmath::Point3<i32>, nalgebra::Point3<i32>, glam::IVec3,) { loop {} }
pub fn std140__ivec3() -> (crevice::std140::IVec3,) { loop {} }
pub fn std430__ivec3() -> (crevice::std430::IVec3,) { loop {} }
pub fn glsl__ivec4() -> (mint::Vector4<i32>, cgmath::Vector4<i32>, nalgebra::Vector4<i32>, glam::IVec4,) { loop {} }
pub fn std140__ivec4() -> (crevice::std140::IVec4,) { loop {} }
pub fn std430__ivec4() -> (crevice::std430::IVec4,) { loop {} }
pub fn glsl__uvec2() -> (mint::Vector2<u32>, cgmath::Vector2<u32>, nalgebra::Vector2<u32>, mint::Point2<u32>, cgmath::Point2<u32>, nalgebra::Point2<u32>, glam::UVec2,) { loop {} }
pub fn std140__uvec2() -> (crevice::std140::UVec2,) { loop {} }
pub fn std430__uvec2() -> (crevice::std430::UVec2,) { loop {} }
pub fn glsl__uvec3() -> (mint::Vector3<u32>, cgmath::Vector3<u32>, nalgebra::Vector3<u32>, mint::Point3<u32>, cgmath::Point3<u32>, nalgebra::Point3<u32>, glam::UVec3,) { loop {} }
pub fn std140__uvec3() -> (crevice::std140::UVec3,) { loop {} }
pub fn std430__uvec3() -> (crevice::std430::UVec3,) { loop {} }
pub fn glsl__uvec4() -> (mint::Vector4<u32>, cgmath::Vector4<u32>, nalgebra::Vector4<u32>, glam::UVec4,) { loop {} }
pub fn std140__uvec4() -> (crevice::std140::UVec4,) { loop {} }
pub fn std430__uvec4() -> (crevice::std430::UVec4,) { loop {} }
pub fn glsl__bvec2() -> (mint::Vector2<bool>, cgmath::Vector2<bool>, nalgebra::Vector2<bool>, mint::Point2<bool>, cgmath::Point2<bool>, nalgebra::Point2<bool>,) { loop {} }
pub fn std140__bvec2() -> (crevice::std140::BVec2,) { loop {} }
pub fn std430__bvec2() -> (crevice::std430::BVec2,) { loop {} }
pub fn glsl__bvec3() -> (mint::Vector3<bool>, cgmath::Vector3<bool>, nalgebra::Vector3<bool>, mint::Point3<bool>, cgmath::Point3<bool>, nalgebra::Point3<bool>,) { loop {} }
pub fn std140__bvec3() -> (crevice::std140::BVec3,) { loop {} }
pub fn std430__bvec3() -> (crevice::std430::BVec3,) { loop {} }
pub fn glsl__bvec4() -> (mint::Vector4<bool>, cgmath::Vector4<bool>, nalgebra::Vector4<bool>,) { loop {} }
pub fn std140__bvec4() -> (crevice::std140::BVec4,) { loop {} }
pub fn std430__bvec4() -> (crevice::std430::BVec4,) { loop {} }
pub fn glsl__mat2() -> (mint::ColumnMatrix2<f32>, cgmath::Matrix2<f32>, nalgebra::Matrix2<f32>, glam::Mat2,) { loop {} }
pub fn std140__mat2() -> (crevice::std140::Mat2,) { loop {} }
pub fn std430__mat2() -> (crevice::std430::Mat2,) { loop {} }
pub fn glsl__mat3() -> (mint::ColumnMatrix3<f32>, cgmath::Matrix3<f32>, nalgebra::Matrix3<f32>, glam::Mat3,) { loop {} }
pub fn std140__mat3() -> (crevice::std140::Mat3,) { loop {} }
pub fn std430__mat3() -> (crevice::std430::Mat3,) { loop {} }
pub fn glsl__mat4() -> (mint::ColumnMatrix4<f32>, cgmath::Matrix4<f32>, nalgebra::Matrix4<f32>, glam::Mat4,) { loop {} }
pub fn std140__mat4() -> (crevice::std140::Mat4,) { loop {} }
pub fn std430__mat4() -> (crevice::std430::Mat4,) { loop {} }
pub fn glsl__dmat2() -> (mint::ColumnMatrix2<f64>, cgmath::Matrix2<f64>, nalgebra::Matrix2<f64>, glam::DMat2,) { loop {} }
pub fn std140__dmat2() -> (crevice::std140::DMat2,) { loop {} }
pub fn std430__dmat2() -> (crevice::std430::DMat2,) { loop {} }
pub fn glsl__dmat3() -> (mint::ColumnMatrix3<f64>, cgmath::Matrix3<f64>, nalgebra::Matrix3<f64>, glam::DMat3,) { loop {} }
pub fn std140__dmat3() -> (crevice::std140::DMat3,) { loop {} }
pub fn std430__dmat3() -> (crevice::std430::DMat3,) { loop {} }
pub fn glsl__dmat4() -> (mint::ColumnMatrix4<f64>, cgmath::Matrix4<f64>, nalgebra::Matrix4<f64>, glam::DMat4,) { loop {} }
pub fn std140__dmat4() -> (crevice::std140::DMat4,) { loop {} }
pub fn std430__dmat4() -> (crevice::std430::DMat4,) { loop {} }
