/// Values a client could define; never run.
pub mod hand {
    use crate::probe::*;
    use crevice::std140::{self, AsStd140, DynamicUniform, Std140, WriteStd140};
    use crevice::std430::{self, AsStd430, Std430, WriteStd430};
    use std::io::{self, Write};

    /// A layout type with an alignment above 256.
    #[derive(Clone, Copy)]
    #[repr(transparent)]
    pub struct Align512(pub u32);
    unsafe impl bytemuck::Zeroable for Align512 {}
    unsafe impl bytemuck::Pod for Align512 {}
    unsafe impl Std140 for Align512 {
        const ALIGNMENT: usize = 512;
    }

    unsafe impl Std430 for Align512 {
        const ALIGNMENT: usize = 512;
    }

    /// No bytes, but an alignment.
    #[derive(Clone, Copy)]
    #[repr(C)]
    pub struct Zero16;
    unsafe impl bytemuck::Zeroable for Zero16 {}
    unsafe impl bytemuck::Pod for Zero16 {}
    unsafe impl Std140 for Zero16 {
        const ALIGNMENT: usize = 16;
    }
    unsafe impl Std430 for Zero16 {
        const ALIGNMENT: usize = 16;
    }

    /// A size that is no multiple of the alignment, and an alignment below that of its words.
    #[derive(Clone, Copy)]
    #[repr(C)]
    pub struct Five(pub [u32; 5]);
    unsafe impl bytemuck::Zeroable for Five {}
    unsafe impl bytemuck::Pod for Five {}
    unsafe impl Std140 for Five {
        const ALIGNMENT: usize = 64;
    }
    unsafe impl Std430 for Five {
        const ALIGNMENT: usize = 1;
    }
    /// More bytes than the alignment of a dynamic uniform, and no power of two.
    #[derive(Clone, Copy)]
    #[repr(C)]
    pub struct Large(pub [u32; 75]);
    unsafe impl bytemuck::Zeroable for Large {}
    unsafe impl bytemuck::Pod for Large {}
    unsafe impl Std140 for Large {
        const ALIGNMENT: usize = 4;
    }
    unsafe impl Std430 for Large {
        const ALIGNMENT: usize = 4;
    }
    pub fn layouts() -> (Align512, Zero16, Five, Large) {
        loop {}
    }

    pub fn dyn_marker() -> (DynamicUniform<f32>, std140::DynamicUniformStd140<f32>) {
        loop {}
    }
    pub fn big_align() -> (Align512, Zero16, Five, Large) {
        loop {}
    }

    /// Types a client converts by hand: same size as the layout form but other bytes, smaller, larger, and converted to a derived form.
    #[derive(Clone, Copy)]
    #[repr(C)]
    pub struct Swapped(pub u32, pub u32);
    #[derive(Clone, Copy)]
    pub struct Narrow(pub u32, pub bool);
    #[derive(Clone, Copy)]
    pub struct Wide(pub [f64; 3], pub f32);
    #[derive(Clone, Copy, std140::AsStd140, std430::AsStd430)]
    pub struct Inner {
        pub a: f32,
        pub b: mint::Vector2<f32>,
    }
    #[derive(Clone, Copy)]
    pub struct Around(pub mint::Vector2<f32>, pub f32);
    macro_rules! by_hand {
        ($module:ident, $As:ident, $as:ident, $from:ident) => {
            impl $module::$As for Swapped {
                type Output = $module::UVec2;
                fn $as(&self) -> Self::Output {
                    $module::UVec2 { x: self.1, y: !self.0 }
                }
                fn $from(v: Self::Output) -> Self {
                    Swapped(!v.y, v.x)
                }
            }
            impl $module::$As for Narrow {
                type Output = $module::UVec3;
                fn $as(&self) -> Self::Output {
                    $module::UVec3 { x: self.1 as u32, y: self.0, z: 7, ..bytemuck::Zeroable::zeroed() }
                }
                fn $from(v: Self::Output) -> Self {
                    Narrow(v.y, v.x != 0)
                }
            }
            impl $module::$As for Wide {
                type Output = f32;
                fn $as(&self) -> Self::Output {
                    self.1
                }
                fn $from(v: Self::Output) -> Self {
                    Wide([0.0; 3], v)
                }
            }
            impl $module::$As for Around {
                type Output = <Inner as $module::$As>::Output;
                fn $as(&self) -> Self::Output {
                    Inner { a: self.1, b: self.0 }.$as()
                }
                fn $from(v: Self::Output) -> Self {
                    let i = Inner::$from(v);
                    Around(i.b, i.a)
                }
            }
        };
    }
    by_hand!(std140, AsStd140, as_std140, from_std140);
    by_hand!(std430, AsStd430, as_std430, from_std430);
    pub fn converted() -> (Swapped, Narrow, Wide, Around) {
        loop {}
    }

    /// Writable by hand: several values per item.
    #[derive(Clone, Copy)]
    pub struct Two(pub f32, pub mint::Vector3<f32>);
    impl WriteStd140 for Two {
        fn write_std140<W: Write>(&self, w: &mut std140::Writer<W>) -> io::Result<usize> {
            let at = w.write(&self.0)?;
            w.write(&self.1)?;
            Ok(at)
        }
    }
    impl WriteStd430 for Two {
        fn write_std430<W: Write>(&self, w: &mut std430::Writer<W>) -> io::Result<usize> {
            let at = w.write(&self.0)?;
            w.write(&self.1)?;
            Ok(at)
        }
    }

    /// Writes nothing at all.
    #[derive(Clone, Copy)]
    pub struct Nothing;
    impl WriteStd140 for Nothing {
        fn write_std140<W: Write>(&self, w: &mut std140::Writer<W>) -> io::Result<usize> {
            Ok(w.len())
        }
    }
    impl WriteStd430 for Nothing {
        fn write_std430<W: Write>(&self, w: &mut std430::Writer<W>) -> io::Result<usize> {
            Ok(w.len())
        }
    }

    /// A nested run of values.
    #[derive(Clone, Copy)]
    pub struct Run(pub [mint::Vector2<f32>; 3], pub f64);
    impl WriteStd140 for Run {
        fn write_std140<W: Write>(&self, w: &mut std140::Writer<W>) -> io::Result<usize> {
            let at = w.write(&self.0[..])?;
            w.write_iter(self.0.iter().copied())?;
            w.write(&self.1)?;
            Ok(at)
        }
    }
    impl WriteStd430 for Run {
        fn write_std430<W: Write>(&self, w: &mut std430::Writer<W>) -> io::Result<usize> {
            let at = w.write(&self.0[..])?;
            w.write_iter(self.0.iter().copied())?;
            w.write(&self.1)?;
            Ok(at)
        }
    }

    /// What is written, and how much, depends on the value.
    #[derive(Clone, Copy)]
    pub struct Vary(pub bool, pub bool, pub f32, pub mint::Vector3<f32>);
    macro_rules! vary {
        ($module:ident, $trait:ident, $f:ident) => {
            impl $module::$trait for Vary {
                fn $f<W: Write>(&self, w: &mut $module::Writer<W>) -> io::Result<usize> {
                    let at = if self.0 { w.write(&self.3)? } else { w.len() };
                    if self.1 {
                        w.write(&[self.2, self.2][..])?;
                    }
                    Ok(at)
                }
            }
        };
    }
    vary!(std140, WriteStd140, write_std140);
    vary!(std430, WriteStd430, write_std430);
    pub fn writables() -> (Two, Nothing, Run, Vary) {
        loop {}
    }

    #[allow(deprecated)]
    pub fn write_slice<T: AsStd140>(w: &mut std140::Writer<OkSink>, x: &[T]) {
        let r = w.write_slice(x);
        let k = outcome(r);
        val(20, w.len());
    }
    #[allow(deprecated)]
    pub fn fault_write_slice<T: AsStd140>(w: &mut std140::Writer<FaultSink>, x: &[T]) {
        let r = w.write_slice(x);
        let k = outcome(r);
        val(20, w.len());
    }

    /// Types that must not become plain data by being wrapped.
    #[derive(Clone, Copy)]
    pub struct NotPod(bool);
    pub fn not_pod() -> (NotPod, bool, &'static u8) {
        loop {}
    }
}
