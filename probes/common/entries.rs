macro_rules! entries {
    ($module:ident, $std:ident, $As:ident, $Std:ident, $Write:ident, $as:ident, $from:ident, $wstd:ident, $size:ident, $size_static:ident) => {
        pub mod $module {
            use crate::probe::*;
            use crevice::$std::{$As, $Std, Sizer};
            // std
            use crevice::$std::{$Write, Writer};
            // end

            pub fn to<T: $As>(x: &T) -> T::Output {
                x.$as()
            }
            pub fn from<T: $As>(x: T::Output) -> T {
                T::$from(x)
            }
            pub fn rt<T: $As>(x: &T) -> T {
                T::$from(x.$as())
            }
            pub fn align<T: $As>() -> usize {
                <T::Output as $Std>::ALIGNMENT
            }
            pub fn align_of_layout<L: $Std>() -> usize {
                <L as $Std>::ALIGNMENT
            }
            pub fn size_static<T: $As>() -> usize {
                <T as $As>::$size_static()
            }
            // std
            pub fn size<T: $Write + ?Sized>(x: &T) -> usize {
                x.$size()
            }
            // end
            pub fn bytes<L: $Std>(x: &L) -> &[u8] {
                x.as_bytes()
            }
            // std
            pub fn new_writer() -> Writer<OkSink> {
                Writer::new(OkSink)
            }
            pub fn new_fault_writer() -> Writer<FaultSink> {
                Writer::new(FaultSink)
            }
            pub fn writer_len<W: std::io::Write>(w: &Writer<W>) -> usize {
                w.len()
            }
            pub fn writer_len_of(w: &Writer<OkSink>) -> usize {
                w.len()
            }
            pub fn write<T: $Write + ?Sized>(w: &mut Writer<OkSink>, x: &T) {
                let r = w.write(x);
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn write_layout<L: $Std>(w: &mut Writer<OkSink>, x: &L) {
                let r = w.$wstd(x);
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn write_as_trait<T: $Write + ?Sized>(w: &mut Writer<OkSink>, x: &T) {
                let r = x.$wstd(w);
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn write_iter_slice<T: $Write + Copy>(w: &mut Writer<OkSink>, x: &[T]) {
                let r = w.write_iter(x.iter().copied());
                let k = outcome(r);
                val(20, w.len());
            }
            /// an iterator with no known length
            pub fn write_iter_opaque<T: $Write + Copy>(w: &mut Writer<OkSink>, x: &[T]) {
                let mut i = 0;
                let r = w.write_iter(std::iter::from_fn(|| {
                    if i < x.len() {
                        i += 1;
                        Some(x[i - 1])
                    } else {
                        None
                    }
                }));
                let k = outcome(r);
                val(20, w.len());
            }
            /// an iterator that is not fused and has a vague size hint
            pub fn write_iter_odd<T: $Write + Copy>(w: &mut Writer<OkSink>, x: &[T]) {
                let r = w.write_iter(Odd { x, i: 0 });
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn new_kind_writer() -> Writer<KindSink> {
                Writer::new(KindSink)
            }
            pub fn kind_write<T: $Write + ?Sized>(w: &mut Writer<KindSink>, x: &T) {
                let r = w.write(x);
                outcome_kind(r);
                val(20, w.len());
            }
            pub fn kind_write_iter_odd<T: $Write + Copy>(w: &mut Writer<KindSink>, x: &[T]) {
                let r = w.write_iter(Odd { x, i: 0 });
                outcome_kind(r);
                val(20, w.len());
            }
            pub fn fault_write<T: $Write + ?Sized>(w: &mut Writer<FaultSink>, x: &T) {
                let r = w.write(x);
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn fault_write_layout<L: $Std>(w: &mut Writer<FaultSink>, x: &L) {
                let r = w.$wstd(x);
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn fault_write_iter<T: $Write + Copy>(w: &mut Writer<FaultSink>, x: &[T]) {
                let r = w.write_iter(x.iter().copied());
                let k = outcome(r);
                val(20, w.len());
            }
            pub fn fault_write_iter_odd<T: $Write + Copy>(w: &mut Writer<FaultSink>, x: &[T]) {
                let r = w.write_iter(Odd { x, i: 0 });
                let k = outcome(r);
                val(20, w.len());
            }
            /// the life of a writer: 30 made, 31 written, 32 gone
            pub fn life_none() {
                let w = Writer::new(CallSink);
                val(30, 0);
                val(31, w.len());
                drop(w);
                val(32, 0);
            }
            pub fn life_write<T: $Write + ?Sized>(x: &T) {
                let mut w = Writer::new(CallSink);
                val(30, 0);
                let k = outcome(w.write(x));
                let k = outcome(w.write(x));
                val(31, w.len());
                drop(w);
                val(32, 0);
            }
            pub fn life_layout<L: $Std>(x: &L) {
                let mut w = Writer::new(CallSink);
                val(30, 0);
                let k = outcome(w.$wstd(x));
                val(31, w.len());
                drop(w);
                val(32, 0);
            }
            pub fn life_iter(n: usize) {
                let mut w = Writer::new(CallSink);
                val(30, 0);
                let k = outcome(w.write_iter(Giver { n, i: 0 }));
                val(31, w.len());
                drop(w);
                val(32, 0);
            }
            pub fn life_counted(x: &Counted) {
                let mut w = Writer::new(CallSink);
                val(30, 0);
                let k = outcome(w.write(x));
                let k = outcome(w.write(core::slice::from_ref(x)));
                val(31, w.len());
                drop(w);
                val(32, 0);
            }
            pub fn life_convert(x: Counted) {
                val(30, 0);
                let y = x.$as();
                let z = Counted::$from(7);
                val(31, 0);
                core::mem::forget(z);
                drop(x);
                val(32, 0);
            }
            // end
            pub fn new_sizer() -> Sizer {
                Sizer::new()
            }
            pub fn sizer_len(s: &Sizer) -> usize {
                s.len()
            }
            pub fn sizer_add<T: $As>(s: &mut Sizer) {
                val(10, s.add::<T>());
                val(20, s.len());
            }
        }
    };
}

entries!(e140, std140, AsStd140, Std140, WriteStd140, as_std140, from_std140, write_std140, std140_size, std140_size_static);
entries!(e430, std430, AsStd430, Std430, WriteStd430, as_std430, from_std430, write_std430, std430_size, std430_size_static);

pub mod eg {
    pub fn name<T: crevice::glsl::Glsl>() -> &'static str {
        T::NAME
    }
    // std
    pub fn definition<T: crevice::glsl::GlslStruct>() {
        let s = T::glsl_definition();
        crate::probe::emit(1, s.as_bytes());
    }
    pub fn field_count<T: crevice::glsl::GlslStruct>() -> usize {
        T::FIELDS.len()
    }
    pub fn field<T: crevice::glsl::GlslStruct>(i: usize) {
        crate::probe::emit(1, T::FIELDS[i].ty.as_bytes());
        crate::probe::emit(2, T::FIELDS[i].name.as_bytes());
    }
    // end
}
