"""Client programs the type checker decides: code that must be rejected next to its accepted twin (C31), code that must be accepted (C32)."""
import engine
import witness

PRE = '''#![allow(dead_code, unused, deprecated)]
use std::io::{self, Write, Read};
use std::rc::Rc;
use std::cell::RefCell;
'''
HAND = '''
#[derive(Clone, Copy)] #[repr(C)] pub struct Word(pub [f32; 4]);
unsafe impl bytemuck::Zeroable for Word {}
unsafe impl bytemuck::Pod for Word {}
'''
# {l} is 140 or 430
DER = '''
#[derive(crevice::std{l}::AsStd{l})] pub struct Light { pub at: mint::Vector3<f32>, pub level: f32, pub on: bool, pub m: mint::ColumnMatrix3<f32> }
pub fn light() -> Light { Light { at: [1.0, 2.0, 3.0].into(), level: 1.0, on: true, m: [[0.0f32; 3]; 3].into() } }
'''
SINK = '''
#[derive(Clone)] pub struct Shared(pub Rc<RefCell<Vec<u8>>>);
impl Write for Shared { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
'''
VECS = [f'{p}Vec{n}' for p in ('', 'I', 'U', 'B', 'D') for n in (2, 3, 4)]
MATS = [f'{p}Mat{n}' for p in ('', 'D') for n in (2, 3, 4)]


def lay(text, l):
    return text.replace('{l}', str(l))


def client_safety():
    """(name, rejected source, accepted twin)"""
    out = []
    for l in (140, 430):
        U = lay('crevice::std{l}::', l)

        def add(name, bad, good, pre=''):
            out.append((f'std{l}: {name}', lay(pre + bad, l), lay(pre + good, l)))

        imp = lay(HAND, l)
        add('the layout trait implemented without `unsafe`', 'impl crevice::std{l}::Std{l} for Word { const ALIGNMENT: usize = 16; }', 'unsafe impl crevice::std{l}::Std{l} for Word { const ALIGNMENT: usize = 16; }', imp)
        for what, decl in (
            ('not Pod', '#[derive(Clone, Copy)] #[repr(C)] pub struct Q(pub f32);'),
            ('Zeroable but not Pod', '#[derive(Clone, Copy)] #[repr(C)] pub struct Q(pub f32); unsafe impl bytemuck::Zeroable for Q {}'),
            ('a reference', '#[derive(Clone, Copy)] #[repr(C)] pub struct Q(pub &\'static f32);'),
            ('with padding of its own', '#[derive(Clone, Copy)] #[repr(C)] pub struct Q(pub u8, pub u32);'),
            ('not Copy', '#[repr(C)] pub struct Q(pub f32); unsafe impl bytemuck::Zeroable for Q {}'),
            ('a heap pointer', '#[repr(C)] pub struct Q(pub Box<f32>);'),
        ):
            add(f'the layout trait for a type that is {what}', decl + ' unsafe impl crevice::std{l}::Std{l} for Q { const ALIGNMENT: usize = 16; }',
                '#[derive(Clone, Copy)] #[repr(C)] pub struct Q(pub f32); unsafe impl bytemuck::Zeroable for Q {} unsafe impl bytemuck::Pod for Q {} unsafe impl crevice::std{l}::Std{l} for Q { const ALIGNMENT: usize = 16; }')
        conv = 'pub struct Own(f32); impl crevice::std{l}::AsStd{l} for Own { type Output = OUT; fn as_std{l}(&self) -> OUT { loop {} } fn from_std{l}(v: OUT) -> Self { loop {} } }'
        for bad in ('bool', 'u8', 'mint::Vector3<f32>', '[f32; 4]', 'Own', '()', f'crevice::std{570 - l}::Vec3', f'crevice::std{570 - l}::Mat3'):
            add(f'a conversion whose layout type is {bad}', conv.replace('OUT', bad), conv.replace('OUT', U + 'Vec3'))
        # values without a layout
        w = 'pub fn f(w: &mut crevice::std{l}::Writer<Vec<u8>>, v: V) -> io::Result<usize> { w.write(CALL) }'
        for v, call in (('String', '&v'), ('&str', 'v'), ('Vec<f32>', '&v'), ('Option<f32>', '&v'), ('u8', '&v'), ('&[u8]', 'v'), ('(f32, f32)', '&v'), ('char', '&v'), ('usize', '&v'), ('&[Option<f32>]', 'v'),
                        ('&[String]', 'v'), ('Rc<f32>', '&v'), ('()', '&v'), (f'crevice::std{570 - l}::Vec3', '&v'), (f'&[crevice::std{570 - l}::Mat3]', 'v')):
            add(f'write of {v}', w.replace('V)', v + ')').replace('CALL', call), w.replace('V)', '&[f32])').replace('CALL', 'v'))
        it = 'pub fn f(w: &mut crevice::std{l}::Writer<Vec<u8>>, v: V) -> io::Result<usize> { w.write_iter(v) }'
        for v in ('Vec<String>', 'Vec<u8>', 'Vec<Option<f32>>', 'Vec<(f32, f32)>', 'f32', f'Vec<crevice::std{570 - l}::Vec3>'):
            add(f'write_iter of {v}', it.replace('V)', v + ')'), it.replace('V)', 'Vec<f32>)'))
        std = 'pub fn f(w: &mut crevice::std{l}::Writer<Vec<u8>>, v: V) -> io::Result<usize> { w.write_std{l}(&v) }'
        for v in ('bool', 'mint::Vector3<f32>', 'Light', 'u8', '[f32; 4]', f'crevice::std{570 - l}::Vec3', f'crevice::std{570 - l}::Mat2'):
            add(f'write_std of {v}', std.replace('V)', v + ')'), std.replace('V)', U + 'Vec3)'), DER)
        siz = 'pub fn f(s: &mut crevice::std{l}::Sizer) -> usize { s.add::<V>() }'
        for v in ('String', 'u8', 'Option<f32>', f'crevice::std{570 - l}::Vec3', '[f32]'):
            add(f'Sizer::add of {v}', siz.replace('V>()', v + '>()'), siz.replace('V>()', 'f32>()'))
        new = 'pub fn f(v: V) -> usize { crevice::std{l}::Writer::new(v).len() }'
        for v in ('u32', 'String', '&Vec<u8>', '&[u8]', '()', 'std::io::Empty2'):
            if v != 'std::io::Empty2':
                add(f'a Writer over {v}', new.replace('V)', v + ')'), new.replace('V)', 'Vec<u8>)'))
        # bytes borrow from the value
        for what, mk, ty in (('a primitive', f'{U}Vec3 {{ x: 1.0, y: 2.0, z: 3.0 }}', U + 'Vec3'), ('a derived struct', lay('crevice::std{l}::AsStd{l}::as_std{l}(&light())', l), lay('<Light as crevice::std{l}::AsStd{l}>::Output', l))):
            for how, call in (('the method', 'v.as_bytes()'), ('the trait', 'crevice::std{l}::Std{l}::as_bytes(&v)')):
                use = 'use crevice::std{l}::{Std{l}, AsStd{l}};' if what == 'a primitive' else ''
                add(f'bytes of {what} through {how} used after it is gone', f'{use} pub fn f() -> usize {{ let b; {{ let v = {mk}; b = {call}; }} b.len() }}', f'{use} pub fn f() -> usize {{ let b; {{ let v = {mk}; b = {call}.len(); }} b }}', DER)
                add(f'bytes of {what} through {how} returned from its scope', f'{use} pub fn f<\'a>() -> &\'a [u8] {{ let v = {mk}; {call} }}', f'{use} pub fn f() -> Vec<u8> {{ let v = {mk}; {call}.to_vec() }}', DER)
                add(f'{what} changed while its bytes through {how} are in use', f'{use} pub fn f() -> u8 {{ let mut v = {mk}; let b = {call}; v = {mk}; b[0] }}', f'{use} pub fn f() -> u8 {{ let mut v = {mk}; let b = {call}[0]; v = {mk}; b }}', DER)
                add(f'bytes of {what} through {how} written to', f'{use} pub fn f() {{ let mut v = {mk}; let b = {call}; b[0] = 1; }}', f'{use} pub fn f() {{ let mut v = {mk}; let b = {call}; let _ = b[0] == 1; }}', DER)
        # the writer borrows its sink
        W = U + 'Writer::new'
        add('the buffer changed while a Writer borrows it', f'pub fn f() {{ let mut v: Vec<u8> = Vec::new(); let mut w = {W}(&mut v); v.push(1); w.write(&1.0f32).unwrap(); }}', f'pub fn f() {{ let mut v: Vec<u8> = Vec::new(); let mut w = {W}(&mut v); w.write(&1.0f32).unwrap(); v.push(1); }}')
        add('a Writer that outlives its buffer', f'pub fn f() {{ let mut w; {{ let mut v: Vec<u8> = Vec::new(); w = {W}(&mut v); }} w.write(&1.0f32).unwrap(); }}', f'pub fn f() {{ let mut w; {{ let mut v: Vec<u8> = Vec::new(); w = {W}(v); }} w.write(&1.0f32).unwrap(); }}')
        add('a Writer over a local buffer returned', lay('pub fn f() -> crevice::std{l}::Writer<&\'static mut Vec<u8>> { let mut v: Vec<u8> = Vec::new(); ', l) + f'{W}(&mut v) }}', lay('pub fn f() -> crevice::std{l}::Writer<Vec<u8>> { let mut v: Vec<u8> = Vec::new(); ', l) + f'{W}(v) }}')
        add('two Writers over one buffer', f'pub fn f() {{ let mut v: Vec<u8> = Vec::new(); let mut a = {W}(&mut v); let mut b = {W}(&mut v); a.write(&1.0f32).unwrap(); b.write(&1.0f32).unwrap(); }}', f'pub fn f() {{ let mut v: Vec<u8> = Vec::new(); let mut a = {W}(&mut v); a.write(&1.0f32).unwrap(); let mut b = {W}(&mut v); b.write(&1.0f32).unwrap(); }}')
        add('the values of a slice changed while it is written', f'pub fn f() {{ let mut v = vec![1.0f32]; let i = v.iter().map(|x| {{ *x }}); v.push(1.0); {W}(io::sink()).write_iter(i).unwrap(); }}', f'pub fn f() {{ let mut v = vec![1.0f32]; let i = v.iter().map(|x| {{ *x }}); {W}(io::sink()).write_iter(i).unwrap(); v.push(1.0); }}')
        for m, arg in (('write', '&1.0f32'), ('write_iter', 'vec![1.0f32]'), (f'write_std{l}', '&1.0f32')):
            add(f'{m} through a shared reference', lay(f'pub fn f(w: &crevice::std{{l}}::Writer<Vec<u8>>) {{ w.{m}({arg}).unwrap(); }}', l), lay(f'pub fn f(w: &mut crevice::std{{l}}::Writer<Vec<u8>>) {{ w.{m}({arg}).unwrap(); }}', l))
        add('Sizer::add through a shared reference', 'pub fn f(s: &crevice::std{l}::Sizer) -> usize { s.add::<f32>() }', 'pub fn f(s: &mut crevice::std{l}::Sizer) -> usize { s.add::<f32>() }')
        # threads
        for tr in ('Send', 'Sync'):
            need = f'pub fn need<T: {tr}>() {{}} '
            for bad, good in (('Rc<f32>', 'f32'), ('*const u8', 'u8')) if tr == 'Send' else (('RefCell<Vec<u8>>', 'Vec<u8>'), ('Rc<f32>', 'f32')):
                add(f'a Writer over a sink that is not {tr} ({bad}) taken as {tr}', need + f'pub fn f() {{ need::<{U}Writer<{bad}>>() }}', need + f'pub fn f() {{ need::<{U}Writer<{good}>>() }}')
        # the counters cannot be set from outside
        add('a Writer built from its parts', f'pub fn f() {{ let w = {U}Writer {{ writer: Vec::<u8>::new(), offset: 3usize }}; w.len(); }}', f'pub fn f() {{ let w = {W}(Vec::<u8>::new()); w.len(); }}')
        add('a Sizer built from its parts', f'pub fn f() {{ let w = {U}Sizer {{ offset: 3usize }}; w.len(); }}', f'pub fn f() {{ let w = {U}Sizer::new(); w.len(); }}')
        add('Bool made of an integer', f'pub fn f() -> {U}Bool {{ {U}Bool(2) }}', f'pub fn f() -> {U}Bool {{ {U}Bool::from(true) }}')
        add('Bool converted from an integer', f'pub fn f() -> {U}Bool {{ {U}Bool::from(2u32) }}', f'pub fn f() -> {U}Bool {{ {U}Bool::from(2u32 != 0) }}')
        # derived types of private structs stay private, members of pub ones stay sealed
        mod = 'mod inner { #[derive(crevice::std{l}::AsStd{l})] PUB struct Deep { pub a: f32, pub v: mint::Vector3<f32> } pub fn go() {} } pub fn f() { inner::go(); let _: Option<inner::Deep> = None; let _: Option<inner::Std{l}Deep> = None; }'
        add('the layout type of a private struct named outside its module', mod.replace('PUB', ''), mod.replace('PUB', 'pub'))
    for name, tr, body in (('Glsl', 'crevice::glsl::Glsl', '{ const NAME: &\'static str = "x"; }'),):
        out.append((f'{name} implemented without `unsafe`', f'pub struct X; impl {tr} for X {body}', f'pub struct X; unsafe impl {tr} for X {body}'))
    base = "pub struct X; unsafe impl crevice::glsl::Glsl for X { const NAME: &'static str = \"x\"; } "
    out.append(('GlslStruct implemented without `unsafe`', base + "impl crevice::glsl::GlslStruct for X { const FIELDS: &'static [crevice::glsl::GlslField] = &[]; }", base + "unsafe impl crevice::glsl::GlslStruct for X { const FIELDS: &'static [crevice::glsl::GlslField] = &[]; }"))
    out.append(('GlslStruct for a type that is not Glsl', "pub struct X; unsafe impl crevice::glsl::GlslStruct for X { const FIELDS: &'static [crevice::glsl::GlslField] = &[]; }", base + "unsafe impl crevice::glsl::GlslStruct for X { const FIELDS: &'static [crevice::glsl::GlslField] = &[]; }"))
    out.append(('Glsl without a name', 'pub struct X; unsafe impl crevice::glsl::Glsl for X {}', base))
    for tr in ('Send', 'Sync'):
        bad = 'Rc<f32>' if tr == 'Send' else 'RefCell<f32>'
        out.append((f'DynamicUniform over a value that is not {tr} taken as {tr}', f'pub fn need<T: {tr}>() {{}} pub fn f() {{ need::<crevice::std140::DynamicUniform<{bad}>>() }}', f'pub fn need<T: {tr}>() {{}} pub fn f() {{ need::<crevice::std140::DynamicUniform<f32>>() }}'))
    for bad in ('String', 'u8', 'crevice::std430::Vec3', '[f32; 4]'):
        t = 'pub fn f(w: &mut crevice::std140::Writer<Vec<u8>>, v: crevice::std140::DynamicUniform<T>) -> io::Result<usize> { w.write(&v) }'
        out.append((f'DynamicUniform of {bad} written', t.replace('<T>', f'<{bad}>'), t.replace('<T>', '<f32>')))
    p = 'pub fn need<T: bytemuck::Pod>() {} pub fn f() { need::<crevice::std140::DynamicUniformStd140<T>>() }'
    for bad in ('bool', 'char', '&\'static f32', 'Option<f32>', 'String', 'std::num::NonZeroU32'):
        out.append((f'the dynamic uniform of {bad} taken as Pod', p.replace('<T>', f'<{bad}>'), p.replace('<T>', '<f32>')))
    return out


SINKS = {
    'an owned Vec': 'Vec<u8>', 'a borrowed Vec': '&mut Vec<u8>', 'a byte slice': '&mut [u8]', 'a cursor over a slice': 'io::Cursor<&mut [u8]>', 'a cursor over a Vec': 'io::Cursor<Vec<u8>>', 'a cursor over a boxed slice': 'io::Cursor<Box<[u8]>>',
    'a cursor over an array': 'io::Cursor<[u8; 64]>', 'a cursor over a borrowed Vec': 'io::Cursor<&mut Vec<u8>>', 'a file': 'std::fs::File', 'a shared file': '&std::fs::File', 'a buffered sink': 'io::BufWriter<Vec<u8>>', 'a line-buffered sink': 'io::LineWriter<Vec<u8>>',
    'io::sink': 'io::Sink', 'standard output': 'io::Stdout', 'locked standard output': 'io::StdoutLock<\'static>', 'a socket': 'std::net::TcpStream', 'a deque': 'std::collections::VecDeque<u8>', 'a boxed trait object': 'Box<dyn Write>',
    'a boxed trait object of a lifetime': 'Box<dyn Write + \'_>', 'a borrowed trait object': '&mut dyn Write', 'a sendable trait object': 'Box<dyn Write + Send>', 'a sink of the client that is neither Send nor Sync': 'Shared', 'a borrowed sink of the client': '&mut Shared',
    'a borrowed borrowed sink': '&mut &mut Vec<u8>', 'a boxed sink': 'Box<Vec<u8>>', 'a pipe to a process': 'std::process::ChildStdin', 'a sink chosen by the caller': 'impl Write',
}
ITERS = {
    'a Vec': 'vec![1.0f32, 2.0]', 'an array': '[1.0f32, 2.0]', 'copied references': '[1.0f32].iter().copied()', 'cloned references': '[1.0f32].iter().cloned()', 'a mapped range': '(0..4).map(|i| i as f32)', 'an Option': 'Some(1.0f32)', 'an empty iterator': 'std::iter::empty::<f32>()',
    'once': 'std::iter::once(1u32)', 'a boxed iterator': 'Box::new([1.0f32].into_iter()) as Box<dyn Iterator<Item = f32>>', 'a borrowed iterator': '&mut [1.0f32].into_iter()', 'a borrowed trait object': '(&mut [1.0f32].into_iter()) as &mut dyn Iterator<Item = f32>',
    'a filter': '(0..9u32).filter(|x| x % 2 == 0)', 'an unbounded iterator cut short': 'std::iter::repeat(1i32).take(3)', 'a chain': '[1.0f32].into_iter().chain([2.0])', 'a set': 'std::collections::BTreeSet::from([1u32, 2])', 'map values': 'std::collections::HashMap::from([(1u8, 1.0f32)]).into_values()', 'a deque': 'std::collections::VecDeque::from([1u32])',
    'mint values': 'vec![mint::Vector3 { x: 1.0f32, y: 2.0, z: 3.0 }]', 'bools': 'vec![true, false]', 'structs': '[light(), light()]', 'mapped structs': '(0..3).map(|_| light())', 'layout values': 'vec![crevice::std{l}::Vec3 { x: 1.0, y: 2.0, z: 3.0 }]', 'drained values': 'vec![1.0f32].drain(..)', 'an iterator over borrowed state': '{ let k = &level; (0..3).map(move |_| *k) }',
    'a generator of closures': '{ let mut n = 0; std::iter::from_fn(move || { n += 1; (n < 4).then_some(n as f32) }) }', 'scanned input': 'b"1 2".split(|c| *c == b\' \').map(|w| w.len() as u32)', 'peekable': '[1.0f32].into_iter().peekable()',
}
VALUES = {
    'a scalar': '&1.0f32', 'a bool': '&true', 'a double': '&1.0f64', 'a mint vector': '&mint::Vector3 { x: 1.0f32, y: 2.0, z: 3.0 }', 'a cgmath vector': '&cgmath::Vector3::new(1.0f32, 2.0, 3.0)', 'a glam matrix': '&glam::Mat3::IDENTITY', 'a nalgebra vector': '&nalgebra::Vector4::new(1u32, 2, 3, 4)', 'a struct': '&light()',
    'a layout value': '&crevice::std{l}::Vec3 { x: 1.0, y: 2.0, z: 3.0 }', 'a converted struct': '&light().as_std{l}()', 'a slice': '&[1.0f32, 2.0][..]', 'an empty slice': '&[] as &[f32]', 'a slice of structs': '&[light(), light()][..]', 'a slice of a Vec': 'vec![light()].as_slice()', 'a boxed slice': '&*vec![1.0f32].into_boxed_slice()', 'a shared slice': '&*Rc::<[f32]>::from(vec![1.0f32])',
    'a value in a box': '&*Box::new(light())', 'a value behind a lock': '&*std::sync::Mutex::new(1.0f32).lock().unwrap()', 'a value in a cell': '&*RefCell::new(1.0f32).borrow()', 'a slice of bools': '&[true, false][..]', 'a subslice': '&vec![1u32, 2, 3][1..]', 'a mutable slice': '&mut [1.0f32][..]', 'an unsized value of the client': 'Tail::of(&[1.0, 2.0])', 'a hand-written value': '&Hand(1.0)', 'a slice of hand-written values': '&[Hand(1.0), Hand(2.0)][..]',
}
CLIENT_TYPES = '''
#[repr(transparent)] pub struct Tail(pub [f32]);
impl Tail { pub fn of(x: &[f32]) -> &Tail { unsafe { &*(x as *const [f32] as *const Tail) } } }
impl crevice::std{l}::WriteStd{l} for Tail { fn write_std{l}<W: Write>(&self, w: &mut crevice::std{l}::Writer<W>) -> io::Result<usize> { let at = w.write(&(self.0.len() as u32))?; w.write(&self.0)?; Ok(at) } }
pub struct Hand(pub f32);
impl crevice::std{l}::AsStd{l} for Hand { type Output = f32; fn as_std{l}(&self) -> f32 { self.0 } fn from_std{l}(x: f32) -> Self { Hand(x) } }
'''


def client_freedom():
    """(name, source that must be accepted)"""
    out = []
    for l in (140, 430):
        base = 'use crevice::std{l}::{self as layout, AsStd{l}, Std{l}, WriteStd{l}, Writer, Sizer};' + DER

        def add(rule, name, src, pre=''):
            out.append((f'{rule}', f'std{l}: {name}', lay(base + pre + src, l)))

        use = 'let mut w = Writer::new(sink); let a: usize = w.write(&1.0f32)?; let b: usize = w.write(&[light()][..])?; let c: usize = w.write_iter(vec![1u32])?; let d: usize = w.write_std{l}(&light().as_std{l}())?; let n: usize = w.len(); Ok(a + b + c + d + n)'
        for k, t in SINKS.items():
            add('sink', k, f'pub fn f(sink: {t}) -> io::Result<usize> {{ {use} }}', SINK)
        add('sink', 'a Writer kept in a struct', 'pub struct Keep<\'a> { w: Writer<&\'a mut Vec<u8>>, at: usize } impl<\'a> Keep<\'a> { pub fn go(&mut self) -> io::Result<()> { self.at = self.w.write(&light())?; Ok(()) } }')
        add('sink', 'a Writer of any sink kept in a struct', 'pub struct Keep<W> { w: Writer<W> } impl<W: Write> Keep<W> { pub fn go(&mut self) -> io::Result<usize> { self.w.write(&light()) } }')
        add('sink', 'a Writer in a static lock', 'pub static W: std::sync::Mutex<Option<Writer<Vec<u8>>>> = std::sync::Mutex::new(None); pub fn f() -> usize { W.lock().unwrap().as_ref().map_or(0, |w| w.len()) }')
        add('sink', 'the buffer used again after the Writer', 'pub fn f() -> Vec<u8> { let mut v = Vec::new(); let mut w = Writer::new(&mut v); w.write(&1.0f32).unwrap(); let n = w.len(); v.truncate(n); v }')
        add('sink', 'the length read while nothing else is borrowed', 'pub fn f(w: &Writer<Vec<u8>>) -> usize { w.len() }')
        add('sink', 'a Writer handed through functions', 'fn one<W: Write>(w: &mut Writer<W>) -> io::Result<usize> { w.write(&1.0f32) } pub fn f(w: &mut Writer<impl Write>) -> io::Result<usize> { one(w)?; one(w) }')
        add('sink', 'a Writer in a thread', 'pub fn f() { std::thread::spawn(|| { let mut w = Writer::new(Vec::new()); w.write(&1.0f32).unwrap(); w }).join().unwrap(); }')
        add('sink', 'a Writer in a scoped thread', 'pub fn f(b: &mut [u8]) { std::thread::scope(|s| { let mut w = Writer::new(b); s.spawn(move || { w.write(&1.0f32).unwrap(); }); }); }')
        for k, v in VALUES.items():
            add('value', k, f'pub fn f(w: &mut Writer<Vec<u8>>) -> io::Result<usize> {{ w.write({v}) }}', CLIENT_TYPES)
            add('value', f'size of {k}', f'pub fn f() -> usize {{ ({v}).std{l}_size() }}', CLIENT_TYPES)
        for k, v in ITERS.items():
            add('iterator', k, f'pub fn f(w: &mut Writer<Vec<u8>>, level: f32) -> io::Result<usize> {{ w.write_iter({v}) }}', CLIENT_TYPES)
        # generic code bounded by the public traits alone
        for k, t, b in (
            ('write of anything convertible', 'T: AsStd{l}', 'w.write(v)'), ('write of anything writable', 'T: WriteStd{l} + ?Sized', 'w.write(v)'), ('write of any layout type', 'T: Std{l}', 'w.write(v)'), ('write_std of any layout type', 'T: Std{l}', 'w.write_std{l}(v)'),
            ('conversion', 'T: AsStd{l}', 'w.write_std{l}(&v.as_std{l}())'), ('conversion and back', 'T: AsStd{l}', 'w.write(&T::from_std{l}(v.as_std{l}()))'), ('bytes', 'T: AsStd{l}', 'Ok(v.as_std{l}().as_bytes().len())'), ('static size', 'T: AsStd{l}', 'Ok(T::std{l}_size_static())'),
            ('size', 'T: WriteStd{l} + ?Sized', 'Ok(v.std{l}_size())'), ('size of a convertible value', 'T: AsStd{l}', 'Ok(v.std{l}_size())'), ('alignment', 'T: AsStd{l}', 'Ok(<T::Output as Std{l}>::ALIGNMENT)'), ('delegation', 'T: WriteStd{l} + ?Sized', 'v.write_std{l}(w)'),
            ('Sizer', 'T: AsStd{l}', '{ let mut s = Sizer::new(); s.add::<T>(); Ok(s.len()) }'), ('a layout type of a layout type', 'T: Std{l}', '{ let x: T = v.as_std{l}(); w.write(&x) }'), ('Pod', 'T: AsStd{l}', 'Ok(bytemuck::bytes_of(&v.as_std{l}()).len())'), ('zeroed', 'T: AsStd{l}', 'w.write(&T::from_std{l}(bytemuck::Zeroable::zeroed()))'),
            ('copies', 'T: AsStd{l}', '{ let a = v.as_std{l}(); let b = a; w.write(&a)?; w.write(&b) }'),
        ):
            add('generic', k, lay(f'pub fn f<T: {t[3:]}, W: Write>(w: &mut Writer<W>, v: &T) -> io::Result<usize> {{ {b} }}', l))
        add('generic', 'write of a slice', 'pub fn f<T: WriteStd{l}, W: Write>(w: &mut Writer<W>, v: &[T]) -> io::Result<usize> { w.write(v) }')
        add('generic', 'write of a slice of convertible values', 'pub fn f<T: AsStd{l}, W: Write>(w: &mut Writer<W>, v: &[T]) -> io::Result<usize> { w.write(v) }')
        add('generic', 'write_iter', 'pub fn f<T: WriteStd{l}, I: IntoIterator<Item = T>, W: Write>(w: &mut Writer<W>, v: I) -> io::Result<usize> { w.write_iter(v) }')
        add('generic', 'a sink that may be anything', 'pub fn f<W: Write>(sink: W) -> io::Result<usize> { let mut w = Writer::new(sink); w.write(&light()) }')
        add('generic', 'a struct over convertible values', 'pub struct Pair<T>(pub T, pub T); impl<T: AsStd{l}> WriteStd{l} for Pair<T> { fn write_std{l}<W: Write>(&self, w: &mut Writer<W>) -> io::Result<usize> { let at = w.write(&self.0)?; w.write(&self.1)?; Ok(at) } } pub fn f(w: &mut Writer<Vec<u8>>) { w.write(&Pair(1.0f32, 2.0)).unwrap(); w.write(&[Pair(light(), light())][..]).unwrap(); }')
        # hand implementations with the required items alone
        add('hand', 'a conversion', 'pub struct X(pub f32); impl AsStd{l} for X { type Output = layout::Vec4; fn as_std{l}(&self) -> layout::Vec4 { layout::Vec4 { x: self.0, y: 0.0, z: 0.0, w: 0.0 } } fn from_std{l}(v: layout::Vec4) -> Self { X(v.x) } } #[derive(AsStd{l})] pub struct Y { pub x: X, pub y: f32 }')
        add('hand', 'a writable value', 'pub struct X(pub Vec<f32>); impl WriteStd{l} for X { fn write_std{l}<W: Write>(&self, w: &mut Writer<W>) -> io::Result<usize> { w.write(self.0.as_slice()) } } pub fn f() -> usize { X(vec![]).std{l}_size() }')
        add('hand', 'a writable value with its size', 'pub struct X(pub Vec<f32>); impl WriteStd{l} for X { fn write_std{l}<W: Write>(&self, w: &mut Writer<W>) -> io::Result<usize> { w.write(self.0.as_slice()) } fn std{l}_size(&self) -> usize { 0 } }')
        add('hand', 'a layout type', 'unsafe impl Std{l} for Word { const ALIGNMENT: usize = 16; } #[derive(AsStd{l})] pub struct Y { pub x: Word, pub y: f32 } pub fn f(w: &mut Writer<Vec<u8>>, x: Word) { w.write(&x).unwrap(); w.write_std{l}(&x).unwrap(); w.write(&[x][..]).unwrap(); }', HAND.replace('Clone, Copy', 'Debug, Clone, Copy'))
        add('hand', 'a layout type that is not Debug as a member', 'unsafe impl Std{l} for Word { const ALIGNMENT: usize = 16; } #[derive(AsStd{l})] pub struct Y { pub x: Word, pub y: f32 }', HAND)
        add('hand', 'a layout type that is not Debug', 'unsafe impl Std{l} for Word { const ALIGNMENT: usize = 16; } pub fn f(w: &mut Writer<Vec<u8>>, x: Word) { w.write(&x).unwrap(); w.write_std{l}(&x).unwrap(); w.write(&[x][..]).unwrap(); w.write_iter([x]).unwrap(); }', HAND)
        add('hand', 'the errors of the sink', 'pub fn f(w: &mut Writer<Vec<u8>>) -> Result<(), Box<dyn std::error::Error>> { let r: std::io::Result<usize> = w.write(&1.0f32); let e: std::io::ErrorKind = match r { Ok(_) => return Ok(()), Err(e) => e.kind() }; w.write(&1.0f32)?; Ok(()) }')
        # what the published types are good for
        bounds = 'Copy + Clone + std::fmt::Debug + Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + bytemuck::Pod + bytemuck::Zeroable + layout::Std{l} + layout::AsStd{l}<Output = T> + WriteStd{l} + \'static'
        for t in VECS + MATS:
            add('types', t, f'pub fn need<T: {bounds}>() {{}} pub fn named<T: crevice::glsl::Glsl>() {{}} pub fn f() {{ need::<layout::{t}>(); named::<layout::{t}>() }} pub const A: usize = <layout::{t} as Std{{l}}>::ALIGNMENT; pub static S: [u8; std::mem::size_of::<layout::{t}>()] = [0; std::mem::size_of::<layout::{t}>()];')
        for t in VECS:
            n, k = int(t[-1]), {'V': 'f32', 'I': 'i32', 'U': 'u32', 'B': 'layout::Bool', 'D': 'f64'}[t[0]]
            m = 'xyzw'[:n]
            add('types', f'members of {t}', f'pub const fn make(a: {k}) -> layout::{t} {{ layout::{t} {{ ' + ', '.join(f'{c}: a' for c in m) + f' }} }} pub fn f(mut v: layout::{t}) -> [{k}; {n}] {{ v.{m[-1]} = v.x; [' + ', '.join(f'v.{c}' for c in m) + f'] }} pub fn g(v: layout::{t}) -> {k} {{ let layout::{t} {{ ' + ', '.join(m) + ' } = v; x }')
        for t in MATS:
            n = int(t[-1])
            col = f'layout::{t[:-4]}Vec{n}'
            m = 'xyzw'[:n]
            add('types', f'columns of {t}', f'pub fn make(a: {col}) -> layout::{t} {{ layout::{t} {{ ' + ', '.join(f'{c}: a' for c in m) + f', ..bytemuck::Zeroable::zeroed() }} }} pub fn f(mut v: layout::{t}) -> {col} {{ v.{m[-1]} = v.x; v.y }}')
        add('types', 'Bool', f'pub fn need<T: {bounds} + Eq>() {{}} pub fn f(b: layout::Bool) -> bool {{ need::<layout::Bool>(); let c: layout::Bool = true.into(); bool::from(b) != bool::from(c) }}')
        add('types', 'scalars', f'pub fn need<T: {bounds}>() {{}} pub fn named<T: crevice::glsl::Glsl>() {{}} pub fn f() {{ need::<f32>(); need::<f64>(); need::<i32>(); need::<u32>(); named::<f32>(); named::<f64>(); named::<i32>(); named::<u32>(); named::<bool>(); named::<layout::Bool>(); }}')
        add('types', 'a derived layout type', f'pub fn need<T: {bounds}>() {{}} pub fn f() {{ need::<<Light as AsStd{{l}}>::Output>() }} pub const A: usize = <<Light as AsStd{{l}}>::Output as Std{{l}}>::ALIGNMENT; pub static S: [u8; std::mem::size_of::<<Light as AsStd{{l}}>::Output>()] = [0; std::mem::size_of::<<Light as AsStd{{l}}>::Output>()];')
        add('types', 'a Sizer', 'pub fn need<T: Send + Sync + Unpin + \'static>() {} pub fn f() { need::<Sizer>() }')
        for tr in ('Send', 'Sync', 'Unpin', "'static"):
            add('types', f'a Writer over a sink that is {tr}', f'pub fn need<T: {tr}>() {{}} pub fn f<W: Write + {tr}>() {{ need::<Writer<W>>() }}')
        add('types', 'a Writer type over any type', 'pub struct Slot<T>(pub Option<Writer<T>>);')
        # the derives
        for vis in ('', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(in crate::m) '):
            add('derive', f'a {vis or "private "}struct', f'mod m {{ pub mod n {{ #[derive(crevice::std{{l}}::AsStd{{l}})] {vis}struct X {{ a: f32, {vis}v: mint::Vector3<f32> }} {vis}fn f(x: &X) -> usize {{ use crevice::std{{l}}::AsStd{{l}}; x.as_std{{l}}().as_bytes().len() }} }} }}')
        add('derive', 'a struct inside a function', 'pub fn f() -> usize { #[derive(AsStd{l})] struct X { a: f32, v: mint::Vector3<f32> } X { a: 1.0, v: [0.0; 3].into() }.as_std{l}().as_bytes().len() }')
        add('derive', 'a struct inside a block of a constant', 'pub const N: usize = { #[derive(crevice::std{l}::AsStd{l})] struct X { a: f32, v: mint::Vector3<f32> } std::mem::size_of::<<X as AsStd{l}>::Output>() };')
        add('derive', 'a struct that cannot be copied or cloned', 'pub struct Big(pub f32); impl AsStd{l} for Big { type Output = f32; fn as_std{l}(&self) -> f32 { self.0 } fn from_std{l}(x: f32) -> Self { Big(x) } } #[derive(AsStd{l})] pub struct X { pub a: Big, pub b: Big }')
        add('derive', 'a struct that owns something', 'pub struct Own(pub Box<f32>); impl AsStd{l} for Own { type Output = f32; fn as_std{l}(&self) -> f32 { *self.0 } fn from_std{l}(x: f32) -> Self { Own(Box::new(x)) } } #[derive(AsStd{l})] pub struct X { pub a: Own, pub b: f32 } impl Drop for Own { fn drop(&mut self) {} }')
        add('derive', 'a struct with a destructor', '#[derive(AsStd{l})] pub struct X { pub a: f32, pub b: mint::Vector2<f32> } impl Drop for X { fn drop(&mut self) {} }')
        add('derive', 'a struct that is neither Send nor Sync', 'pub struct Cellular(pub Rc<f32>); impl AsStd{l} for Cellular { type Output = f32; fn as_std{l}(&self) -> f32 { *self.0 } fn from_std{l}(x: f32) -> Self { Cellular(Rc::new(x)) } } #[derive(AsStd{l})] pub struct X { pub a: Cellular }')
        add('derive', 'bytes without the layout trait in scope', 'mod m { use crevice::std{l}::AsStd{l}; pub fn f(x: &super::Light) -> Vec<u8> { x.as_std{l}().as_bytes().to_vec() } }')
        add('derive', 'a struct used from another module', 'mod m { #[derive(crevice::std{l}::AsStd{l})] pub struct Inner { pub a: f32 } } #[derive(AsStd{l})] pub struct Outer { pub i: m::Inner, pub o: <m::Inner as AsStd{l}>::Output } pub fn f(o: &Outer) -> <Outer as AsStd{l}>::Output { o.as_std{l}() }')
        add('derive', 'other derives next to it', '#[derive(Debug, Clone, Copy, PartialEq, Default, AsStd{l})] pub struct X { pub a: f32, pub b: u32 } pub fn f() -> usize { X::default().as_std{l}().as_bytes().len() }')
        add('derive', 'documentation, lints and attributes on the struct and its members', '/// Doc\n#[derive(AsStd{l})]\n#[non_exhaustive]\n#[must_use]\n#[deny(missing_docs)]\n#[repr(C)]\npub struct X {\n    /// Doc\n    #[doc(hidden)]\n    #[allow(unused)]\n    pub a: f32,\n    #[cfg(all())]\n    /// Doc\n    pub b: mint::Vector3<f32>,\n    #[cfg(any())]\n    pub c: String,\n}')
        add('derive', 'the layout derived under denied warnings', '#[deny(warnings)] mod m { #[derive(crevice::std{l}::AsStd{l}, Debug, Clone, Copy)] pub struct X { pub a: f32, pub v: mint::Vector3<f32> } }')
        add('derive', 'a crate that forbids unsafe code', '#[forbid(unsafe_code)] mod m { #[derive(crevice::std{l}::AsStd{l})] pub struct X { pub a: f32, pub v: mint::Vector3<f32> } }')
        add('derive', 'a crate that demands documentation', '/// Doc\n#[deny(missing_docs)] pub mod m { /// Doc\n#[derive(crevice::std{l}::AsStd{l})] pub struct X { /// Doc\npub a: f32, /// Doc\n pub v: mint::Vector3<f32> } }')
        add('derive', 'members out of the usual letter case', '#[deny(warnings)] pub mod m { #[allow(non_snake_case)] #[derive(crevice::std{l}::AsStd{l})] pub struct X { pub Ab: f32, pub CD: mint::Vector3<f32> } }')
        add('derive', 'a where clause', '#[derive(AsStd{l})] pub struct X where f32: Copy, mint::Vector3<f32>: AsStd{l} { pub a: f32, pub v: mint::Vector3<f32> }')
        add('derive', 'a struct made by a macro', 'macro_rules! m { ($n:ident $($f:ident : $t:ty),*) => { #[derive(AsStd{l})] pub struct $n { $(pub $f: $t),* } } } m!(X a: f32, b: mint::Vector3<f32>); pub fn f(x: &X) -> usize { x.as_std{l}().as_bytes().len() }')
        add('derive', 'a member type named through an associated type', 'pub trait Kind { type Of; } impl Kind for X { type Of = mint::Vector3<f32>; } #[derive(AsStd{l})] pub struct X { pub a: f32, pub v: <X as Kind>::Of }')
    a = 'use crevice::std140::{self, AsStd140}; use crevice::std430::{self, AsStd430}; use crevice::glsl::{Glsl, GlslStruct, GlslField}; '
    out.append(('derive', 'all three derives at once', a + '#[derive(AsStd140, AsStd430, GlslStruct)] pub struct X { pub a: f32, pub b: mint::Vector3<f32> } pub fn f(x: &X) -> (usize, usize, String) { (x.as_std140().as_bytes().len(), x.as_std430().as_bytes().len(), X::glsl_definition()) }'))
    out.append(('derive', 'one value in both layouts', a + 'pub fn f<T: AsStd140 + AsStd430>(x: &T) -> (T::Output, <T as AsStd430>::Output) where T: AsStd140 { (x.as_std140(), x.as_std430()) }'.replace('(T::Output,', '(<T as AsStd140>::Output,')))
    out.append(('derive', 'names and fields in constants', a + "#[derive(GlslStruct)] pub struct X { pub a: f32, pub b: mint::Vector3<f32> } pub const N: &'static str = <X as Glsl>::NAME; pub const F: &'static [GlslField] = <X as GlslStruct>::FIELDS; pub const T: &'static str = F[1].ty; pub static M: &str = F[0].name;"))
    out.append(('generic', 'definitions of any struct', a + "pub fn f<T: GlslStruct>() -> String { let mut s = T::glsl_definition(); for f in T::FIELDS { s.push_str(f.name); s.push_str(f.ty); } s.push_str(T::NAME); s } pub fn g<T: Glsl>() -> &'static str { T::NAME } pub fn h() -> &'static str { g::<mint::Vector3<f32>>() }"))
    out.append(('hand', 'a GLSL struct with the required items alone', a + "pub struct X; unsafe impl Glsl for X { const NAME: &'static str = \"X\"; } unsafe impl GlslStruct for X { const FIELDS: &'static [GlslField] = &[GlslField { ty: \"float\", name: \"a\" }]; } pub fn f() -> String { X::glsl_definition() } #[derive(GlslStruct)] pub struct Y { pub x: X }"))
    out.append(('derive', 'the definition of a generic struct', a + "#[derive(GlslStruct)] pub struct X<T: Glsl, const N: usize> { pub a: T, pub b: f32 } pub fn f() -> String { X::<f32, 3>::glsl_definition() + X::<mint::Vector3<f32>, 0>::NAME }"))
    D = 'use crevice::std140::{self, AsStd140, Std140, WriteStd140, DynamicUniform, DynamicUniformStd140, Writer, Sizer}; '
    for k, s in {
        'a value': 'pub fn f(w: &mut Writer<Vec<u8>>) -> io::Result<usize> { w.write(&DynamicUniform(1.0f32)) }',
        'a slice': 'pub fn f(w: &mut Writer<Vec<u8>>) -> io::Result<usize> { w.write(&[DynamicUniform(1.0f32), DynamicUniform(2.0)][..]) }',
        'an iterator': 'pub fn f(w: &mut Writer<Vec<u8>>) -> io::Result<usize> { w.write_iter((0..3u32).map(DynamicUniform)) }',
        'any convertible value': 'pub fn f<T: AsStd140>(w: &mut Writer<Vec<u8>>, v: T) -> io::Result<T> { let d = DynamicUniform(v); w.write(&d)?; Ok(d.0) }',
        'layout type of any layout type': 'pub fn need<T: Std140 + bytemuck::Pod>() {} pub fn f<T: Std140>() { need::<DynamicUniformStd140<T>>() }',
        'Sizer': 'pub fn f<T: AsStd140>() -> usize { let mut s = Sizer::new(); s.add::<DynamicUniform<T>>() }',
        'member of a struct': '#[derive(AsStd140)] pub struct X { pub a: f32, pub d: DynamicUniform<mint::Vector3<f32>> } pub fn f(x: &X) -> usize { x.as_std140().as_bytes().len() }',
        'nested': 'pub fn f() -> usize { DynamicUniform::<DynamicUniform<f32>>::std140_size_static() }',
        'bounds': "pub fn need<T: Copy + std::fmt::Debug + Send + Sync + 'static>() {} pub fn f() { need::<DynamicUniformStd140<std140::Vec3>>() } pub fn any<T>(x: T) -> DynamicUniform<T> { DynamicUniform(x) }",
    }.items():
        out.append(('dynamic', k, D + s))
    out.append(('sink', 'std140: write_slice', 'pub fn f<T: crevice::std140::AsStd140, W: Write>(w: &mut crevice::std140::Writer<W>, v: &[T]) -> io::Result<usize> { w.write_slice(v) }'))
    return out


def source(text):
    return PRE + text + '\n'


def run_safety(c, spec):
    plan = c.plans(['main'])['main']
    cs = client_safety()
    res = witness.compile_many(plan, [source(x) for _, bad, good in cs for x in (bad, good)])
    for i, (name, bad, good) in enumerate(cs):
        (rc, errs, err), (grc, gerrs, gerr) = res[2 * i], res[2 * i + 1]
        if 'internal compiler error' in err + gerr:
            raise engine.Broken((err + gerr)[-2000:])
        r = c.rules.setdefault('client.reject', [0, 0, 1])
        a = c.rules.setdefault('client.accept', [0, 0, 1])
        r[0] += 1
        a[0] += 1
        if grc:
            c.violation('client.accept', name, f'the correct twin of the witness is rejected ({name}): {gerrs[0][0] if gerrs else gerr[-300:]}', good)
        else:
            a[1] += 1
        if rc == 0:
            c.violation('client.reject', name, f'safe client code that must be rejected compiles: {name}', bad)
        else:
            r[1] += 1
            if i % 17 == 0:
                c.samples.append(f'{name}: ' + (errs[0][0] if errs else ''))
    c.programs = 2 * len(cs)


def run_freedom(c, spec):
    plan = c.plans(['main'])['main']
    cs = client_freedom()
    res = witness.compile_many(plan, [source(x[2]) for x in cs])
    for i, ((rule, name, src), (rc, errs, err)) in enumerate(zip(cs, res)):
        if 'internal compiler error' in err:
            raise engine.Broken(err[-2000:])
        r = c.rules.setdefault(f'accept.{rule}', [0, 0, 1])
        r[0] += 1
        if rc:
            c.violation(f'accept.{rule}', name, f'client code that must be accepted is rejected ({name}): {errs[0][0] if errs else err[-300:]}', src)
        else:
            r[1] += 1
            if i % 23 == 0:
                c.samples.append(f'{rule}: {name}: accepted')
    c.programs = len(cs)
