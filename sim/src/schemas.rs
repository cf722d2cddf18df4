//! The schemas the simulated programs use: real `define_*!` invocations, wrapped so that the
//! executor can drive any part of any archive by name.

use crate::model::*;
use flatdata::*;
use std::ops::Bound;
use std::io;
use std::rc::Rc;

pub type Store = Rc<dyn ResourceStorage>;
pub type RSE = ResourceStorageError;

pub trait Rec: for<'a> Struct<'a> + 'static {
    const DEF: &'static RecDef;
    fn get<'a>(i: <Self as Struct<'a>>::Item) -> RecVal;
    fn get_mut_val<'a>(m: &<Self as Struct<'a>>::ItemMut) -> RecVal;
    fn put<'a>(m: &mut <Self as Struct<'a>>::ItemMut, v: &[u64]);
    fn fill<'a, 'b>(m: &mut <Self as Struct<'a>>::ItemMut, from: &<Self as Struct<'b>>::Item);
}

pub trait Var: for<'a> VariadicStruct<'a> + 'static {
    const VARS: &'static [(u8, &'static RecDef)];
    fn get<'a>(i: &<Self as VariadicStruct<'a>>::Item) -> (usize, RecVal);
    fn add<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, which: usize, v: &[u64]);
}

pub trait Bits {
    fn from_bits(v: u64, n: usize) -> Self;
    fn to_bits(self, n: usize) -> u64;
}

fn mask(v: u64, n: usize) -> u64 {
    if n >= 64 {
        v
    } else {
        v & ((1 << n) - 1)
    }
}

/// The setter calls that give a fresh record these values: any order, some fields set to another
/// value before, and zeros sometimes left as they are. `Some` is a value that is replaced later.
fn set_order(v: &[u64]) -> Vec<(usize, Option<u64>)> {
    let h = v.iter().fold(v.len() as u64, |h, x| crate::rng::mix2(h, *x));
    let n = v.len();
    let mut order: Vec<usize> = (0..n).collect();
    match h % 4 {
        0 => order.reverse(),
        1 => order.rotate_left((h >> 8) as usize % n.max(1)),
        2 => {
            for i in (1..n).rev() {
                order.swap(i, (crate::rng::mix2(h, i as u64) % (i as u64 + 1)) as usize);
            }
        }
        _ => {}
    }
    let mut out = vec![];
    match h >> 16 & 3 {
        0 => out.extend(order.iter().map(|f| (*f, Some(!v[*f])))),
        1 => out.extend(order.iter().rev().map(|f| (*f, Some(crate::rng::mix2(h, 77 + *f as u64))))),
        _ => {}
    }
    let leave_zeros = out.is_empty() && h >> 24 & 1 == 0;
    out.extend(order.iter().filter(|f| !leave_zeros || v[**f] != 0).map(|f| (*f, None)));
    out
}

macro_rules! bits_u {
    ($($t:ty),*) => { $(impl Bits for $t {
        fn from_bits(v: u64, n: usize) -> Self { mask(v, n) as $t }
        fn to_bits(self, n: usize) -> u64 {
            // a getter must give the value itself, nothing above its bits
            let v = self as u64;
            if mask(v, n) != v { return !mask(v, n) }
            v
        }
    })* };
}
macro_rules! bits_i {
    ($($t:ty),*) => { $(impl Bits for $t {
        fn from_bits(v: u64, n: usize) -> Self {
            let v = mask(v, n);
            (if n < 64 && v >> (n - 1) & 1 == 1 { v | !mask(u64::max_value(), n) } else { v }) as $t
        }
        fn to_bits(self, n: usize) -> u64 {
            let r = mask(self as i64 as u64, n);
            if <$t as Bits>::from_bits(r, n) != self { return !r }
            r
        }
    })* };
}
bits_u!(u8, u16, u32, u64);
bits_i!(i8, i16, i32, i64);
impl Bits for bool {
    fn from_bits(v: u64, _: usize) -> bool {
        v & 1 == 1
    }
    fn to_bits(self, _: usize) -> u64 {
        self as u64
    }
}

macro_rules! rec_struct {
    ($factory:ident, $name:ident, $name_mut:ident, $schema:expr, $size:expr
        $(,($field:ident, $setter:ident, $type:tt, $off:expr, $bits:expr))*) => {
        define_struct!($factory, $name, $name_mut, $schema, $size
            $(,($field, $setter, $type, $off, $bits))*);
        rec_impl!($factory, $size $(,($field, $setter, $type, $off, $bits))*);
    };
    ($factory:ident, $name:ident, $name_mut:ident, $schema:expr, $size:expr
        $(,($field:ident, $setter:ident, $type:tt: $prim:tt, $off:expr, $bits:expr))*) => {
        define_struct!($factory, $name, $name_mut, $schema, $size
            $(,($field, $setter, $type: $prim, $off, $bits))*);
        rec_impl!($factory, $size $(,($field, $setter, $type, $off, $bits))*);
    };
}
macro_rules! rec_index {
    ($factory:ident, $name:ident, $name_mut:ident, $schema:expr, $size:expr, $bits:expr) => {
        define_index!($factory, $name, $name_mut, $schema, $size, $bits);
        rec_impl!($factory, $size, (value, set_value, u64, 0, $bits));
    };
}
macro_rules! rec_impl {
    ($factory:ident, $size:expr $(,($field:ident, $setter:ident, $type:tt, $off:expr, $bits:expr))*) => {
        impl Rec for $factory {
            const DEF: &'static RecDef = &RecDef {
                name: stringify!($factory),
                size: $size,
                fields: &[$(FieldDef { name: stringify!($field), off: $off, bits: $bits }),*],
            };
            fn get<'a>(i: <Self as Struct<'a>>::Item) -> RecVal {
                vec![$(Bits::to_bits(i.$field(), $bits)),*]
            }
            fn get_mut_val<'a>(i: &<Self as Struct<'a>>::ItemMut) -> RecVal {
                vec![$(Bits::to_bits(i.$field(), $bits)),*]
            }
            #[allow(unused_assignments, unused_variables)]
            fn put<'a>(m: &mut <Self as Struct<'a>>::ItemMut, v: &[u64]) {
                for (f, first) in set_order(v) {
                    // a field may be set several times: the last value counts
                    let x = first.unwrap_or(v[f]);
                    let mut k = 0;
                    $( if k == f { m.$setter(<$type as Bits>::from_bits(x, $bits)); } k += 1; )*
                }
            }
            fn fill<'a, 'b>(m: &mut <Self as Struct<'a>>::ItemMut, from: &<Self as Struct<'b>>::Item) {
                m.fill_from(from);
            }
        }
    };
}
macro_rules! rec_variant {
    ($factory:ident, $name:ident, $builder:ident, $index:path, $($tag:expr => ($type:tt, $add:ident)),+) => {
        define_variadic_struct!($factory, $name, $builder, $index, $($tag => ($type, $add)),+);
        impl Var for $factory {
            const VARS: &'static [(u8, &'static RecDef)] = &[$(($tag, <$type as Rec>::DEF)),+];
            fn get<'a>(i: &<Self as VariadicStruct<'a>>::Item) -> (usize, RecVal) {
                match *i {
                    $($name::$type(r) => {
                        let w = Self::VARS.iter().position(|x| x.0 == $tag).unwrap();
                        (w, <$type as Rec>::get(r))
                    })+
                }
            }
            #[allow(unused_assignments)]
            fn add<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, which: usize, v: &[u64]) {
                let mut k = 0;
                $( if k == which {
                    let mut m = b.$add();
                    <$type as Rec>::put(&mut m, v);
                } k += 1; )+
            }
        }
    };
}

// ---- reading through every access path ------------------------------------------------------

pub fn read_vec<'x, T: Rec>(v: &ArrayView<'x, T>) -> Result<Vec<RecVal>, String> {
    // what is copied for comparison is not the library's memory
    let _side = crate::alloc::Side::harness();
    let n = v.len();
    let a: Vec<RecVal> = (0..n).map(|i| T::get(v.at(i))).collect();
    if v.is_empty() != (n == 0) {
        return Err("is_empty disagrees with len".into());
    }
    let f: Vec<RecVal> = v.iter().map(T::get).collect();
    if f != a {
        return Err("forward iteration disagrees with indexing".into());
    }
    if v.iter().len() != n {
        return Err("iterator length".into());
    }
    let mut b: Vec<RecVal> = v.iter().rev().map(T::get).collect();
    b.reverse();
    if b != a {
        return Err("backward iteration disagrees with indexing".into());
    }
    for i in 1..n.min(40) {
        if (v.at(i - 1) == v.at(i)) != (a[i - 1] == a[i]) || v.at(i) != v.slice(i..).at(0) {
            return Err("comparing two elements disagrees with their fields".into());
        }
    }
    if n == 0 {
        walk(v.clone(), &a, |v| v.len(), |v, b| v.slice(b), |v, i| T::get(v.at(i)), |v| v.iter(), T::get)?;
    }
    if n > 0 && n <= 200 {
        let cut = n / 3;
        let mut s: Vec<RecVal> = v.slice(..cut).iter().map(T::get).collect();
        let rest = v.slice(cut..);
        s.extend(rest.into_iter().map(T::get));
        if s != a {
            return Err("slices disagree with indexing".into());
        }
        let m = v.slice(cut..=n - 1);
        if m.len() != n - cut || T::get(m.at(0)) != a[cut] {
            return Err("inclusive slice disagrees with indexing".into());
        }
        walk(v.clone(), &a, |v| v.len(), |v, b| v.slice(b), |v, i| T::get(v.at(i)), |v| v.iter(), T::get)?;
    }
    Ok(a)
}

/// A view of anything, looked at through slices of slices and from both ends in some order; `want` is
/// what indexing showed.
fn walk<V: Clone, X: PartialEq, It, R>(
    v: V,
    want: &[X],
    len: impl Fn(&V) -> usize,
    slice: impl Fn(&V, (Bound<usize>, Bound<usize>)) -> V,
    at: impl Fn(&V, usize) -> X,
    iter: impl Fn(&V) -> It,
    get: impl Fn(R) -> X,
) -> Result<(), String>
where
    It: Iterator<Item = R> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let n = want.len();
    let mut r = crate::rng::Rng::new(n as u64 * 77 + 5);
    let (mut lo, mut hi) = (0, n);
    let mut cur = v;
    // of slices, then of iterators
    for _ in 0..3 {
        let k = hi - lo;
        let x = r.below(k as u64 / 2 + 1) as usize;
        let y = k - r.below((k - x) as u64 / 2 + 1) as usize;
        let from = match r.below(3) {
            0 if x > 0 => Bound::Excluded(x - 1),
            1 if x == 0 => Bound::Unbounded,
            _ => Bound::Included(x),
        };
        let to = match r.below(3) {
            0 if y > 0 => Bound::Included(y - 1),
            1 if y == k => Bound::Unbounded,
            _ => Bound::Excluded(y),
        };
        cur = slice(&cur, (from, to));
        hi = lo + y;
        lo += x;
        if len(&cur) != hi - lo {
            return Err("slice of wrong length".into());
        }
        if (0..hi - lo).any(|i| at(&cur, i) != want[lo + i]) {
            return Err("slice of a slice disagrees with indexing".into());
        }
    }
    let mut it = iter(&cur);
    loop {
        if it.len() != hi - lo {
            return Err("iterator length disagrees with what is left".into());
        }
        let skip = r.below(4) as usize;
        let (mut f, mut b) = (it.clone(), it.clone());
        let past = hi - lo + skip;
        if f.nth(past).is_some() || f.next().is_some() || b.nth_back(past).is_some() || b.next_back().is_some() {
            return Err("nth element past the end".into());
        }
        let bad = match r.below(6) {
            0 if hi - lo > 2 => {
                lo += 2;
                it.nth(1).map(&get).as_ref() != Some(&want[lo - 1])
            }
            1 if hi - lo > 2 => {
                hi -= 2;
                it.nth_back(1).map(&get).as_ref() != Some(&want[hi])
            }
            2 => it.clone().last().map(&get).as_ref() != if hi > lo { Some(&want[hi - 1]) } else { None } || it.clone().count() != hi - lo,
            0 | 3 | 4 => match it.next() {
                Some(x) if lo < hi => {
                    lo += 1;
                    get(x) != want[lo - 1]
                }
                None if lo == hi => {
                    if it.next_back().is_some() || it.next().is_some() {
                        return Err("iteration goes on after its end".into());
                    }
                    return Ok(());
                }
                _ => true,
            },
            _ => match it.next_back() {
                Some(x) if lo < hi => {
                    hi -= 1;
                    get(x) != want[hi]
                }
                None => lo != hi,
                _ => true,
            },
        };
        if bad {
            return Err("mixed iteration disagrees with indexing".into());
        }
    }
}

fn item<'x, V: Var>(it: flatdata_item::ItemIter<'x, V>) -> Vec<(usize, RecVal)> {
    it.map(|x| V::get(&x)).collect()
}

/// the item iterator type is not exported by name; go through the trait
mod flatdata_item {
    use flatdata::*;
    pub type ItemIter<'x, V> = Box<dyn Iterator<Item = <V as VariadicStruct<'x>>::Item> + 'x>;
}

pub fn read_multi<'x, I, V: Var>(v: &MultiArrayView<'x, I, V>) -> Result<Vec<Vec<(usize, RecVal)>>, String>
where
    I: for<'b> IndexStruct<'b>,
{
    // what is copied for comparison is not the library's memory
    let _side = crate::alloc::Side::harness();
    let n = v.len();
    let a: Vec<_> = (0..n).map(|i| item::<V>(Box::new(v.at(i)))).collect();
    if v.is_empty() != (n == 0) {
        return Err("is_empty disagrees with len".into());
    }
    let f: Vec<_> = v.iter().map(|i| item::<V>(Box::new(i))).collect();
    if f != a {
        return Err("forward iteration disagrees with indexing".into());
    }
    let mut b: Vec<_> = v.iter().rev().map(|i| item::<V>(Box::new(i))).collect();
    b.reverse();
    if b != a {
        return Err("backward iteration disagrees with indexing".into());
    }
    if n > 0 && n <= 200 {
        let cut = n / 3;
        let mut s: Vec<_> = v.slice(..cut).iter().map(|i| item::<V>(Box::new(i))).collect();
        s.extend(v.slice(cut..).iter().map(|i| item::<V>(Box::new(i))));
        if s != a {
            return Err("slices disagree with indexing".into());
        }
        let m = v.slice(cut..=n - 1);
        if m.len() != n - cut || item::<V>(Box::new(m.at(0))) != a[cut] {
            return Err("inclusive slice disagrees with indexing".into());
        }
        walk(
            v.clone(),
            &a,
            |v| v.len(),
            |v, b| v.slice(b),
            |v, i| item::<V>(Box::new(v.at(i))),
            |v| v.iter(),
            |i| {
                // elements of an item, twice
                let k = i.clone().count();
                let l = item::<V>(Box::new(i));
                if l.len() == k {
                    l
                } else {
                    vec![]
                }
            },
        )?;
    }
    Ok(a)
}

// ---- views that are kept -------------------------------------------------------------------

/// Something handed out by the library that is still in use.
pub trait Held {
    /// everything it shows, read again
    fn reread(&self) -> Result<Vec<Content>, String>;
}

pub struct HeldStruct<T: Rec>(pub <T as Struct<'static>>::Item);
impl<T: Rec> Held for HeldStruct<T> {
    fn reread(&self) -> Result<Vec<Content>, String> {
        Ok(vec![Content::Struct(T::get(self.0))])
    }
}

pub struct HeldVec<T: Rec> {
    pub view: ArrayView<'static, T>,
    items: Vec<<T as Struct<'static>>::Item>,
}
impl<T: Rec> HeldVec<T> {
    pub fn new(view: ArrayView<'static, T>) -> Self {
        let _side = crate::alloc::Side::harness();
        let items = if view.len() <= 64 { view.iter().collect() } else { vec![] };
        HeldVec { view, items }
    }
}
impl<T: Rec> Held for HeldVec<T> {
    fn reread(&self) -> Result<Vec<Content>, String> {
        let mut v = vec![Content::Vec(read_vec(&self.view)?)];
        let _side = crate::alloc::Side::harness();
        if self.view.len() <= 64 {
            v.push(Content::Vec(self.items.iter().map(|i| T::get(*i)).collect()));
        }
        Ok(v)
    }
}

pub struct HeldMulti<I: Rec + for<'b> IndexStruct<'b>, V: Var> {
    pub view: MultiArrayView<'static, I, V>,
    items: Vec<Vec<<V as VariadicStruct<'static>>::Item>>,
}
impl<I: Rec + for<'b> IndexStruct<'b>, V: Var> HeldMulti<I, V> {
    pub fn new(view: MultiArrayView<'static, I, V>) -> Self {
        let _side = crate::alloc::Side::harness();
        let items = if view.len() <= 64 { view.iter().map(|i| i.collect()).collect() } else { vec![] };
        HeldMulti { view, items }
    }
}
impl<I: Rec + for<'b> IndexStruct<'b>, V: Var> Held for HeldMulti<I, V> {
    fn reread(&self) -> Result<Vec<Content>, String> {
        let mut v = vec![Content::Multi(read_multi(&self.view)?)];
        let _side = crate::alloc::Side::harness();
        if self.view.len() <= 64 {
            v.push(Content::Multi(self.items.iter().map(|i| i.iter().map(|x| V::get(x)).collect()).collect()));
        }
        Ok(v)
    }
}

pub struct HeldRaw(pub &'static [u8]);
impl Held for HeldRaw {
    fn reread(&self) -> Result<Vec<Content>, String> {
        let _side = crate::alloc::Side::harness();
        Ok(vec![Content::Raw(self.0.to_vec())])
    }
}

// ---- writers -------------------------------------------------------------------------------

pub trait DynW {
    fn push(&mut self, e: &Elem) -> io::Result<()>;
    fn close(self: Box<Self>) -> Result<Box<dyn Held>, RSE>;
    fn check_len(&self, n: usize) -> bool;
}

impl<T: Rec> DynW for ExternalVector<'static, T> {
    fn push(&mut self, e: &Elem) -> io::Result<()> {
        match e {
            Elem::Rec(v) => {
                let mut m = self.grow()?;
                T::put(&mut m, v);
                Ok(())
            }
            _ => panic!("element does not fit"),
        }
    }
    fn close(self: Box<Self>) -> Result<Box<dyn Held>, RSE> {
        let v = (*self).close()?;
        Ok(Box::new(HeldVec::new(v)))
    }
    fn check_len(&self, n: usize) -> bool {
        self.len() == n && self.is_empty() == (n == 0) && self.is_open()
    }
}

impl<I: Rec + for<'b> IndexStruct<'b>, V: Var> DynW for MultiVector<'static, I, V> {
    fn push(&mut self, e: &Elem) -> io::Result<()> {
        match e {
            Elem::Item(it) => {
                let mut b = self.grow()?;
                for (w, v) in it {
                    V::add(&mut b, *w, v);
                }
                Ok(())
            }
            _ => panic!("element does not fit"),
        }
    }
    fn close(self: Box<Self>) -> Result<Box<dyn Held>, RSE> {
        let v = (*self).close()?;
        Ok(Box::new(HeldMulti::new(v)))
    }
    fn check_len(&self, _: usize) -> bool {
        true
    }
}

// ---- archives ------------------------------------------------------------------------------

pub trait DynBuilder {
    fn dup(&self) -> Box<dyn DynBuilder>;
    fn set(&self, part: &str, c: &Content, how: u64) -> io::Result<()>;
    /// the writer borrows the builder; the caller keeps the builder alive longer
    fn start(&self, part: &str) -> io::Result<Box<dyn DynW>>;
    fn sub(&self, part: &str) -> Result<Box<dyn DynBuilder>, RSE>;
}

pub trait DynArchive {
    fn dup(&self) -> Box<dyn DynArchive>;
    /// None if the part is reported absent
    fn read(&self, part: &str) -> Result<Option<Content>, String>;
    fn hold(&self, part: &str) -> Option<Box<dyn Held>>;
    fn sub(&self, part: &str) -> Option<&dyn DynArchive>;
    /// number of elements only
    fn debug(&self) -> String;
}

pub struct ArcDef {
    pub name: &'static str,
    pub schema: &'static str,
    pub parts: &'static [PartDef],
    pub create: fn(Store) -> Result<Box<dyn DynBuilder>, RSE>,
    pub open: fn(Store) -> Result<Box<dyn DynArchive>, RSE>,
}

impl std::fmt::Debug for ArcDef {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "ArcDef({})", self.name)
    }
}

impl ArcDef {
    pub fn part(&self, name: &str) -> Option<&'static PartDef> {
        self.parts.iter().find(|p| p.name == name)
    }
}

pub trait ArcType {
    const DEF: &'static ArcDef;
}

macro_rules! to_opt {
    ($e:expr, false) => {
        Some($e)
    };
    ($e:expr, true) => {
        $e
    };
}
macro_rules! to_opt_ref {
    ($e:expr, false) => {
        Some($e)
    };
    ($e:expr, true) => {
        $e.as_ref()
    };
}

fn build_struct<T: Rec>(v: &[u64], how: u64) -> StructBuf<T> {
    let mut b = StructBuf::<T>::new();
    if how & 1 == 1 {
        let mut other = StructBuf::<T>::default();
        T::put(&mut other.get_mut(), v);
        T::fill(&mut b.get_mut(), &other.get());
    } else {
        T::put(&mut b.get_mut(), v);
    }
    b
}

fn build_vec<T: Rec>(v: &[RecVal], how: u64) -> Vector<T> {
    match how % 6 {
        0 => {
            let mut b = Vector::<T>::with_len(v.len());
            for (i, r) in v.iter().enumerate() {
                T::put(&mut b.at_mut(i), r);
            }
            b
        }
        1 => {
            let mut b = Vector::<T>::new();
            for r in v {
                T::put(&mut b.grow(), r);
            }
            b
        }
        2 => {
            let mut b = Vector::<T>::default();
            b.reserve(v.len() / 2 + 1);
            for r in v {
                let mut m = b.grow();
                T::put(&mut m, r);
            }
            b
        }
        3 => {
            // the first ones are there, the others come later; filled from the end
            let mut b = Vector::<T>::with_len(v.len() / 2);
            b.reserve(3);
            while b.len() < v.len() {
                b.grow();
            }
            for (i, r) in v.iter().enumerate().rev() {
                T::put(&mut b.at_mut(i), r);
            }
            b
        }
        4 => {
            // grown from parts of another vector
            let mut o = Vector::<T>::new();
            for r in v {
                T::put(&mut o.grow(), r);
            }
            let mut b = Vector::<T>::with_len(0);
            for i in 0..v.len() {
                let view = o.as_view();
                T::fill(&mut b.grow(), &view.at(i));
                if i % 5 == 0 {
                    b.reserve(i);
                }
            }
            b
        }
        _ => {
            let mut b = Vector::<T>::new();
            for (i, r) in v.iter().enumerate() {
                T::put(&mut b.grow(), r);
                // a look at what is there already
                assert_eq!(b.as_view().len(), i + 1);
                assert_eq!(b.as_bytes().len(), (i + 1) * T::DEF.size);
                if i % 3 == 0 {
                    b.reserve(1);
                }
            }
            b
        }
    }
}

macro_rules! sim_archive {
    ($name:ident, $builder_name:ident, $archive_schema:expr;
        $(($s:ident, $s_set:ident, $s_type:tt, $s_schema:expr, $s_opt:ident)),*;
        $(($v:ident, $v_set:ident, $v_start:ident, $v_type:tt, $v_schema:expr, $v_opt:ident)),*;
        $(($m:ident, $m_start:ident, $m_type:tt, $m_schema:expr, $m_index:ident, $m_itype:path, $m_opt:ident)),*;
        $(($r:ident, $r_set:ident, $r_schema:expr, $r_opt:ident)),*;
        $(($a:ident, $a_type:tt, $a_builder:tt, $a_schema:expr, $a_opt:ident)),*
    ) => {
        define_archive!($name, $builder_name, $archive_schema;
            $(($s, $s_set, $s_type, $s_schema, $s_opt)),*;
            $(($v, $v_set, $v_start, $v_type, $v_schema, $v_opt)),*;
            $(($m, $m_start, $m_type, $m_schema, $m_index, $m_itype, $m_opt)),*;
            $(($r, $r_set, $r_schema, $r_opt)),*;
            $(($a, $a_type, $a_builder, $a_schema, $a_opt)),*
        );

        impl DynBuilder for $builder_name {
            fn dup(&self) -> Box<dyn DynBuilder> {
                Box::new(self.clone())
            }
            #[allow(unused_variables)]
            fn set(&self, part: &str, c: &Content, how: u64) -> io::Result<()> {
                match (part, c) {
                    $((stringify!($s), Content::Struct(v)) => {
                        if how / 6 == 1 {
                            // an element of a vector
                            let b = build_vec::<$s_type>(&[v.clone(), v.clone(), vec![0; v.len()]], how);
                            self.$s_set(b.at(1))
                        } else {
                            let b = build_struct::<$s_type>(v, how);
                            self.$s_set(b.get())
                        }
                    })*
                    $((stringify!($v), Content::Vec(v)) => {
                        let n = v.len();
                        let other = || vec![u64::max_value(); <$v_type as Rec>::DEF.fields.len()];
                        match how / 6 {
                            0 | 1 => self.$v_set(&build_vec::<$v_type>(v, how).as_view()),
                            2 => {
                                // a slice of more
                                let mut more = vec![other()];
                                more.extend(v.iter().cloned());
                                more.push(other());
                                let b = build_vec::<$v_type>(&more, how);
                                self.$v_set(&b.as_view().slice(1..=n))
                            }
                            _ => {
                                let mut more = v.clone();
                                more.push(other());
                                let b = build_vec::<$v_type>(&more, how);
                                let view = b.as_view();
                                self.$v_set(&view.slice(..n))
                            }
                        }
                    })*
                    $((stringify!($r), Content::Raw(v)) => {
                        let k = (how % 5) as usize;
                        let mut more = vec![0xa5; k];
                        more.extend_from_slice(v);
                        more.push(0x5a);
                        self.$r_set(&more[k..k + v.len()])
                    })*
                    _ => panic!("set: no such part"),
                }
            }
            fn start(&self, part: &str) -> io::Result<Box<dyn DynW>> {
                #[allow(unused_variables)]
                let me: &'static Self = unsafe { &*(self as *const Self) };
                match part {
                    $(stringify!($v) => Ok(Box::new(me.$v_start()?)),)*
                    $(stringify!($m) => Ok(Box::new(me.$m_start()?)),)*
                    _ => panic!("start: no such part"),
                }
            }
            fn sub(&self, part: &str) -> Result<Box<dyn DynBuilder>, RSE> {
                match part {
                    $(stringify!($a) => Ok(Box::new(self.$a()?)),)*
                    _ => panic!("sub: no such part"),
                }
            }
        }

        impl DynArchive for $name {
            fn dup(&self) -> Box<dyn DynArchive> {
                Box::new(self.clone())
            }
            fn read(&self, part: &str) -> Result<Option<Content>, String> {
                match part {
                    $(stringify!($s) => Ok(to_opt!(self.$s(), $s_opt).map(|x| Content::Struct(<$s_type as Rec>::get(x)))),)*
                    $(stringify!($v) => match to_opt!(self.$v(), $v_opt) {
                        Some(x) => Ok(Some(Content::Vec(read_vec::<$v_type>(&x)?))),
                        None => Ok(None),
                    },)*
                    $(stringify!($m) => match to_opt!(self.$m(), $m_opt) {
                        Some(x) => Ok(Some(Content::Multi(read_multi::<$m_itype, $m_type>(&x)?))),
                        None => Ok(None),
                    },)*
                    $(stringify!($r) => Ok(to_opt!(self.$r(), $r_opt).map(|x| {
                        let _side = crate::alloc::Side::harness();
                        Content::Raw(x.to_vec())
                    })),)*
                    _ => panic!("read: no such part"),
                }
            }
            fn hold(&self, part: &str) -> Option<Box<dyn Held>> {
                #[allow(unused_variables)]
                let me: &'static Self = unsafe { &*(self as *const Self) };
                match part {
                    $(stringify!($s) => to_opt!(me.$s(), $s_opt).map(|x| Box::new(HeldStruct::<$s_type>(x)) as Box<dyn Held>),)*
                    $(stringify!($v) => to_opt!(me.$v(), $v_opt).map(|x| Box::new(HeldVec::<$v_type>::new(x)) as Box<dyn Held>),)*
                    $(stringify!($m) => to_opt!(me.$m(), $m_opt).map(|x| Box::new(HeldMulti::<$m_itype, $m_type>::new(x)) as Box<dyn Held>),)*
                    $(stringify!($r) => to_opt!(me.$r(), $r_opt).map(|x| Box::new(HeldRaw(x)) as Box<dyn Held>),)*
                    _ => panic!("hold: no such part"),
                }
            }
            fn sub(&self, part: &str) -> Option<&dyn DynArchive> {
                match part {
                    $(stringify!($a) => to_opt_ref!(self.$a(), $a_opt).map(|x| x as &dyn DynArchive),)*
                    _ => panic!("sub: no such part"),
                }
            }
            fn debug(&self) -> String {
                format!("{:?}", self)
            }
        }

        impl ArcType for $name {
            const DEF: &'static ArcDef = &ArcDef {
                name: stringify!($name),
                schema: $archive_schema,
                parts: &[
                    $(PartDef { name: stringify!($s), kind: PartKind::Struct(<$s_type as Rec>::DEF), schema: $s_schema, optional: $s_opt },)*
                    $(PartDef { name: stringify!($v), kind: PartKind::Vec(<$v_type as Rec>::DEF), schema: $v_schema, optional: $v_opt },)*
                    $(PartDef { name: stringify!($m), kind: PartKind::Multi {
                        index: <$m_itype as Rec>::DEF, index_name: stringify!($m_index), variants: <$m_type as Var>::VARS },
                        schema: $m_schema, optional: $m_opt },)*
                    $(PartDef { name: stringify!($r), kind: PartKind::Raw, schema: $r_schema, optional: $r_opt },)*
                    $(PartDef { name: stringify!($a), kind: PartKind::Sub(<$a_type as ArcType>::DEF), schema: $a_schema, optional: $a_opt },)*
                ],
                create: |s| Ok(Box::new(<$builder_name as ArchiveBuilder>::new(s)?)),
                open: |s| Ok(Box::new(<$name as Archive>::open(s)?)),
            };
        }
    };
}

// ---- records -------------------------------------------------------------------------------

rec_struct!(P, RefP, RefMutP, "struct P { x : u32 : 16; y : u32 : 16; }", 4,
    (x, set_x, u32, 0, 16),
    (y, set_y, u32, 16, 16));

rec_struct!(Q, RefQ, RefMutQ, "struct Q { a : u8 : 3; b : i16 : 11; c : bool; d : u64 : 33; }", 6,
    (a, set_a, u8, 0, 3),
    (b, set_b, i16, 3, 11),
    (c, set_c, bool, 14, 1),
    (d, set_d, u64, 15, 33));

rec_struct!(T1, RefT1, RefMutT1, "struct T1 { v : u8 : 8; }", 1,
    (v, set_v, u8, 0, 8));

rec_struct!(T8, RefT8, RefMutT8, "struct T8 { v : u64 : 64; }", 8,
    (v, set_v, u64, 0, 64));

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Color {
    C0 = 0,
    C1 = 1,
    C2 = 2,
    C3 = 3,
}
impl flatdata::helper::Int for Color {
    const IS_SIGNED: bool = false;
}
impl Bits for Color {
    fn from_bits(v: u64, _: usize) -> Color {
        match v & 3 {
            0 => Color::C0,
            1 => Color::C1,
            2 => Color::C2,
            _ => Color::C3,
        }
    }
    fn to_bits(self, _: usize) -> u64 {
        self as u64
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(i16)]
pub enum Sgn {
    N = -2,
    M = -1,
    Z = 0,
    P = 1,
}
impl flatdata::helper::Int for Sgn {
    const IS_SIGNED: bool = true;
}
impl Bits for Sgn {
    fn from_bits(v: u64, _: usize) -> Sgn {
        match v & 3 {
            0 => Sgn::Z,
            1 => Sgn::P,
            2 => Sgn::N,
            _ => Sgn::M,
        }
    }
    fn to_bits(self, _: usize) -> u64 {
        self as i16 as u64 & 3
    }
}

rec_struct!(E, RefE, RefMutE, "struct E { c : Color : 2; k : u32 : 13; s : Sgn : 2; z : i64 : 47; }", 8,
    (c, set_c, Color: u8, 0, 2),
    (k, set_k, u32: u32, 2, 13),
    (s, set_s, Sgn: i16, 15, 2),
    (z, set_z, i64: i64, 17, 47));

const MB: usize = 1 << 20;

// a few large records cross the 32 MiB buffer limit of streamed parts
rec_struct!(Huge, RefHuge, RefMutHuge, "struct Huge", 5 * MB + 3,
    (a, set_a, u64, 0, 64),
    (b, set_b, u32, 8 * (2 * MB) + 5, 31),
    (c, set_c, u64, 8 * (4 * MB + 1) + 3, 64),
    (d, set_d, u16, 8 * (5 * MB + 1), 16));
rec_struct!(Wide, RefWide, RefMutWide, "struct Wide", 3 * MB + 1,
    (a, set_a, u16, 3, 13),
    (b, set_b, i64, 8 * (3 * MB) - 40, 48));

// many of these do it, too
rec_struct!(Kilo, RefKilo, RefMutKilo, "struct Kilo", 1021,
    (a, set_a, u32, 0, 32),
    (b, set_b, i16, 8 * 500 + 3, 11),
    (c, set_c, u64, 8 * 1021 - 39, 39));

rec_index!(Idx32, RefIdx32, RefMutIdx32, "index 32", 4, 32);
rec_index!(Idx64, RefIdx64, RefMutIdx64, "index 64", 8, 64);
rec_index!(Idx40, RefIdx40, RefMutIdx40, "index 40", 5, 40);
rec_index!(Idx16, RefIdx16, RefMutIdx16, "index 16", 2, 16);
// bits that belong to no field stay zero
rec_index!(Idx33, RefIdx33, RefMutIdx33, "index 33", 5, 33);
rec_index!(Idx11, RefIdx11, RefMutIdx11, "index 11", 2, 11);
rec_index!(Idx8, RefIdx8, RefMutIdx8, "index 8", 1, 8);
// an index record so large that the index itself is flushed while growing
define_struct!(IdxHuge, RefIdxHuge, RefMutIdxHuge, "index huge", 7 * MB,
    (value, set_value, u64, 0, 40));
rec_impl!(IdxHuge, 7 * MB, (value, set_value, u64, 0, 40));
impl<'a> IndexStruct<'a> for IdxHuge {
    fn index(data: Self::Item) -> usize {
        data.value() as usize
    }
    fn set_index(mut data: Self::ItemMut, value: usize) {
        data.set_value(value as u64);
    }
}

rec_variant!(PQ, RefPQ, BuilderPQ, Idx32, 0 => (P, add_p), 1 => (Q, add_q), 7 => (T1, add_t));
rec_variant!(PE, RefPE, BuilderPE, Idx64, 0 => (P, add_p), 255 => (E, add_e), 3 => (T8, add_w));
rec_variant!(QT, RefQT, BuilderQT, Idx40, 2 => (Q, add_q), 1 => (T1, add_t));
rec_variant!(N8, RefN8, BuilderN8, Idx8, 0 => (T8, add_a), 1 => (P, add_p));
rec_variant!(N11, RefN11, BuilderN11, Idx11, 4 => (T8, add_a), 200 => (Q, add_q));
rec_variant!(N16, RefN16, BuilderN16, Idx16, 0 => (T8, add_a), 1 => (L0, add_l));
rec_variant!(HV, RefHV, BuilderHV, Idx64, 0 => (Huge, add_h), 1 => (P, add_p), 2 => (Wide, add_w));
rec_variant!(KV, RefKV, BuilderKV, Idx32, 0 => (Kilo, add_k), 1 => (P, add_p), 2 => (T1, add_t));
rec_variant!(HI, RefHI, BuilderHI, IdxHuge, 0 => (P, add_p), 1 => (Q, add_q));

// ---- archives ------------------------------------------------------------------------------

sim_archive!(Mini, MiniBuilder, "namespace m {\narchive Mini\n{\n    meta : P;\n    blob : raw_data;\n}\n}";
    (meta, set_meta, P, "struct P\n{\n    x : u32 : 16;\n    y : u32 : 16;\n}", false);
    ;
    ;
    (blob, set_blob, "archive Mini { blob : raw_data; }", false);
);

sim_archive!(Flat, FlatBuilder,
    "// every kind of part, required and optional \u{2014} in UTF-8\narchive Flat\n{\n    head : P;\n    tail : Q;\n}\n";
    (head, set_head, P, "head : P", false),
    (tail, set_tail, Q, " @optional\ntail : Q\r", true);
    (vs, set_vs, start_vs, P, "vs : vector< P >", false),
    (ws, set_ws, start_ws, Q, "@optional\nws : vector< Q >", true);
    (ms, start_ms, PQ, "ms : multivector< 32, P, Q, T1 >", ms_index, Idx32, false),
    (ns, start_ns, PE, "\t@optional\r\nns : multivector< 64, P, E, T8 > ", ns_index, Idx64, true);
    (raw, set_raw, "raw : raw_data", false),
    (opt, set_opt, "@optional\nopt : raw_data", true);
);

sim_archive!(Leaf, LeafBuilder, "archive Leaf { one : E; list : vector< T8 >; }\n ";
    (one, set_one, E, "one : E", false);
    (list, set_list, start_list, T8, "list : vector< T8 >", false);
    ;
    ;
);

sim_archive!(Mid, MidBuilder, "archive Mid { data; qs; deep : Leaf; maybe : Leaf; }";
    ;
    (qs, set_qs, start_qs, Q, "\n  qs : vector< Q >\n\n", true);
    ;
    (data, set_data, "data : raw_data\u{a0}", false);
    (deep, Leaf, LeafBuilder, "deep : archive Leaf", false),
    (maybe, Leaf, LeafBuilder, "maybe : archive Leaf", true)
);

sim_archive!(Nest, NestBuilder, "archive Nest\n{\n    a : archive Mid;\n    b : archive Leaf;\n    @optional c : archive Mid;\n    top : vector< P >;\n}";
    ;
    (top, set_top, start_top, P, "top : vector< P >", false);
    (mv, start_mv, QT, "mv : multivector< 40, Q, T1 >\n", mv_index, Idx40, true);
    ;
    (a, Mid, MidBuilder, "a : archive Mid", false),
    (b, Leaf, LeafBuilder, "b : archive Leaf", false),
    (c, Mid, MidBuilder, "@optional c : archive Mid", true)
);

macro_rules! long {
    ($head:expr, $tail:expr) => {
        concat!($head, twice!(twice!(twice!(twice!(twice!(twice!("    some_field_of_this_archive : vector< Some_type_1 >;\n    /// remark\n    @optional( other ) other_field : u32 : 17;\n")))))), $tail)
    };
}
macro_rules! twice {
    ($($x:tt)*) => {
        concat!($($x)*, $($x)*)
    };
}
sim_archive!(AllOpt, AllOptBuilder, long!("archive AllOpt { everything is optional;\n", "}");
    (s, set_s, E, "s : E", true),
    (s2, set_s2, T1, "s2 : T1", true);
    (v, set_v, start_v, T1, "v : vector< T1 >", true),
    (v2, set_v2, start_v2, E, "\u{feff}v2 : vector< E >;", true);
    (m, start_m, PQ, "m : multivector< 32, P, Q, T1 >", m_index, Idx32, true),
    (m2, start_m2, QT, "m2 : multivector< 40, Q, T1 >\r\n/* Ä\tÖ */  ", m2_index, Idx40, true);
    (r, set_r, "r : raw_data", true),
    (r2, set_r2, long!("r2 : raw_data {\n", "}"), true);
    (l, Leaf, LeafBuilder, "l : archive Leaf", true),
    (l2, Leaf, LeafBuilder, "l2 : archive Leaf", true)
);

sim_archive!(Many, ManyBuilder, "archive Many { ks; ts; km; }";
    ;
    (ks, set_ks, start_ks, Kilo, "ks : vector< Kilo >", true),
    (ts, set_ts, start_ts, T1, "ts : vector< T1 >", true);
    (km, start_km, KV, "km : multivector< 32, Kilo, P, T1 >", km_index, Idx32, true);
    (r, set_r, "r : raw_data", true);
);

sim_archive!(Big, BigBuilder, "archive Big { hs; gs; hm; }";
    ;
    (hs, set_hs, start_hs, Huge, "hs : vector< Huge >", true),
    (gs, set_gs, start_gs, Wide, "gs : vector< Wide >", true),
    (ps, set_ps, start_ps, P, "ps : vector< P >", true);
    (hm, start_hm, HV, "hm : multivector< 64, Huge, P, Wide >", hm_index, Idx64, true),
    (im, start_im, HI, "im : multivector< huge, P, Q >", im_index, IdxHuge, true);
    (r, set_r, "r : raw_data", true);
);

sim_archive!(Narrow, NarrowBuilder, "archive Narrow { e; s; }";
    ;
    ;
    (e, start_e, N8, "e : multivector< 8, T8, P >", e_index, Idx8, true),
    (s, start_s, N16, "s : multivector< 16, T8, L0 >", s_index, Idx16, true),
    (o, start_o, N11, "o : multivector< 11, T8, Q >", o_index, Idx11, true);
    ;
);

include!("layouts.rs");

pub fn all() -> Vec<&'static ArcDef> {
    vec![
        Mini::DEF, Flat::DEF, Leaf::DEF, Mid::DEF, Nest::DEF, AllOpt::DEF, Big::DEF, Many::DEF, Narrow::DEF, Lay::DEF, Every::DEF,
    ]
}

pub fn by_name(n: &str) -> Option<&'static ArcDef> {
    all().into_iter().find(|a| a.name == n)
}
