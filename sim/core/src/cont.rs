//! Containers behind an object-safe interface. The adaptors call the real containers.
use hibit_tree::*;
use hibit_tree::const_utils::*;
use hibit_tree::config::SparseTreeLevels;
use crate::env::*;
use crate::val::*;
use crate::view::{View, RegView};

pub trait Cont: RegularHibitTree + Sized + 'static
where Self: for<'a> HibitTreeTypes<'a>
{
    type T: SimVal;
    const DENSE: bool;
    fn c_new() -> Self;
    fn c_insert(&mut self, k: usize, v: Self::T);
    fn c_goi(&mut self, k: usize) -> &mut Self::T;
    fn c_remove(&mut self, k: usize) -> Option<Self::T>;
    /// None - not supported
    fn c_get_mut(&mut self, _k: usize) -> Option<Option<&mut Self::T>> { None }
    unsafe fn c_get_mut_unchecked(&mut self, _k: usize) -> Option<&mut Self::T> { None }
    fn c_gdef(&self, _k: usize) -> Option<&Self::T> { None }
    const HAS_DEF: bool = false;
    fn c_kv(&self) -> (&[usize], &[Self::T]);
    fn c_kv_mut(&mut self) -> (&[usize], &mut [Self::T]);
}

/// Keys are given in every form the API accepts.
macro_rules! ops_common {
    () => {
        fn c_insert(&mut self, k: usize, v: T) { if k & 3 == 3 { self.insert(Index::from(k), v) } else { self.insert(k, v) } }
        fn c_goi(&mut self, k: usize) -> &mut T { self.get_or_insert(k) }
        fn c_remove(&mut self, k: usize) -> Option<T> { if k & 3 == 2 { self.remove(Index::from(k)) } else { self.remove(k) } }
        fn c_kv(&self) -> (&[usize], &[T]) { self.key_values() }
        fn c_kv_mut(&mut self) -> (&[usize], &mut [T]) { self.key_values_mut() }
    };
}
impl<T: SimVal, const D: usize> Cont for DenseTree<T, D>
where ConstUsize<D>: ConstInteger
{
    type T = T;
    const DENSE: bool = true;
    fn c_new() -> Self { Default::default() }
    ops_common!();
}
macro_rules! sparse {
    ($b:literal, $($x:tt)*) => {
        impl<L: SparseTreeLevels + 'static, T: SimVal> Cont for SparseTree<L, T, ReqDefault<$b>> {
            type T = T;
            const DENSE: bool = false;
            fn c_new() -> Self { Default::default() }
            fn c_get_mut(&mut self, k: usize) -> Option<Option<&mut T>> { Some(self.get_mut(k)) }
            unsafe fn c_get_mut_unchecked(&mut self, k: usize) -> Option<&mut T> { Some(self.get_mut_unchecked(k)) }
            ops_common!();
            $($x)*
        }
    };
}
sparse!(false, );
sparse!(true,
    fn c_gdef(&self, k: usize) -> Option<&T> { Some(self.get_or_default(k)) }
    const HAS_DEF: bool = true;
);

pub trait Tree {
    fn kind(&self) -> usize;
    fn dense(&self) -> bool;
    fn zst(&self) -> bool;
    fn has_def(&self) -> bool;
    fn has_mut(&self) -> bool;
    fn range(&self) -> Result<std::ops::Range<usize>, Pan>;
    fn insert(&mut self, k: usize, payload: u32) -> (u64, Result<(), Pan>);
    fn goi(&mut self, k: usize, set: Option<u32>) -> Result<u64, Pan>;
    fn remove(&mut self, k: usize) -> Result<Option<u64>, Pan>;
    fn get(&self, k: usize) -> Result<Option<u64>, Pan>;
    fn getu(&self, k: usize) -> Result<u64, Pan>;
    fn gmut(&mut self, k: usize, set: Option<u32>) -> Result<Option<u64>, Pan>;
    fn gmutu(&mut self, k: usize, set: Option<u32>) -> Result<Option<u64>, Pan>;
    fn gdef(&self, k: usize) -> Result<Option<u64>, Pan>;
    /// keys, values (lengths may differ)
    fn kv(&self, keys: &mut Vec<usize>, vals: &mut Vec<u64>) -> Result<(), Pan>;
    fn kv_set(&mut self, i: usize, payload: u32) -> Result<Option<(usize, u64)>, Pan>;
    fn kv_swap(&mut self, i: usize, j: usize) -> Result<Option<(usize, usize)>, Pan>;
    fn swap(&mut self, other: &mut dyn Tree);
    fn take(&mut self) -> Result<Box<dyn Tree>, Pan>;
    fn relocate(self: Box<Self>) -> Box<dyn Tree>;
    fn destroy(self: Box<Self>) -> Result<(), Pan>;
    fn raw(&self) -> *const u8;
    fn raw_mut(&mut self) -> *mut u8;
    fn view(&self) -> Box<dyn View>;
}

pub struct TreeBox<C: Cont> {
    /// Lives in its own (real) heap block, so that it can be moved.
    c: Box<std::mem::MaybeUninit<C>>,
    kind: usize,
}
impl<C: Cont> TreeBox<C>
where C: for<'a> HibitTreeTypes<'a, Data = &'a <C as Cont>::T, DataUnchecked = &'a <C as Cont>::T>
{
    pub fn create(kind: usize) -> Result<Box<dyn Tree>, Pan> {
        let c = sut(|| C::c_new())?;
        Ok(Self::wrap(c, kind))
    }
    pub fn wrap(c: C, kind: usize) -> Box<dyn Tree> {
        host(|| Box::new(TreeBox { c: Box::new(std::mem::MaybeUninit::new(c)), kind }))
    }
    fn get_c(&self) -> &C { unsafe { self.c.assume_init_ref() } }
    fn mut_c(&mut self) -> &mut C { unsafe { self.c.assume_init_mut() } }
}

fn edit<T: SimVal>(v: &mut T, set: Option<u32>) -> u64 {
    if v.look() == BAD { return BAD; }
    if let Some(p) = set { v.set(p); }
    v.look()
}

impl<C: Cont> Tree for TreeBox<C>
where C: for<'a> HibitTreeTypes<'a, Data = &'a <C as Cont>::T, DataUnchecked = &'a <C as Cont>::T>
{
    fn kind(&self) -> usize { self.kind }
    fn dense(&self) -> bool { C::DENSE }
    fn zst(&self) -> bool { C::T::ZST }
    fn has_def(&self) -> bool { C::HAS_DEF }
    fn has_mut(&self) -> bool { !C::DENSE }
    fn range(&self) -> Result<std::ops::Range<usize>, Pan> { sut(|| crate::view::bounds(C::index_range())) }
    fn insert(&mut self, k: usize, payload: u32) -> (u64, Result<(), Pan>) {
        let v = C::T::make(payload);
        let id = v.look();
        let c = self.mut_c();
        (id, sut(|| c.c_insert(k, v)))
    }
    fn goi(&mut self, k: usize, set: Option<u32>) -> Result<u64, Pan> {
        let c = self.mut_c();
        sut(|| edit(c.c_goi(k), set))
    }
    fn remove(&mut self, k: usize) -> Result<Option<u64>, Pan> {
        let c = self.mut_c();
        // the returned value is dropped outside of the library
        let v = sut(|| c.c_remove(k))?;
        Ok(v.map(|v| {
            let r = v.look();
            if r == BAD { std::mem::forget(v) }
            r
        }))
    }
    fn get(&self, k: usize) -> Result<Option<u64>, Pan> {
        let c = self.get_c();
        sut(|| if k & 3 == 1 { c.get(Index::from(k)).map(|v| v.look()) } else { c.get(k).map(|v| v.look()) })
    }
    fn getu(&self, k: usize) -> Result<u64, Pan> {
        let c = self.get_c();
        sut(|| unsafe { c.get_unchecked(k).look() })
    }
    fn gmut(&mut self, k: usize, set: Option<u32>) -> Result<Option<u64>, Pan> {
        let c = self.mut_c();
        sut(|| c.c_get_mut(k).and_then(|v| v.map(|v| edit(v, set))))
    }
    fn gmutu(&mut self, k: usize, set: Option<u32>) -> Result<Option<u64>, Pan> {
        let c = self.mut_c();
        sut(|| unsafe { c.c_get_mut_unchecked(k).map(|v| edit(v, set)) })
    }
    fn gdef(&self, k: usize) -> Result<Option<u64>, Pan> {
        let c = self.get_c();
        sut(|| c.c_gdef(k).map(|v| v.look()))
    }
    fn kv(&self, keys: &mut Vec<usize>, vals: &mut Vec<u64>) -> Result<(), Pan> {
        let c = self.get_c();
        let (k, v) = sut(|| c.c_kv())?;
        keys.clear();
        vals.clear();
        if k.len() > 1 << 24 || v.len() > 1 << 24 {
            violate(Class::Kv, || format!("unordered view of {} keys and {} values", k.len(), v.len()));
            return Ok(());
        }
        keys.extend_from_slice(k);
        for v in v {
            let x = v.look();
            vals.push(x);
            if x == BAD { break; }
        }
        Ok(())
    }
    fn kv_set(&mut self, i: usize, payload: u32) -> Result<Option<(usize, u64)>, Pan> {
        let c = self.mut_c();
        let (k, v) = sut(|| c.c_kv_mut())?;
        if k.is_empty() || v.is_empty() { return Ok(None); }
        let i = i % k.len().min(v.len());
        Ok(Some((k[i], edit(&mut v[i], Some(payload)))))
    }
    fn kv_swap(&mut self, i: usize, j: usize) -> Result<Option<(usize, usize)>, Pan> {
        let c = self.mut_c();
        let (k, v) = sut(|| c.c_kv_mut())?;
        let n = k.len().min(v.len());
        if n == 0 { return Ok(None); }
        let (i, j) = (i % n, j % n);
        v.swap(i, j);
        Ok(Some((k[i], k[j])))
    }
    fn swap(&mut self, other: &mut dyn Tree) {
        debug_assert_eq!(self.kind, other.kind());
        unsafe {
            let o = other.raw_mut() as *mut C;
            std::mem::swap(self.mut_c(), &mut *o);
        }
    }
    fn take(&mut self) -> Result<Box<dyn Tree>, Pan> {
        let c = self.mut_c();
        let old = sut(|| std::mem::replace(c, C::c_new()))?;
        Ok(Self::wrap(old, self.kind))
    }
    fn relocate(mut self: Box<Self>) -> Box<dyn Tree> {
        unsafe {
            let c = std::ptr::read(self.c.as_ptr());
            let moved = Box::new(std::mem::MaybeUninit::new(c));
            // the old place is overwritten
            (self.c.as_mut_ptr() as *mut u8).write_bytes(0xDD, std::mem::size_of::<C>());
            Box::new(TreeBox { c: moved, kind: self.kind })
        }
    }
    fn destroy(self: Box<Self>) -> Result<(), Pan> {
        let c = unsafe { std::ptr::read(self.c.as_ptr()) };
        sut(move || drop(c))
    }
    fn raw(&self) -> *const u8 { self.c.as_ptr() as *const u8 }
    fn raw_mut(&mut self) -> *mut u8 { self.c.as_mut_ptr() as *mut u8 }
    fn view(&self) -> Box<dyn View> {
        let c: &'static C = unsafe { &*self.c.as_ptr() };
        Box::new(RegView::<C>::borrowed(c))
    }
}
