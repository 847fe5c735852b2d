// Thin C-ABI wrappers around the public API of atomic-maybe-uninit, one function per
// (type, operation, ordering).  Every value crosses the boundary by pointer, as raw bytes,
// so that nothing here interprets it.  Built for every configuration under test, both as
// machine code (replay of specification behaviours) and as LLVM IR / assembly (input of the
// machine-level specification).
#![no_std]
#![allow(clippy::all, unused_macros, unused_imports, dead_code)]
use atomic_maybe_uninit::{raw, AtomicMaybeUninit};
use core::mem::{self, MaybeUninit};
use core::sync::atomic::Ordering;

#[cfg(not(irmode))]
#[panic_handler]
fn panic(info: &core::panic::PanicInfo<'_>) -> ! {
    extern "C" {
        fn vp_panic(p: *const u8, n: usize) -> !;
    }
    let m = info.message();
    let s = m.as_str().unwrap_or("<formatted>");
    unsafe { vp_panic(s.as_ptr(), s.len()) }
}

macro_rules! ord {
    (0) => { Ordering::Relaxed };
    (1) => { Ordering::Release };
    (2) => { Ordering::Acquire };
    (3) => { Ordering::AcqRel };
    (4) => { Ordering::SeqCst };
}
#[inline(always)]
fn rt_ord(o: u32) -> Ordering {
    match o {
        0 => Ordering::Relaxed,
        1 => Ordering::Release,
        2 => Ordering::Acquire,
        3 => Ordering::AcqRel,
        _ => Ordering::SeqCst,
    }
}
type P = *mut u8;
type Cb = unsafe extern "C" fn(ctx: P, prev: P, next: P) -> u32;

macro_rules! cell { ($t:ty, $p:ident) => { (*($p as *const AtomicMaybeUninit<$t>)) }; }
macro_rules! rd { ($t:ty, $p:ident) => { ($p as *const MaybeUninit<$t>).read() }; }
macro_rules! wr { ($t:ty, $p:ident, $v:expr) => { ($p as *mut MaybeUninit<$t>).write($v) }; }
macro_rules! res {
    ($t:ty, $out:ident, $e:expr) => {
        match $e {
            Ok(v) => { wr!($t, $out, v); 1 }
            Err(v) => { wr!($t, $out, v); 0 }
        }
    };
}

macro_rules! f_ld { ($t:ident, $o:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, _a: P, _b: P, out: P) -> u32 {
        let r = cell!($t, c).load(ord!($o)); wr!($t, out, r); 1
    }
}}
macro_rules! f_st { ($t:ident, $o:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, a: P, _b: P, _out: P) -> u32 {
        cell!($t, c).store(rd!($t, a), ord!($o)); 1
    }
}}
macro_rules! f_sw { ($t:ident, $o:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, a: P, _b: P, out: P) -> u32 {
        let r = cell!($t, c).swap(rd!($t, a), ord!($o)); wr!($t, out, r); 1
    }
}}
macro_rules! f_ce { ($t:ident, $s:tt, $f:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, a: P, b: P, out: P) -> u32 {
        res!($t, out, cell!($t, c).compare_exchange(rd!($t, a), rd!($t, b), ord!($s), ord!($f)))
    }
}}
macro_rules! f_cw { ($t:ident, $s:tt, $f:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, a: P, b: P, out: P) -> u32 {
        res!($t, out, cell!($t, c).compare_exchange_weak(rd!($t, a), rd!($t, b), ord!($s), ord!($f)))
    }
}}
#[cfg(not(irmode))]
macro_rules! f_fu { ($t:ident, $s:tt, $f:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, cb: Cb, ctx: P, out: P) -> u32 {
        let f = |p: MaybeUninit<$t>| {
            let mut prev = p;
            let mut next = MaybeUninit::<$t>::uninit();
            if cb(ctx, &mut prev as *mut _ as P, &mut next as *mut _ as P) != 0 { Some(next) } else { None }
        };
        res!($t, out, cell!($t, c).fetch_update(ord!($s), ord!($f), f))
    }
}}
#[cfg(irmode)]
extern "C" { fn vp_cb(a: P, b: P, prev: P, next: P, n: usize) -> u32; }
#[cfg(irmode)]
macro_rules! f_fu { ($t:ident, $s:tt, $f:tt, $n:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $n(c: P, a: P, b: P, out: P) -> u32 {
        let f = |p: MaybeUninit<$t>| {
            let mut prev = p;
            let mut next = MaybeUninit::<$t>::uninit();
            if vp_cb(a, b, &mut prev as *mut _ as P, &mut next as *mut _ as P, mem::size_of::<$t>()) != 0 { Some(next) } else { None }
        };
        res!($t, out, cell!($t, c).fetch_update(ord!($s), ord!($f), f))
    }
}}
// run-time orderings, raw traits, views
macro_rules! misc {
    ($m:ident, $t:ident, $rld:ident $rst:ident $uld:ident $ust:ident $new:ident $cnew:ident $from:ident
     $fromv:ident $gmr:ident $gmw:ident $apr:ident $apw:ident $into:ident $fpld:ident $fpst:ident $info:ident $stat:ident) => {
        #[allow(non_snake_case)]
        #[cfg(not(irmode))]
        pub mod $m {
            use super::*;
            #[no_mangle] pub unsafe extern "C" fn $rld(c: P, _a: P, _b: P, out: P, o: u32, _f: u32) -> u32 {
                let r = cell!($t, c).load(rt_ord(o)); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $rst(c: P, a: P, _b: P, _out: P, o: u32, _f: u32) -> u32 {
                cell!($t, c).store(rd!($t, a), rt_ord(o)); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $uld(c: P, _a: P, _b: P, out: P, o: u32, _f: u32) -> u32 {
                let r = <$t as raw::AtomicLoad>::atomic_load(c as *const MaybeUninit<$t>, rt_ord(o)); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $ust(c: P, a: P, _b: P, _out: P, o: u32, _f: u32) -> u32 {
                <$t as raw::AtomicStore>::atomic_store(c as *mut MaybeUninit<$t>, rd!($t, a), rt_ord(o)); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $new(c: P, a: P, _b: P, _out: P) -> u32 {
                (c as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::<$t>::new(rd!($t, a))); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $cnew(c: P, a: P, _b: P, _out: P) -> u32 {
                (c as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::<$t>::const_new(rd!($t, a))); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $from(c: P, a: P, _b: P, _out: P) -> u32 {
                (c as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::<$t>::from(rd!($t, a))); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $fromv(c: P, a: P, _b: P, _out: P) -> u32 {
                (c as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::<$t>::from((a as *const $t).read())); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $gmr(c: P, _a: P, _b: P, out: P) -> u32 {
                let r = *(*(c as *mut AtomicMaybeUninit<$t>)).get_mut(); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $gmw(c: P, a: P, _b: P, _out: P) -> u32 {
                *(*(c as *mut AtomicMaybeUninit<$t>)).get_mut() = rd!($t, a); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $apr(c: P, _a: P, _b: P, out: P) -> u32 {
                let r = cell!($t, c).as_ptr().read(); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $apw(c: P, a: P, _b: P, _out: P) -> u32 {
                cell!($t, c).as_ptr().write(rd!($t, a)); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $into(c: P, _a: P, _b: P, out: P) -> u32 {
                let r = (c as *mut AtomicMaybeUninit<$t>).read().into_inner(); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $fpld(c: P, _a: P, _b: P, out: P) -> u32 {
                let r = AtomicMaybeUninit::<$t>::from_ptr(c as *mut MaybeUninit<$t>).load(Ordering::Relaxed); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $fpst(c: P, a: P, _b: P, _out: P) -> u32 {
                AtomicMaybeUninit::<$t>::from_ptr(c as *mut MaybeUninit<$t>).store(rd!($t, a), Ordering::Relaxed); 1
            }
            // size, alignment, stride in an array, offset behind one leading byte
            #[no_mangle] pub unsafe extern "C" fn $info(out: *mut u32) {
                #[repr(C)] struct S(u8, AtomicMaybeUninit<$t>);
                fn sync<T: Send + Sync + Unpin + core::panic::RefUnwindSafe + core::panic::UnwindSafe + core::fmt::Debug + From<$t> + From<MaybeUninit<$t>>>() {}
                sync::<AtomicMaybeUninit<$t>>();
                *out = mem::size_of::<AtomicMaybeUninit<$t>>() as u32;
                *out.add(1) = mem::align_of::<AtomicMaybeUninit<$t>>() as u32;
                *out.add(2) = mem::size_of::<[AtomicMaybeUninit<$t>; 5]>() as u32;
                let s = MaybeUninit::<S>::uninit();
                *out.add(3) = (core::ptr::addr_of!((*s.as_ptr()).1) as usize - s.as_ptr() as usize) as u32;
                *out.add(4) = mem::size_of::<$t>() as u32;
            }
            // a static built at compile time; index 0..3 selects the cell of a static array
            #[no_mangle] pub unsafe extern "C" fn $stat(i: u32) -> P {
                const A: MaybeUninit<$t> = MaybeUninit::new(0x5a as $t);
                const C: AtomicMaybeUninit<$t> = AtomicMaybeUninit::<$t>::new(A);
                const G: MaybeUninit<$t> = AtomicMaybeUninit::<$t>::const_new(MaybeUninit::new(0x33 as $t)).into_inner();
                static S: [AtomicMaybeUninit<$t>; 4] = [C, AtomicMaybeUninit::<$t>::const_new(MaybeUninit::new(!0 as $t)), AtomicMaybeUninit::<$t>::new(G), AtomicMaybeUninit::<$t>::new(MaybeUninit::uninit())];
                &S[i as usize & 3] as *const _ as P
            }
        }
    };
}
macro_rules! misc_swap {
    ($m:ident, $t:ident, $rsw:ident $usw:ident) => {
        #[allow(non_snake_case)]
        #[cfg(not(irmode))]
        pub mod $m {
            use super::*;
            #[no_mangle] pub unsafe extern "C" fn $rsw(c: P, a: P, _b: P, out: P, o: u32, _f: u32) -> u32 {
                let r = cell!($t, c).swap(rd!($t, a), rt_ord(o)); wr!($t, out, r); 1
            }
            #[no_mangle] pub unsafe extern "C" fn $usw(c: P, a: P, _b: P, out: P, o: u32, _f: u32) -> u32 {
                let r = <$t as raw::AtomicSwap>::atomic_swap(c as *mut MaybeUninit<$t>, rd!($t, a), rt_ord(o)); wr!($t, out, r); 1
            }
        }
    };
}
macro_rules! misc_cas {
    ($m:ident, $t:ident, $rce:ident $rcw:ident $rfu:ident $uce:ident $ucw:ident) => {
        #[allow(non_snake_case)]
        #[cfg(not(irmode))]
        pub mod $m {
            use super::*;
            #[no_mangle] pub unsafe extern "C" fn $rce(c: P, a: P, b: P, out: P, s: u32, f: u32) -> u32 {
                res!($t, out, cell!($t, c).compare_exchange(rd!($t, a), rd!($t, b), rt_ord(s), rt_ord(f)))
            }
            #[no_mangle] pub unsafe extern "C" fn $rcw(c: P, a: P, b: P, out: P, s: u32, f: u32) -> u32 {
                res!($t, out, cell!($t, c).compare_exchange_weak(rd!($t, a), rd!($t, b), rt_ord(s), rt_ord(f)))
            }
            #[no_mangle] pub unsafe extern "C" fn $rfu(c: P, cb: Cb, ctx: P, out: P, s: u32, fo: u32) -> u32 {
                let f = |p: MaybeUninit<$t>| {
                    let mut prev = p;
                    let mut next = MaybeUninit::<$t>::uninit();
                    if cb(ctx, &mut prev as *mut _ as P, &mut next as *mut _ as P) != 0 { Some(next) } else { None }
                };
                res!($t, out, cell!($t, c).fetch_update(rt_ord(s), rt_ord(fo), f))
            }
            #[no_mangle] pub unsafe extern "C" fn $uce(c: P, a: P, b: P, out: P, s: u32, f: u32) -> u32 {
                let (v, ok) = <$t as raw::AtomicCompareExchange>::atomic_compare_exchange(c as *mut MaybeUninit<$t>, rd!($t, a), rd!($t, b), rt_ord(s), rt_ord(f));
                wr!($t, out, v); ok as u32
            }
            #[no_mangle] pub unsafe extern "C" fn $ucw(c: P, a: P, b: P, out: P, s: u32, f: u32) -> u32 {
                let (v, ok) = <$t as raw::AtomicCompareExchange>::atomic_compare_exchange_weak(c as *mut MaybeUninit<$t>, rd!($t, a), rd!($t, b), rt_ord(s), rt_ord(f));
                wr!($t, out, v); ok as u32
            }
        }
    };
}
include!(env!("WRAPPERS_INC"));
