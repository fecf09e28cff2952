//! Replays histories of operations on C++ objects through the real bindings. Each input line is
//! `id class op;op;...`; each output line is the recorded history in JSON.
use autocxx::prelude::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

include_cpp! {
    #include "input.h"
    safety!(unsafe)
    generate!("Full") generate!("MoveOnly") generate!("CopyOnly") generate!("Alloc")
    generate!("SinkF") generate!("SinkM") generate!("SinkC") generate!("SinkA")
    generate!("take_log") generate!("reset_log") generate!("ident")
    generate!("take_f") generate!("take2_f") generate!("rtake_f") generate!("rsteal_f") generate!("vr_f") generate!("rv_f") generate!("make_f") generate!("echo_f") generate!("makeup_f") generate!("passup_f") generate!("borrow_f")
    generate!("take_m") generate!("take2_m") generate!("rtake_m") generate!("rsteal_m") generate!("vr_m") generate!("rv_m") generate!("make_m") generate!("echo_m") generate!("makeup_m") generate!("passup_m") generate!("borrow_m")
    generate!("take_c") generate!("take2_c") generate!("rtake_c") generate!("rsteal_c") generate!("vr_c") generate!("rv_c") generate!("make_c") generate!("echo_c") generate!("makeup_c") generate!("passup_c") generate!("borrow_c")
    generate!("take_a") generate!("take2_a") generate!("rtake_a") generate!("rsteal_a") generate!("vr_a") generate!("rv_a") generate!("make_a") generate!("echo_a") generate!("makeup_a") generate!("passup_a") generate!("borrow_a")
}

pub struct Arg<'a> { m: &'a str, s: usize, v: i32 }
fn arg(s: &str) -> Arg<'_> {
    let p: Vec<&str> = s.split(':').collect();
    Arg { m: p[0], s: p[1].parse().unwrap(), v: p[2].parse().unwrap() }
}

pub enum H<T: cxx::memory::UniquePtrTarget> { None, Up(UniquePtr<T>), Bx(Pin<Box<T>>), Cp(CppPin<T>), Upp(CppUniquePtrPin<T>) }
impl<T: cxx::memory::UniquePtrTarget> H<T> {
    fn up(&mut self) -> UniquePtr<T> { match std::mem::replace(self, H::None) { H::Up(u) => u, _ => die("not a UniquePtr") } }
    fn bx(&mut self) -> Pin<Box<T>> { match std::mem::replace(self, H::None) { H::Bx(u) => u, _ => die("not a Box") } }
    fn get(&self) -> Option<&T> {
        match self {
            H::None => None,
            H::Up(u) => u.as_ref(),
            H::Bx(b) => Some(&**b),
            H::Cp(c) => Some(unsafe { c.as_ref() }),
            H::Upp(c) => Some(unsafe { &*c.as_ptr() }),
        }
    }
    fn kind(&self) -> &'static str {
        match self { H::None => "none", H::Up(u) => if u.is_null() { "null" } else { "up" }, H::Bx(_) => "bx", H::Cp(_) => "cp", H::Upp(_) => "upp" }
    }
}
fn die(m: &str) -> ! { eprintln!("driver: {m}"); std::process::exit(3) }
// the slots live long enough: they are only dropped by operations which name them
fn at<'x, T: cxx::memory::UniquePtrTarget>(sl: *mut Vec<H<T>>, i: usize) -> &'x mut H<T> { unsafe { &mut (&mut *sl)[i] } }
fn rf<'x, T: cxx::memory::UniquePtrTarget>(sl: *mut Vec<H<T>>, i: usize) -> &'x T { at(sl, i).get().unwrap() }

macro_rules! val {
    (full, $T:ident, $mk:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "ref" | "upref" | "bxref" | "cref" | "cup" | "cbx" => val!(@c $T, $mk, $sl, $a, $x, $body),
            "mup" | "mbx" | "mst" => val!(@m $T, $mk, $sl, $a, $x, $body),
            _ => val!(@b $T, $mk, $sl, $a, $x, $body),
        }
    };
    (mo, $T:ident, $mk:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "mup" | "mbx" | "mst" => val!(@m $T, $mk, $sl, $a, $x, $body),
            _ => val!(@b $T, $mk, $sl, $a, $x, $body),
        }
    };
    (co, $T:ident, $mk:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "ref" | "upref" | "bxref" | "cref" | "cup" | "cbx" => val!(@c $T, $mk, $sl, $a, $x, $body),
            _ => val!(@b $T, $mk, $sl, $a, $x, $body),
        }
    };
    (@b $T:ident, $mk:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "up" => { let $x = at($sl, $a.s).up(); $body }
            "bx" => { let $x = at($sl, $a.s).bx(); $body }
            "new" => { let $x = autocxx::as_new($T::new(c_int($a.v))); $body }
            "mk" => { let $x = autocxx::as_new($mk($a.v)); $body }
            m => die(m),
        }
    };
    (@c $T:ident, $mk:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "ref" => { let $x = rf($sl, $a.s); $body }
            "upref" => { let $x = match at($sl, $a.s) { H::Up(u) => &*u, _ => die("upref") }; $body }
            "bxref" => { let $x = match at($sl, $a.s) { H::Bx(u) => &*u, _ => die("bxref") }; $body }
            "cref" => { let $x = autocxx::as_copy(rf($sl, $a.s)); $body }
            "cup" => { let $x = autocxx::as_copy(at($sl, $a.s).up()); $body }
            "cbx" => { let $x = autocxx::as_copy(at($sl, $a.s).bx()); $body }
            m => die(m),
        }
    };
    (@m $T:ident, $mk:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "mup" => { let $x = autocxx::as_mov(at($sl, $a.s).up()); $body }
            "mbx" => { let $x = autocxx::as_mov(at($sl, $a.s).bx()); $body }
            "mst" => { moveit! { let y = $T::new(c_int($a.v)); } let $x = autocxx::as_mov(y); $body }
            m => die(m),
        }
    };
}
// for && parameters
macro_rules! rval {
    ($T:ident, $sl:ident, $a:ident, $x:ident, $body:expr) => {
        match $a.m {
            "up" => { let $x = at($sl, $a.s).up(); $body }
            "bx" => { let $x = at($sl, $a.s).bx(); $body }
            "st" => { moveit! { let y = $T::new(c_int($a.v)); } let $x = y; $body }
            m => die(m),
        }
    };
}
macro_rules! put {
    ($sl:ident, $t:expr, $k:expr, $n:expr) => {
        *at($sl, $t) = match $k {
            "up" => H::Up($n.within_unique_ptr()),
            "bx" => H::Bx($n.within_box()),
            "cp" => H::Cp($n.within_cpp_pin()),
            "upp" => H::Upp(CppUniquePtrPin::new($n.within_unique_ptr())),
            k => die(k),
        }
    };
}
macro_rules! copying {
    (mo, $T:ident, $sl:ident, $o:ident) => { die("copy of a move-only class") };
    ($f:ident, $T:ident, $sl:ident, $o:ident) => {{ let s = rf($sl, num($o[1])); put!($sl, num($o[2]), $o[3], autocxx::moveit::new::copy(s)) }};
}
macro_rules! moving {
    (co, $T:ident, $sl:ident, $o:ident) => { die("move of a copy-only class") };
    ($f:ident, $T:ident, $sl:ident, $o:ident) => {
        match at($sl, num($o[1])) {
            H::Up(_) => { let s = at($sl, num($o[1])).up(); put!($sl, num($o[2]), $o[3], autocxx::moveit::new::mov(s)) }
            H::Bx(_) => { let s = at($sl, num($o[1])).bx(); put!($sl, num($o[2]), $o[3], autocxx::moveit::new::mov(s)) }
            _ => die("mov"),
        }
    };
}
fn num(s: &str) -> usize { s.parse().unwrap() }

macro_rules! driver {
    ($name:ident, $f:ident, $T:ident, $Sink:ident, $take:ident, $take2:ident, $rtake:ident, $rsteal:ident, $vr:ident, $rv:ident, $mk:ident, $echo:ident, $mkup:ident, $passup:ident, $borrow:ident) => {
        mod $name {
            use super::*;
            use super::ffi::{$T, $Sink, $take, $take2, $rtake, $rsteal, $vr, $rv, $mk, $echo, $mkup, $passup, $borrow};
            fn step(sl: *mut Vec<H<$T>>, o: &[&str]) {
                match o[0] {
                    "new" => { let v = c_int(o[3].parse().unwrap()); put!(sl, num(o[1]), o[2], $T::new(v)) }
                    "make" => { let v: i32 = o[3].parse().unwrap(); put!(sl, num(o[1]), o[2], $mk(v)) }
                    "makeup" => *at(sl, num(o[1])) = H::Up($mkup(o[2].parse().unwrap())),
                    "null" => *at(sl, num(o[1])) = H::Up(UniquePtr::null()),
                    "copy" => copying!($f, $T, sl, o),
                    "mov" => moving!($f, $T, sl, o),
                    "drop" => { *at(sl, num(o[1])) = H::None }
                    "shift" => { let h = std::mem::replace(at(sl, num(o[1])), H::None); *at(sl, num(o[2])) = h }
                    "conv" => {
                        let h = std::mem::replace(at(sl, num(o[1])), H::None);
                        *at(sl, num(o[1])) = match h {
                            H::Up(u) => H::Upp(CppUniquePtrPin::new(u)),
                            H::Bx(b) => H::Cp(CppPin::from_pinned_box(b)),
                            H::Cp(c) => H::Bx(Box::into_pin(unsafe { c.extract() })),
                            _ => die("conv"),
                        }
                    }
                    "raw" => { let u = at(sl, num(o[1])).up(); let p = u.into_raw(); *at(sl, num(o[1])) = H::Up(unsafe { UniquePtr::from_raw(p) }) }
                    "set" => {
                        let v = c_int(o[2].parse().unwrap());
                        match at(sl, num(o[1])) {
                            H::Up(u) => u.pin_mut().set(v),
                            H::Bx(b) => b.as_mut().set(v),
                            H::Cp(c) => unsafe { Pin::new_unchecked(c.as_mut()) }.set(v),
                            H::Upp(c) => unsafe { Pin::new_unchecked(&mut *c.as_cpp_mut_ref().as_mut_ptr()) }.set(v),
                            H::None => die("set"),
                        }
                    }
                    "refs" => {
                        // every reference obtained from a holder denotes the held object
                        let h = at(sl, num(o[1]));
                        let want = h.get().unwrap().at();
                        assert_eq!(h.get().unwrap().self_().at(), want, "self");
                        match h {
                            H::Up(u) => {
                                assert_eq!(u.as_cpp_ref().as_ptr() as usize, want as usize, "UniquePtr::as_cpp_ref");
                                assert_eq!(u.pin_mut().self_mut().at(), want, "self_mut");
                            }
                            H::Bx(b) => assert_eq!(b.as_mut().self_mut().at(), want, "self_mut"),
                            H::Cp(c) => {
                                assert_eq!(c.as_ptr() as usize, want as usize, "CppPin::as_ptr");
                                assert_eq!(c.as_mut_ptr() as usize, want as usize, "CppPin::as_mut_ptr");
                                assert_eq!(c.as_cpp_ref().as_ptr() as usize, want as usize, "CppPin::as_cpp_ref");
                                assert_eq!(c.as_cpp_mut_ref().as_mut_ptr() as usize, want as usize, "CppPin::as_cpp_mut_ref");
                                assert_eq!((**c).as_ptr() as usize, want as usize, "CppPin deref");
                                assert_eq!(c.as_cpp_ref().const_cast().as_mut_ptr() as usize, want as usize, "const_cast");
                                assert_eq!(unsafe { c.as_cpp_ref().as_ref() }.at(), want, "CppRef::as_ref");
                                assert_eq!(unsafe { c.as_mut() }.at(), want, "CppPin::as_mut");
                            }
                            H::Upp(c) => {
                                assert_eq!(c.as_ptr() as usize, want as usize, "CppUniquePtrPin::as_ptr");
                                assert_eq!(c.as_cpp_ref().as_ptr() as usize, want as usize, "CppUniquePtrPin::as_cpp_ref");
                                assert_eq!(c.as_cpp_mut_ref().as_mut_ptr() as usize, want as usize, "CppUniquePtrPin::as_cpp_mut_ref");
                                assert_eq!((**c).as_ptr() as usize, want as usize, "CppUniquePtrPin deref");
                            }
                            H::None => die("refs"),
                        }
                    }
                    "stack" => { moveit! { let mut y = $T::new(c_int(o[1].parse().unwrap())); } y.as_mut().set(c_int(o[2].parse().unwrap())); assert_eq!(y.get().0.to_string(), o[2]); let z = y; assert_eq!(z.get().0.to_string(), o[2]); }
                    "stackmake" => { moveit! { let y = $mk(o[1].parse().unwrap()); } assert_eq!(y.get().0.to_string(), o[1]); }
                    "take" => { let a = arg(o[1]); val!($f, $T, $mk, sl, a, x, $take(x)) }
                    "take2" => { let a = arg(o[1]); let b = arg(o[2]); val!($f, $T, $mk, sl, a, x, val!($f, $T, $mk, sl, b, y, $take2(x, 7, y))) }
                    "rtake" => { let a = arg(o[1]); rval!($T, sl, a, x, $rtake(x)) }
                    "rsteal" => { let a = arg(o[1]); rval!($T, sl, a, x, $rsteal(x)) }
                    "vr" => { let a = arg(o[1]); let b = arg(o[2]); val!($f, $T, $mk, sl, a, x, rval!($T, sl, b, y, $vr(x, y))) }
                    "rv" => { let a = arg(o[1]); let b = arg(o[2]); rval!($T, sl, a, x, val!($f, $T, $mk, sl, b, y, $rv(x, y))) }
                    "echo" => { let a = arg(o[1]); let t = num(o[2]); val!($f, $T, $mk, sl, a, x, put!(sl, t, o[3], $echo(x))) }
                    "sink" => { let a = arg(o[1]); val!($f, $T, $mk, sl, a, x, { let _s = $Sink::new(x).within_unique_ptr(); }) }
                    "sinkbx" => { let a = arg(o[1]); val!($f, $T, $mk, sl, a, x, { let _s = $Sink::new(x).within_box(); }) }
                    "put" | "vput" => {
                        let mut s = $Sink::new(autocxx::as_new($T::new(c_int(9)))).within_unique_ptr();
                        let a = arg(o[1]);
                        if o[0] == "put" { val!($f, $T, $mk, sl, a, x, s.pin_mut().put(x)) } else { val!($f, $T, $mk, sl, a, x, s.pin_mut().vput(x)) }
                    }
                    "sput" => { let a = arg(o[1]); val!($f, $T, $mk, sl, a, x, $Sink::sput(x)) }
                    "passup" => { let u = at(sl, num(o[1])).up(); *at(sl, num(o[1])) = H::Up($passup(u)) }
                    "borrow" => {
                        let r = rf(sl, num(o[1]));
                        match at(sl, num(o[2])) { H::Up(u) => $borrow(r, u.pin_mut()), H::Bx(b) => $borrow(r, b.as_mut()), _ => die("borrow") }
                    }
                    x => die(x),
                }
            }
            pub fn run(id: &str, ops: &str, n: usize, out: &mut String) {
                ffi::reset_log();
                let mut slots: Vec<H<$T>> = (0..n).map(|_| H::None).collect();
                let sl: *mut Vec<H<$T>> = &mut slots;
                out.push_str(&format!("{{\"id\":\"{id}\",\"steps\":["));
                let mut first = true;
                for o in ops.split(';') {
                    let o: Vec<&str> = o.split(' ').collect();
                    let r = catch_unwind(AssertUnwindSafe(|| step(sl, &o)));
                    if r.is_err() && matches!(o[0], "take2" | "vr" | "rv") {
                        // the other argument goes too, even if the panic came before it was looked at
                        for x in &o[1..] {
                            let a = arg(x);
                            if matches!(a.m, "up" | "bx" | "cup" | "cbx" | "mup" | "mbx") { *at(sl, a.s) = H::None }
                        }
                    }
                    let ev = ffi::take_log().to_string_lossy().into_owned();
                    let mut obs = vec![];
                    for h in unsafe { (*sl).iter() } {
                        obs.push(match h.get() {
                            None => format!("{{\"k\":\"{}\",\"o\":0,\"v\":0}}", h.kind()),
                            Some(t) => {
                                let p = t as *const $T as *const u8;
                                let i = unsafe { ffi::ident(p) };
                                format!("{{\"k\":\"{}\",\"o\":{},\"v\":{}}}", h.kind(), i, if i > 0 { t.get().0 } else { -1 })
                            }
                        });
                    }
                    out.push_str(&format!("{}{{\"ok\":{},\"ev\":[{}],\"slots\":[{}]}}", if first { "" } else { "," }, r.is_ok(), ev, obs.join(",")));
                    first = false;
                }
                out.push_str("]}\n");
            }
        }
    };
}
driver!(full, full, Full, SinkF, take_f, take2_f, rtake_f, rsteal_f, vr_f, rv_f, make_f, echo_f, makeup_f, passup_f, borrow_f);
driver!(mo, mo, MoveOnly, SinkM, take_m, take2_m, rtake_m, rsteal_m, vr_m, rv_m, make_m, echo_m, makeup_m, passup_m, borrow_m);
driver!(co, co, CopyOnly, SinkC, take_c, take2_c, rtake_c, rsteal_c, vr_c, rv_c, make_c, echo_c, makeup_c, passup_c, borrow_c);
driver!(al, full, Alloc, SinkA, take_a, take2_a, rtake_a, rsteal_a, vr_a, rv_a, make_a, echo_a, makeup_a, passup_a, borrow_a);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let so = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.splitn(4, ' ').collect();
        let (id, c, n, ops) = (p[0], p[1], num(p[2]), p[3]);
        let mut out = String::new();
        match c {
            "full" => full::run(id, ops, n, &mut out),
            "mo" => mo::run(id, ops, n, &mut out),
            "co" => co::run(id, ops, n, &mut out),
            "alloc" => al::run(id, ops, n, &mut out),
            _ => die("class"),
        }
        let mut so = so.lock();
        so.write_all(out.as_bytes()).unwrap();
        so.flush().unwrap();
    }
}
