// Replays histories of Rust objects which are subclasses of a C++ class.
use autocxx::prelude::*;
use autocxx::subclass::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::BufRead;
use std::rc::Rc;

include_cpp! {
    #include "input.h"
    safety!(unsafe_ffi)
    generate!("Act")
    generate!("sub_reset")
    generate!("take_log")
    generate!("log_rust")
    generate!("ident")
    generate!("peer_alive")
    generate!("call")
    generate!("call_ref")
    generate!("call_mut")
    generate!("keep")
    generate!("fetch")
    generate!("del")
    generate!("kept")
    subclass!("Act", Obj)
}

// Memory which is given back is made useless and never used again.
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { std::ptr::write_bytes(p, 0xdd, l.size()) }
}
#[global_allocator]
static POISON: Poison = Poison;

#[subclass(self_owned)]
pub struct Obj { id: i32 }
impl Drop for Obj {
    fn drop(&mut self) { ffi::log_rust(c_int(0), c_int(self.id), c_int(0)) }
}
impl ffi::Act_methods for Obj {
    fn cc(&self, x: c_int) -> c_int { frame(self, None, 1, x) }
    fn mm(&mut self, x: c_int) -> c_int { let p: *mut Obj = self; frame(unsafe { &*p }, Some(p), 2, x) }
    fn pc(&self, x: c_int) -> c_int { frame(self, None, 3, x) }
    fn pm(&mut self, x: c_int) -> c_int { let p: *mut Obj = self; frame(unsafe { &*p }, Some(p), 4, x) }
}

enum H { None, R(Rc<RefCell<Obj>>), U(cxx::UniquePtr<ffi::ObjCpp>), S(cxx::UniquePtr<ffi::Act>) }

struct Ctx { id: String, ops: Vec<Vec<String>>, pos: usize, step: usize, slots: Vec<H>, store: i32, made: i32, ok: bool, entered: bool, left: bool, frames: Vec<*const Obj> }
static mut CTX: *mut Ctx = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn cx() -> &'static mut Ctx { unsafe { &mut *CTX } }

fn die(s: &str) -> ! { eprintln!("MISUSE {s}"); std::process::exit(3) }
fn num(s: &str) -> i32 { s.parse().unwrap_or_else(|_| die(s)) }
fn addr(a: &ffi::Act) -> *const u8 { a as *const ffi::Act as *const u8 }
fn id_of(a: &ffi::Act) -> i32 { i32::from(unsafe { ffi::ident(addr(a)) }) }

fn emit(end: bool) {
    let c = cx();
    let ev = ffi::take_log().to_string_lossy().into_owned();
    let mut sl = vec![];
    for h in &c.slots {
        sl.push(match h {
            H::None => "{\"k\":\"none\",\"o\":0,\"p\":0}".to_string(),
            H::R(rc) => match rc.try_borrow() {
                Err(_) => "{\"k\":\"R\",\"o\":-1,\"p\":-1}".to_string(),
                Ok(b) => format!("{{\"k\":\"R\",\"o\":{},\"p\":{}}}", b.id, if bool::from(ffi::peer_alive(c_int(b.id))) { id_of((*b).as_ref()) } else { 0 }),
            },
            H::U(u) => format!("{{\"k\":\"U\",\"o\":{0},\"p\":{0}}}", id_of(u.As_Act())),
            H::S(u) => format!("{{\"k\":\"S\",\"o\":{0},\"p\":{0}}}", id_of(u)),
        });
    }
    let st: Vec<String> = (0..c.store).map(|i| i32::from(ffi::kept(c_int(i))).to_string()).collect();
    let (me, peer) = match c.frames.last() {
        None => (0, 0),
        Some(p) => { let o = unsafe { &**p }; (o.id, if ffi::peer_alive(c_int(o.id)) { id_of(o.as_ref()) } else { 0 }) }
    };
    println!("{{\"id\":\"{}\",\"step\":{},\"ok\":{},\"ev\":[{}],\"slots\":[{}],\"store\":[{}],\"me\":{},\"peer\":{},\"end\":{}}}", c.id, c.step, c.ok, ev, sl.join(","), st.join(","), me, peer, end);
    c.step += 1;
    c.ok = true;
}

// The body of every overridden method: does what the history says until it says "leave".
fn frame(me: &Obj, mm: Option<*mut Obj>, kind: i32, x: c_int) -> c_int {
    ffi::log_rust(c_int(kind), c_int(me.id), x);
    cx().frames.push(me);
    cx().entered = true;
    emit(false);
    cx().left = go(Some((me, mm)));
    cx().frames.pop();
    c_int(x.0 * 10 + kind)
}

// Whether it was told to leave.
fn go(me: Option<(*const Obj, Option<*mut Obj>)>) -> bool {
    while cx().pos < cx().ops.len() {
        let o = cx().ops[cx().pos].clone();
        cx().pos += 1;
        if o[0] == "leave" { return true }
        exec(&o, me);
    }
    false
}
fn check(b: bool) { if !b { cx().ok = false } }

// Something which makes C++ or Rust run a method.
fn calling(kind: i32, x: i32, f: impl FnOnce() -> c_int) {
    cx().entered = false;
    let r = f();
    let entered = std::mem::replace(&mut cx().entered, true);
    let want = x * 10 + match kind { 5 => 7, 6 => 8, k => k };
    check(r.0 == want);
    check(entered == (kind < 5));
    // a frame which the end of the history closes is not reported
    if kind >= 5 || !entered || cx().left { emit(false) }
}

fn rc_of(s: i32) -> Rc<RefCell<Obj>> { match &cx().slots[s as usize] { H::R(r) => r.clone(), _ => die("rc") } }
fn take(s: i32) -> H { std::mem::replace(&mut cx().slots[s as usize], H::None) }
fn put(s: i32, h: H) { cx().slots[s as usize] = h }

fn exec(o: &[String], me: Option<(*const Obj, Option<*mut Obj>)>) {
    let a = |i: usize| num(&o[i]);
    match o[0].as_str() {
        "new" => {
            cx().made += 1;
            let b = Obj { id: cx().made, cpp_peer: Default::default() };
            let h = match o[2].as_str() {
                "rust" => H::R(Obj::new_rust_owned(b)),
                "cpp" => H::U(Obj::new_cpp_owned(b)),
                "self" => H::R(Obj::new_self_owned(b)),
                x => die(x),
            };
            put(a(1), h);
        }
        "clone" => { let r = rc_of(a(1)); put(a(2), H::R(r)) }
        "drop" => { drop(take(a(1))) }
        "conv" => { let h = take(a(1)); put(a(1), match h { H::U(u) => H::S(Obj::as_Act_unique_ptr(u)), _ => die("conv") }) }
        "give" => match take(a(1)) {
            H::U(u) => ffi::keep(c_int(a(2)), Obj::as_Act_unique_ptr(u)),
            H::S(u) => ffi::keep(c_int(a(2)), u),
            _ => die("give"),
        },
        "fetch" => { let u = ffi::fetch(c_int(a(1))); put(a(2), H::S(u)) }
        "cppdel" => ffi::del(c_int(a(1))),
        "del" => { let r = rc_of(a(1)); let b = r.borrow(); b.delete_self() }
        "delme" => unsafe { (*me.unwrap().0).delete_self() },
        "super" => {
            // only the methods which can be called on what this frame has
            let x = a(1);
            match me.unwrap() {
                (_, Some(m)) => { let r = unsafe { ffi::Act_supers::mm_super(&mut *m, c_int(x)) }; check(r.0 == x * 10 + 6) }
                (m, None) => { let r = unsafe { ffi::Act_supers::cc_super(&*m, c_int(x)) }; check(r.0 == x * 10 + 5) }
            }
        }
        "call" => { let (i, k, x) = (a(1), a(2), a(3)); return calling(k, x, || ffi::call(c_int(i), c_int(k), c_int(x))) }
        "rcall" => {
            let (s, k, x) = (a(1), a(2), a(3));
            let r = rc_of(s);
            use ffi::Act_methods;
            return calling(k, x, move || match k {
                1 => r.borrow().cc(c_int(x)),
                2 => r.borrow_mut().mm(c_int(x)),
                3 => r.borrow().pc(c_int(x)),
                4 => r.borrow_mut().pm(c_int(x)),
                5 => r.borrow().nc(c_int(x)),
                _ => r.borrow_mut().nm(c_int(x)),
            });
        }
        "viaref" => {
            let (s, k, x) = (a(1), a(2), a(3));
            let r = rc_of(s);
            return calling(k, x, move || match k {
                1 | 3 | 5 => ffi::call_ref(r.borrow().as_ref(), c_int(k), c_int(x)),
                _ => ffi::call_mut(r.borrow_mut().pin_mut(), c_int(k), c_int(x)),
            });
        }
        x => die(x),
    }
    emit(false);
}

fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.splitn(4, ' ').collect();
        let ops: Vec<Vec<String>> = p[3].split(';').map(|o| o.split(' ').map(|s| s.to_string()).collect()).collect();
        let c = Box::new(Ctx { id: p[0].to_string(), ops, pos: 0, step: 0, slots: (0..num(p[1])).map(|_| H::None).collect(), store: num(p[2]), made: 0, ok: true, entered: true, left: true, frames: vec![] });
        unsafe { CTX = Box::into_raw(c) };
        ffi::sub_reset();
        go(None);
        // everything is let go
        for i in 0..cx().slots.len() { drop(take(i as i32)) }
        for i in 0..cx().store { ffi::del(c_int(i)) }
        emit(true);
    }
}
