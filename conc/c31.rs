//! Requests for Hall sets, with other requests at every lock operation.
use crate::lie::verif::get_hall_set;
use crate::nd;
use crate::vmodel::sched;

/// What one request returned: its alphabet, and the address of the set.
#[derive(Clone, Copy)]
struct Got { alphabet: u32, at: *const u8 }
const NONE: Got = Got { alphabet: 0, at: std::ptr::null() };
static mut GOT: [Got; 4] = [NONE; 4];
static mut N: usize = 0;
static mut LEFT: usize = 0;
static mut DEEP: usize = 0;
static mut SECOND: bool = false;

fn ask<const A: u32>(grow: Option<u32>) {
    let o = get_hall_set::<A>(grow);
    // the first word of the object is the pointer to what is shared
    let at = unsafe { *(&o as *const _ as *const *const u8) };
    unsafe { GOT[N] = Got { alphabet: A, at }; N += 1; }
    std::mem::forget(o);
}
/// With any degree to grow to up to GROW, or none.
const GROW: u32 = 6;
fn request() {
    let d = nd::range(0, GROW + 1);
    let grow = if d > GROW { None } else { Some(d) };
    if unsafe { SECOND } && nd::range(0, 1) == 1 { ask::<31>(grow) } else { ask::<25>(grow) }
}
/// A scheduling point: another thread may make a whole request here.
fn other() {
    unsafe {
        // at most as many suspended threads as there are requests to insert
        if sched::ME < DEEP && LEFT > 0 && nd::range(0, 1) == 1 {
            LEFT -= 1;
            sched::ME += 1;
            request();
            sched::ME -= 1;
        }
    }
}
fn check() {
    unsafe {
        let mut i = 0;
        while i < N {
            let mut j = 0;
            while j < i {
                // every two requests
                assert!((GOT[i].alphabet == GOT[j].alphabet) == (GOT[i].at == GOT[j].at));
                j += 1;
            }
            i += 1;
        }
    }
}
/// `later` requests in a row, with up to `left` others in between, at any lock operation of any of them.
fn run(later: usize, left: usize, second: bool) {
    unsafe { SECOND = second; LEFT = left; DEEP = left; N = 0; sched::ME = 0; sched::HOOK = if left > 0 { Some(other) } else { None }; }
    let mut i = 0;
    while i < later { request(); i += 1; }
    unsafe { sched::HOOK = None; }
    check();
}

/// Two alphabets that agree in their low bits, and the first again.
fn alike<const A: u32, const B: u32>() {
    unsafe { N = 0; sched::ME = 0; sched::HOOK = None; }
    ask::<A>(None);
    ask::<B>(None);
    ask::<A>(None);
    check();
}

harnesses! {
    c31q_alike_8 [8] { alike::<25, 281>() }
    c31q_alike_16 [8] { alike::<25, 65561>() }
    c31q_alike_24 [8] { alike::<25, 16777241>() }
    c31q_alike_31 [8] { alike::<25, 2147483673>() }
    c31q_alike_near [8] { alike::<25, 24>() }
    c31q_alike_far [8] { alike::<21, 42>() }
    c31q_alone [8] { run(1, 0, false) }
    c31q_again [8] { run(2, 0, true) }
    c31q_three [8] { run(3, 0, true) }
    c31q_pair [8] { run(1, 1, false) }
    c31q_pair_alphabets [8] { run(1, 1, true) }
    c31q_pair_then [8] { run(2, 1, false) }
    c31t_triple [8] { run(1, 2, false) }
    c31t_triple_alphabets [8] { run(1, 2, true) }
}
refusals! {}
