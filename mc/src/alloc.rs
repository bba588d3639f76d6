//! Counts the memory that a thread asks for.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static TIMES: Cell<u64> = const { Cell::new(0) };
    /// Space and choices of the execution of this thread
    static CASE: RefCell<(String, Vec<u32>)> = const { RefCell::new((String::new(), vec![])) };
}

/// Nothing that is explored needs that much at once, and the process would not survive it
const TOO_MUCH: usize = 6 << 30;

#[global_allocator]
static A: Counting = Counting;

fn count(plus: usize, minus: usize) {
    if plus > TOO_MUCH {
        too_much(plus);
    }
    if ON.with(|o| o.get()) {
        let n = NOW.with(|c| {
            c.set(c.get() + plus as i64 - minus as i64);
            c.get()
        });
        PEAK.with(|p| p.set(p.get().max(n)));
        TOTAL.with(|t| t.set(t.get() + plus as u64));
        TIMES.with(|t| t.set(t.get() + (plus > 0) as u64));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n, l.size());
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: u64,
    pub total: u64,
    pub times: u64,
    /// Still in use at the end
    pub left: i64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    NOW.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    TOTAL.with(|c| c.set(0));
    TIMES.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    let u = Usage { peak: PEAK.with(|c| c.get()) as u64, total: TOTAL.with(|c| c.get()), times: TIMES.with(|c| c.get()), left: NOW.with(|c| c.get()) };
    (r, u)
}

pub fn set_case(space: &str, choices: Vec<u32>) {
    CASE.with(|c| *c.borrow_mut() = (space.to_string(), choices));
}

#[cold]
fn too_much(n: usize) -> ! {
    let (space, choices) = CASE.with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default());
    let id = std::env::args().nth(1).unwrap_or_default();
    if space.is_empty() {
        eprintln!("{n} bytes of memory are needed");
        std::process::exit(2);
    }
    let dir = crate::report::verif().join("replay").join(&id);
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join("0.txt");
    let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let text = format!("property: {id}\nkey: memory\nspace: {space}\nchoices: {choices:?}\nmessage: {n} bytes of memory are asked for at once\nreplay: cd /verif && ./check.sh {id} replay {space} {}\n", list.join(","));
    std::fs::write(&path, text).ok();
    println!("VIOLATION property={id} replay={}\n  memory [{space}] {n} bytes of memory are asked for at once", path.display());
    std::process::exit(1);
}
