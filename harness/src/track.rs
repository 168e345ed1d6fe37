//! Element types that record every construction, clone and drop, with fault injection.
use std::cell::RefCell;

#[derive(Default)]
struct State {
    /// 1 = live, 2 = dropped; indexed by identity.
    states: Vec<u8>,
    error: Option<String>,
    zlive: i64,
    zmade: i64,
    /// Countdown to an injected panic (None = off), and the kinds of events it counts.
    fault: Option<u64>,
    mask: u32,
    events: u64,
    fired: bool,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

pub const CLONE: u32 = 1;
pub const CALL: u32 = 2;
pub const DROP: u32 = 4;

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    STATE.with(|s| f(&mut s.borrow_mut()))
}

pub fn reset() {
    with(|s| {
        s.states.clear();
        s.error = None;
        s.zlive = 0;
        s.zmade = 0;
        s.fault = None;
        s.mask = 0;
        s.events = 0;
        s.fired = false;
    })
}

/// Arms an injected panic at the `k`-th following event of the given kinds.
pub fn arm(mask: u32, k: u64) {
    with(|s| {
        s.mask = mask;
        s.fault = Some(k);
        s.events = 0;
        s.fired = false;
    })
}

pub fn disarm() -> bool {
    with(|s| {
        s.fault = None;
        s.fired
    })
}

pub fn events() -> u64 {
    with(|s| s.events)
}

/// Counts an event, and panics if the injected fault is due.
pub fn tick(kind: u32) {
    let fire = with(|s| {
        if s.mask & kind == 0 && s.fault.is_some() {
            return false;
        }
        match s.fault {
            Some(k) if !s.fired => {
                s.events += 1;
                if s.events > k {
                    s.fired = true;
                    return true;
                }
                false
            }
            _ => false,
        }
    });
    if fire && !std::thread::panicking() {
        std::panic::panic_any("injected fault");
    }
}

fn record(msg: String) {
    with(|s| {
        if s.error.is_none() {
            s.error = Some(msg);
        }
    })
}

pub fn take_error() -> Option<String> {
    with(|s| s.error.take())
}

pub fn live() -> usize {
    with(|s| s.states.iter().filter(|&&x| x == 1).count() + s.zlive.max(0) as usize)
}

pub fn made() -> usize {
    with(|s| s.states.len() + s.zmade as usize)
}

const MAGIC: u32 = 0x7AC3_0BED;

/// Element with identity. Reading, cloning or dropping a dead or uninitialised one is an error.
pub struct Tr {
    magic: u32,
    id: u32,
    val: i64,
}

impl Tr {
    fn check(&self, what: &str) -> bool {
        if self.magic != MAGIC {
            record(format!("{what} of memory that holds no element"));
            return false;
        }
        let st = with(|s| s.states.get(self.id as usize).copied());
        match st {
            Some(1) => true,
            Some(2) => {
                record(format!("{what} of element {} (value {}) after it was dropped", self.id, self.val));
                false
            }
            _ => {
                record(format!("{what} of an unknown element"));
                false
            }
        }
    }
}

impl Drop for Tr {
    fn drop(&mut self) {
        if self.check("drop") {
            let id = self.id as usize;
            with(|s| s.states[id] = 2);
            tick(DROP);
        }
    }
}

impl Clone for Tr {
    fn clone(&self) -> Self {
        self.check("clone");
        tick(CLONE);
        Tr::make(self.val)
    }
}

impl PartialEq for Tr {
    fn eq(&self, other: &Self) -> bool {
        self.check("read");
        other.check("read");
        self.val == other.val
    }
}

impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("read");
        write!(f, "{}", self.val)
    }
}

/// Zero-sized element, counted only.
pub struct Zt(());

impl Drop for Zt {
    fn drop(&mut self) {
        let bad = with(|s| {
            s.zlive -= 1;
            s.zlive < 0
        });
        if bad {
            record("more zero-sized elements dropped than created".into());
        }
        tick(DROP);
    }
}

impl Clone for Zt {
    fn clone(&self) -> Self {
        tick(CLONE);
        Zt::make(0)
    }
}

impl PartialEq for Zt {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

impl std::fmt::Debug for Zt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Zt")
    }
}

/// Element that owns heap memory.
#[derive(Clone, PartialEq, Debug)]
pub struct Bx(Box<i64>, Tr);

/// Tracked element types.
pub trait Elem: Clone + PartialEq + std::fmt::Debug + 'static {
    const ZST: bool;
    fn make(val: i64) -> Self;
    /// Value of the element (zero for zero-sized elements).
    fn val(&self) -> i64;
    fn set(&mut self, val: i64);
    /// The value as `val()` returns it.
    fn norm(val: i64) -> i64 {
        if Self::ZST { 0 } else { val }
    }
}

impl Elem for Tr {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        let id = with(|s| {
            s.states.push(1);
            s.states.len() - 1
        });
        Tr { magic: MAGIC, id: id as u32, val }
    }
    fn val(&self) -> i64 {
        self.check("read");
        self.val
    }
    fn set(&mut self, val: i64) {
        self.check("write");
        self.val = val;
    }
}

impl Elem for Zt {
    const ZST: bool = true;
    fn make(_: i64) -> Self {
        with(|s| {
            s.zlive += 1;
            s.zmade += 1;
        });
        Zt(())
    }
    fn val(&self) -> i64 {
        0
    }
    fn set(&mut self, _: i64) {}
}

impl Elem for Bx {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        Bx(Box::new(val), Tr::make(val))
    }
    fn val(&self) -> i64 {
        self.1.check("read");
        if *self.0 == self.1.val { self.1.val } else { i64::MIN }
    }
    fn set(&mut self, val: i64) {
        *self.0 = val;
        self.1.set(val);
    }
}

/// Untracked elements, for histories that only compare values.
impl Elem for i64 {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        val
    }
    fn val(&self) -> i64 {
        *self
    }
    fn set(&mut self, val: i64) {
        *self = val;
    }
}

/// Elements of one byte.
impl Elem for u8 {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        val as u8
    }
    fn val(&self) -> i64 {
        *self as i64
    }
    fn set(&mut self, val: i64) {
        *self = val as u8;
    }
    fn norm(val: i64) -> i64 {
        val as u8 as i64
    }
}

/// Large elements with an alignment of their own.
#[derive(Clone, Debug, PartialEq)]
#[repr(align(32))]
pub struct Big([i64; 5]);

impl Elem for Big {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        Big([val, !val, val ^ 77, 0, val + 1])
    }
    fn val(&self) -> i64 {
        let v = self.0[0];
        if *self == Big::make(v) && self as *const Self as usize % 32 == 0 { v } else { i64::MIN }
    }
    fn set(&mut self, val: i64) {
        *self = Big::make(val);
    }
}

/// Elements without size and without destructor.
impl Elem for () {
    const ZST: bool = true;
    fn make(_: i64) -> Self {}
    fn val(&self) -> i64 {
        0
    }
    fn set(&mut self, _: i64) {}
}

/// Elements of an odd size.
impl Elem for [u8; 3] {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        [val as u8, (val >> 8) as u8, !val as u8]
    }
    fn val(&self) -> i64 {
        if self[2] == !self[0] { self[0] as i64 | (self[1] as i64) << 8 } else { i64::MIN }
    }
    fn set(&mut self, val: i64) {
        *self = Self::make(val);
    }
    fn norm(val: i64) -> i64 {
        val & 0xffff
    }
}

/// Elements that own memory.
impl Elem for String {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        format!("{val}")
    }
    fn val(&self) -> i64 {
        self.parse().unwrap()
    }
    fn set(&mut self, val: i64) {
        *self = Self::make(val);
    }
}
