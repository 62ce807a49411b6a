//! The simulator: one seeded choice sequence decides inputs, schedule and faults of a run.
//!
//! A run executes in a freshly forked process (so statics of the code under test start fresh), on real OS threads
//! of which exactly one - the baton holder - runs at any time. Every `point` may hand the baton to another task.
//! The choice log lives in memory shared with the parent, so it survives a process death (stack overflow, abort).

use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const MAX_CHOICES: usize = 1 << 18;
pub const TEXT_CAP: usize = 1 << 22;

/// What a run leaves behind, in memory shared with the parent.
#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub nontrivial: u32,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub n_choices: u32,
    pub text_len: u32,
    pub choices: [u32; MAX_CHOICES],
    pub text: [u8; TEXT_CAP],
}

pub enum Source {
    Seeded(Prng),
    Script(Vec<u32>, usize),
}

#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(values: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in values {
        h ^= *v;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
        h = Prng::new(h).next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TaskState {
    Runnable,
    Blocked(usize), // on a lock id, or usize::MAX for join
    Done,
}

struct St {
    source: Source,
    shared: *mut Shared,
    steps: u64,
    switches: u64,
    budget: u64,
    clock_ns: u64,
    tasks: Vec<TaskState>,
    cvs: Vec<Arc<Condvar>>,
    current: usize,
    stay: u32, // percent chance of not switching at a point
    trace_on: bool,
    trace: Vec<String>,
    trace_hash: u64,
    sched_hash: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    nontrivial: bool,
    serial: bool,
    locks: usize,
}

unsafe impl Send for St {}

static ST: Mutex<Option<St>> = Mutex::new(None);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static FAULT_IN: Cell<i64> = const { Cell::new(-1) };
    static NESTED: RefCell<Option<(u64, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
    static SUPPRESS: Cell<bool> = const { Cell::new(false) };
    static STORM: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn st() -> MutexGuard<'static, Option<St>> {
    match ST.lock() {
        Ok(guard) => guard,
        Err(poisoned) => poisoned.into_inner(),
    }
}

/// Payload of an injected panic.
pub struct SimPanic(pub u64);

impl St {
    fn draw_raw(&mut self, n: u32, pick: impl FnOnce(&mut Prng) -> u32) -> u32 {
        let value = match &mut self.source {
            Source::Seeded(prng) => pick(prng),
            Source::Script(script, pos) => {
                let value = script.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if value >= n {
                    value % n
                } else {
                    value
                }
            }
        };
        unsafe {
            let shared = &mut *self.shared;
            let at = shared.n_choices as usize;
            if at >= MAX_CHOICES {
                drop_dead(self, 4, "inconclusive", "choice log full");
            }
            shared.choices[at] = value;
            shared.n_choices = at as u32 + 1;
        }
        value
    }

    fn trace(&mut self, task: usize, what: &str) {
        self.trace_hash = mix(&[self.trace_hash, task as u64, hash_str(what)]);
        if self.trace_on && self.trace.len() < 5_000 {
            let what = what.chars().take(1_000).collect::<String>();
            self.trace.push(format!("step {:>4} task {} {}", self.steps, task, what));
        }
    }

    fn publish(&mut self, status: u32, class: &str, message: &str) {
        let text = serde_json::json!({
            "class": class,
            "message": message,
            "counters": self.counters,
            "samples": self.samples,
            "trace": self.trace,
        })
        .to_string();
        unsafe {
            let shared = &mut *self.shared;
            shared.steps = self.steps;
            shared.switches = self.switches;
            shared.sim_ns = self.clock_ns;
            shared.trace_hash = self.trace_hash;
            shared.sched_hash = self.sched_hash;
            shared.nontrivial = self.nontrivial as u32;
            let bytes = text.as_bytes();
            let n = bytes.len().min(TEXT_CAP);
            shared.text[..n].copy_from_slice(&bytes[..n]);
            shared.text_len = n as u32;
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            shared.status = status;
        }
    }
}

fn drop_dead(st: &mut St, status: u32, class: &str, message: &str) -> ! {
    st.publish(status, class, message);
    unsafe { libc::_exit(0) }
}

/// Report a violation of the property under check; ends the run.
pub fn fail(class: &str, message: impl AsRef<str>) -> ! {
    crate::env::calm();
    let mut guard = st();
    let st = guard.as_mut().unwrap();
    let mut message = message.as_ref().to_owned();
    if message.len() > 6000 {
        let mut cut = 6000;
        while !message.is_char_boundary(cut) {
            cut -= 1;
        }
        message.truncate(cut);
        message.push_str(" ...");
    }
    let me = ME.with(|me| me.get());
    st.trace(me, &format!("VIOLATION {}: {}", class, message));
    drop_dead(st, 2, class, &message)
}

pub fn harness_error(message: impl AsRef<str>) -> ! {
    let mut guard = st();
    drop_dead(guard.as_mut().unwrap(), 3, "harness", message.as_ref())
}

pub fn inconclusive(message: &str) -> ! {
    let mut guard = st();
    drop_dead(guard.as_mut().unwrap(), 4, "inconclusive", message)
}

/// Uniform choice in 0..n; 0 is the simplest alternative.
pub fn draw(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let mut guard = st();
    guard.as_mut().unwrap().draw_raw(n as u32, |prng| (prng.next() % n as u64) as u32) as usize
}

/// True with a chance of `percent`; false is the simplest alternative.
pub fn chance(percent: u32) -> bool {
    let mut guard = st();
    guard
        .as_mut()
        .unwrap()
        .draw_raw(2, |prng| (prng.next() % 100 < percent as u64) as u32)
        == 1
}

pub fn draw64() -> u64 {
    let a = draw(1 << 31) as u64;
    let b = draw(1 << 31) as u64;
    a << 31 | b
}

pub fn pick<T>(items: &[T]) -> &T {
    &items[draw(items.len())]
}

pub fn shuffle<T>(items: &mut [T]) {
    for i in (1..items.len()).rev() {
        // 0 keeps the element in place
        let j = draw(i + 1);
        items.swap(i, i - j);
    }
}

pub fn count(name: &str) {
    count_n(name, 1)
}

pub fn count_n(name: &str, n: u64) {
    let mut guard = st();
    let st = guard.as_mut().unwrap();
    *st.counters.entry(name.to_owned()).or_insert(0) += n;
}

pub fn sample(text: impl Into<String>) {
    let mut guard = st();
    let st = guard.as_mut().unwrap();
    if st.samples.len() < 6 {
        let mut text = text.into();
        if text.len() > 600 {
            let mut cut = 600;
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            text.truncate(cut);
        }
        st.samples.push(text);
    }
}

pub fn nontrivial() {
    st().as_mut().unwrap().nontrivial = true;
}

pub fn note(what: impl AsRef<str>) {
    let me = ME.with(|me| me.get());
    let mut guard = st();
    guard.as_mut().unwrap().trace(me, what.as_ref());
}

pub fn now_ns() -> u64 {
    // also called from interposed libc functions: never block
    match ST.try_lock() {
        Ok(guard) => guard.as_ref().map_or(0, |st| st.clock_ns),
        Err(_) => 0,
    }
}

pub fn steps() -> u64 {
    st().as_ref().unwrap().steps
}

fn wait_for_baton(mut guard: MutexGuard<'static, Option<St>>, me: usize) {
    loop {
        let cv = {
            let st = guard.as_ref().unwrap();
            if st.current == me {
                return;
            }
            st.cvs[me].clone()
        };
        guard = match cv.wait(guard) {
            Ok(guard) => guard,
            Err(poisoned) => poisoned.into_inner(),
        };
    }
}

fn switch_to(st: &mut St, next: usize) {
    st.current = next;
    st.switches += 1;
    st.sched_hash = mix(&[st.sched_hash, st.steps, next as u64]);
    st.cvs[next].notify_all();
}

fn choose_other(st: &mut St, runnable: &[usize]) -> usize {
    let n = runnable.len() as u32;
    if n == 1 {
        return runnable[0];
    }
    let i = if st.serial { 0 } else { st.draw_raw(n, |prng| (prng.next() % n as u64) as u32) };
    runnable[i as usize]
}

/// A scheduling point: another task may run here, simulated time passes.
pub fn point(site: &str) {
    if SUPPRESS.with(|s| s.get()) || STORM.with(|s| s.get()) {
        return;
    }
    let me = ME.with(|me| me.get());
    let mut guard = st();
    let st = guard.as_mut().unwrap();
    st.steps += 1;
    st.clock_ns += 1_000_000;
    st.trace(me, site);
    if st.steps > st.budget {
        let budget = st.budget;
        drop_dead(
            st,
            2,
            "no-progress",
            &format!("the run did not finish within {} steps (last step in {})", budget, site),
        );
    }
    if st.serial {
        return;
    }
    let others = (0..st.tasks.len())
        .filter(|i| *i != me && st.tasks[*i] == TaskState::Runnable)
        .collect::<Vec<_>>();
    if others.is_empty() {
        return;
    }
    let stay = st.stay as u64;
    let n = others.len() as u64;
    let choice = st.draw_raw(n as u32 + 1, |prng| {
        let r = prng.next();
        if r % 100 < stay {
            0
        } else {
            (r / 100 % n) as u32 + 1
        }
    });
    if choice > 0 {
        switch_to(st, others[choice as usize - 1]);
        wait_for_baton(guard, me);
    }
}

/// A point inside a sink: another task may run here, or this one may start something of its own.
pub fn sink_point(site: &str) {
    if SUPPRESS.with(|s| s.get()) || STORM.with(|s| s.get()) {
        return;
    }
    run_nested(site);
    point(site);
}

fn run_nested(site: &str) {
    let nested = NESTED.with(|n| {
        let mut n = n.borrow_mut();
        match n.as_mut() {
            Some((0, _)) => n.take().map(|n| n.1),
            Some((left, _)) => {
                *left -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(nested) = nested {
        count("situation.nested_in_user_code");
        note(format!("user code at {} starts something of its own", site));
        let armed = FAULT_IN.with(|c| c.replace(-1));
        nested();
        FAULT_IN.with(|c| c.set(armed));
    }
}

/// A point inside user code running within a library call: it may also be where the caller crashes.
pub fn user_point(site: &str) {
    if SUPPRESS.with(|s| s.get()) {
        return;
    }
    if STORM.with(|s| s.get()) {
        let left = FAULT_IN.with(|f| f.replace(f.get() - 1));
        if left == 0 {
            panic_any(SimPanic(1));
        }
        return;
    }
    run_nested(site);
    point(site);
    let left = FAULT_IN.with(|f| f.get());
    if left >= 0 {
        FAULT_IN.with(|f| f.set(left - 1));
        if left == 0 {
            count(&format!("fault.panic_in_user_code.{}", site.split(':').next().unwrap_or(site)));
            note(format!("inject panic at {}", site));
            panic_any(SimPanic(1));
        }
    }
}

/// Have this thread's user code call `f` at its `after`-th point from now on.
pub fn nest(after: u64, f: Box<dyn FnOnce() + '_>) {
    // cleared with `unnest` before what it borrows goes away
    let f: Box<dyn FnOnce()> = unsafe { std::mem::transmute(f) };
    NESTED.with(|n| *n.borrow_mut() = Some((after, f)));
}

/// Take back what `nest` left; true if it did run.
pub fn unnest() -> bool {
    NESTED.with(|n| n.borrow_mut().take()).is_none()
}

/// Run `f` with scheduling points and faults off: used for reference ("alone") executions.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            SUPPRESS.with(|s| s.set(self.0));
        }
    }
    let _reset = Reset(SUPPRESS.with(|s| s.replace(true)));
    f()
}

/// Outcome of a library call during which a panic may have been injected.
pub enum Outcome<R> {
    Done(R),
    Crashed,
}

/// Run `f`, crashing it at its `after`-th user-code point (never if negative). Other panics are violations.
pub fn faulty<R>(what: &str, after: i64, f: impl FnOnce() -> R) -> Outcome<R> {
    let previous = FAULT_IN.with(|c| c.replace(after));
    let result = catch_unwind(AssertUnwindSafe(f));
    FAULT_IN.with(|c| c.set(previous));
    match result {
        Ok(value) => Outcome::Done(value),
        Err(payload) if payload.is::<SimPanic>() => {
            note(format!("{} crashed by the injected panic", what));
            Outcome::Crashed
        }
        Err(payload) => unexpected_panic(what, payload),
    }
}

/// Run `f` again and again on this thread without scheduling points, each time crashing it at a point of its own.
pub fn storm(what: &str, times: usize, mut f: impl FnMut()) {
    if times == 0 {
        return;
    }
    let stride = 1 + draw(7);
    note(format!("{} {} times, crashed at varying points", what, times));
    let mut crashed = 0;
    let previous = FAULT_IN.with(|c| c.get());
    for i in 0..times {
        STORM.with(|s| s.set(true));
        FAULT_IN.with(|c| c.set((i * stride % 23) as i64));
        let result = catch_unwind(AssertUnwindSafe(&mut f));
        STORM.with(|s| s.set(false));
        FAULT_IN.with(|c| c.set(-1));
        match result {
            Ok(()) => {}
            Err(payload) if payload.is::<SimPanic>() => crashed += 1,
            Err(payload) => unexpected_panic(what, payload),
        }
    }
    FAULT_IN.with(|c| c.set(previous));
    count_n("fault.panic_in_user_code.storm", crashed);
    count_n("situation.storm_of_builds", times as u64);
}

/// Run `f` on this thread without scheduling points and without leaving a trace, crashing it at its `after`-th point.
pub fn stormy<R>(what: &str, after: i64, f: impl FnOnce() -> R) -> Outcome<R> {
    let storm = STORM.with(|s| s.replace(true));
    let armed = FAULT_IN.with(|c| c.replace(after));
    let result = catch_unwind(AssertUnwindSafe(f));
    STORM.with(|s| s.set(storm));
    FAULT_IN.with(|c| c.set(armed));
    match result {
        Ok(value) => Outcome::Done(value),
        Err(payload) if payload.is::<SimPanic>() => Outcome::Crashed,
        Err(payload) => unexpected_panic(what, payload),
    }
}

/// Run `f`; any panic is a violation.
pub fn expect_ok<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(value) => value,
        Err(payload) => unexpected_panic(what, payload),
    }
}

fn unexpected_panic(what: &str, payload: Box<dyn Any + Send>) -> ! {
    let message = LAST_PANIC.with(|p| p.borrow().clone());
    let kind = if payload.is::<SimPanic>() { "injected panic escaped" } else { "panic" };
    fail("panic", format!("{} in {}: {}", kind, what, message))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string payload)".to_owned()
        };
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", text, place));
    }));
}

/// A caller of the library: a boxed closure run on its own OS thread under the scheduler.
pub type Job<'a> = Box<dyn FnOnce() + 'a>;

/// Run the jobs concurrently under the scheduler and wait for all of them.
pub fn par(jobs: Vec<Job<'_>>) {
    let me = ME.with(|me| me.get());
    // the scheduler runs one thread at a time and `par` waits for all of them
    let jobs: Vec<Job<'static>> = unsafe { std::mem::transmute(jobs) };
    let mut handles = Vec::new();
    for job in jobs {
        struct SendJob(Job<'static>);
        unsafe impl Send for SendJob {}
        let job = SendJob(job);
        let id = {
            let mut guard = st();
            let st = guard.as_mut().unwrap();
            st.tasks.push(TaskState::Runnable);
            st.cvs.push(Arc::new(Condvar::new()));
            st.tasks.len() - 1
        };
        let thread = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                ME.with(|me| me.set(id));
                wait_for_baton(st(), id);
                let job = job;
                let job = job.0;
                if let Err(payload) = catch_unwind(AssertUnwindSafe(job)) {
                    unexpected_panic("a task", payload);
                }
                finish_task(id);
            })
            .unwrap_or_else(|e| harness_error(format!("cannot spawn: {}", e)));
        handles.push((id, thread));
    }
    loop {
        let mut guard = st();
        let st = guard.as_mut().unwrap();
        if handles.iter().all(|(id, _)| st.tasks[*id] == TaskState::Done) {
            st.tasks[me] = TaskState::Runnable;
            break;
        }
        st.tasks[me] = TaskState::Blocked(usize::MAX);
        let runnable = runnable(st);
        if runnable.is_empty() {
            drop_dead(st, 3, "harness", "deadlock in the harness (join)");
        }
        let next = choose_other(st, &runnable);
        switch_to(st, next);
        wait_for_baton(guard, me);
    }
    for (_, thread) in handles {
        let _ = thread.join();
    }
}

fn runnable(st: &St) -> Vec<usize> {
    (0..st.tasks.len()).filter(|i| st.tasks[*i] == TaskState::Runnable).collect()
}

fn finish_task(id: usize) {
    let mut guard = st();
    let st = guard.as_mut().unwrap();
    st.tasks[id] = TaskState::Done;
    st.trace(id, "done");
    let mut next = runnable(st);
    if next.is_empty() {
        // wake joiners
        next = (0..st.tasks.len()).filter(|i| st.tasks[*i] == TaskState::Blocked(usize::MAX)).collect();
        next.reverse();
        next.truncate(1);
    }
    if next.is_empty() {
        drop_dead(st, 3, "harness", "deadlock in the harness (finish)");
    }
    let next = choose_other(st, &next);
    switch_to(st, next);
}

/// A lock callers use to share a value, under the scheduler. Not poisoned by panics.
pub struct SimMutex<T> {
    id: usize,
    held: UnsafeCell<bool>,
    value: UnsafeCell<T>,
}

unsafe impl<T> Sync for SimMutex<T> {}
unsafe impl<T> Send for SimMutex<T> {}

pub struct SimGuard<'a, T> {
    lock: &'a SimMutex<T>,
}

impl<T> SimMutex<T> {
    pub fn new(value: T) -> Self {
        let id = {
            let mut guard = st();
            let st = guard.as_mut().unwrap();
            st.locks += 1;
            st.locks
        };
        SimMutex { id, held: UnsafeCell::new(false), value: UnsafeCell::new(value) }
    }

    pub fn lock(&self) -> SimGuard<'_, T> {
        point("lock");
        let me = ME.with(|me| me.get());
        loop {
            let mut guard = st();
            let st = guard.as_mut().unwrap();
            if unsafe { !*self.held.get() } {
                unsafe { *self.held.get() = true };
                return SimGuard { lock: self };
            }
            st.tasks[me] = TaskState::Blocked(self.id);
            *st.counters.entry("sched.lock_contention".to_owned()).or_insert(0) += 1;
            let others = runnable(st);
            if others.is_empty() {
                drop_dead(st, 3, "harness", "deadlock in the harness (lock)");
            }
            let next = choose_other(st, &others);
            switch_to(st, next);
            wait_for_baton(guard, me);
        }
    }

    pub fn into_inner(self) -> T {
        self.value.into_inner()
    }
}

impl<'a, T> std::ops::Deref for SimGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.value.get() }
    }
}

impl<'a, T> std::ops::DerefMut for SimGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.value.get() }
    }
}

impl<'a, T> Drop for SimGuard<'a, T> {
    fn drop(&mut self) {
        let mut guard = st();
        let st = guard.as_mut().unwrap();
        unsafe { *self.lock.held.get() = false };
        for task in st.tasks.iter_mut() {
            if *task == TaskState::Blocked(self.lock.id) {
                *task = TaskState::Runnable;
            }
        }
    }
}

pub struct RunOptions {
    pub budget: u64,
    pub trace: bool,
    pub serial: bool,
}

/// Execute one run in this (forked) process; never returns.
pub fn execute(shared: *mut Shared, source: Source, options: RunOptions, body: fn()) -> ! {
    install_panic_hook();
    *st() = Some(St {
        source,
        shared,
        steps: 0,
        switches: 0,
        budget: options.budget,
        clock_ns: 0,
        tasks: vec![TaskState::Runnable],
        cvs: vec![Arc::new(Condvar::new())],
        current: 0,
        stay: 60,
        trace_on: options.trace,
        trace: Vec::new(),
        trace_hash: 1,
        sched_hash: 1,
        counters: BTreeMap::new(),
        samples: Vec::new(),
        nontrivial: false,
        serial: options.serial,
        locks: 0,
    });
    let stay = [85, 55, 25, 97][draw(4)];
    st().as_mut().unwrap().stay = stay;
    // a thread of its own: thread-locals of the code under test start fresh
    let root = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            ME.with(|me| me.set(0));
            crate::env::start_run();
            if let Err(payload) = catch_unwind(AssertUnwindSafe(body)) {
                unexpected_panic("the run", payload);
            }
            crate::env::calm();
            let mut guard = st();
            drop_dead(guard.as_mut().unwrap(), 1, "", "");
        })
        .expect("spawn root");
    let _ = root.join();
    unsafe { libc::_exit(9) }
}
