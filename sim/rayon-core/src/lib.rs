//! Stand-in for `rayon-core` inside the simulator: the same API and the same work-stealing
//! shape (a per-worker deque, owners pop the newest job, thieves take the oldest, callers from
//! outside inject a root job and block), with simulated tasks as workers. Which worker steals
//! what, and when, is decided by `simrt`. Outside a simulation everything runs inline.
#![allow(clippy::all)]
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[cfg(feature = "capi")]
pub mod capi;

type Tid = simrt::Tid;

#[derive(Clone, Copy)]
struct JobRef {
    run: unsafe fn(*const (), bool),
    data: *const (),
}
unsafe impl Send for JobRef {}
impl PartialEq for JobRef {
    fn eq(&self, o: &Self) -> bool {
        self.data == o.data
    }
}

struct Registry {
    n: usize,
    deques: Vec<VecDeque<JobRef>>,
    private: Vec<VecDeque<JobRef>>,
    injector: VecDeque<JobRef>,
    sleepers: Vec<Tid>,
    terminate: bool,
    tasks: Vec<Tid>,
}

#[derive(Clone, Copy)]
struct Worker {
    reg: *mut Registry,
    index: usize,
}

thread_local! {
    static WORKER: Cell<Option<Worker>> = const { Cell::new(None) };
}
static mut GLOBAL: *mut Registry = std::ptr::null_mut();
static mut DEFAULT_N: usize = 4;
pub static mut STEALS: u64 = 0;

#[inline(never)]
fn me() -> Option<Worker> {
    WORKER.with(|w| w.get())
}

#[inline(never)]
fn new_registry(n: usize) -> *mut Registry {
    let reg = Box::into_raw(Box::new(Registry {
        n,
        deques: (0..n).map(|_| VecDeque::new()).collect(),
        private: (0..n).map(|_| VecDeque::new()).collect(),
        injector: VecDeque::new(),
        sleepers: Vec::new(),
        terminate: false,
        tasks: Vec::new(),
    }));
    for index in 0..n {
        let r = reg as usize;
        let t = simrt::spawn_raw(Box::new(move || worker_main(Worker { reg: r as *mut Registry, index })));
        unsafe { (*reg).tasks.push(t) };
    }
    reg
}

#[inline(never)]
fn worker_main(w: Worker) {
    WORKER.with(|c| c.set(Some(w)));
    let reg = unsafe { &mut *w.reg };
    loop {
        if let Some(j) = find_work(&w) {
            execute(j, true);
        } else if reg.terminate {
            break;
        } else {
            sleep(reg);
        }
    }
    WORKER.with(|c| c.set(None));
}

#[inline(never)]
fn sleep(reg: &mut Registry) {
    reg.sleepers.push(simrt::cur_id().unwrap());
    simrt::block_latch();
}
#[inline(never)]
fn wake(reg: &mut Registry) {
    for t in std::mem::take(&mut reg.sleepers) {
        simrt::unblock(t);
    }
}
#[inline(never)]
fn execute(j: JobRef, migrated: bool) {
    simrt::cut_weak(|| unsafe { (j.run)(j.data, migrated) });
}
#[inline(never)]
fn pop_local(w: &Worker) -> Option<JobRef> {
    let reg = unsafe { &mut *w.reg };
    if let Some(j) = reg.private[w.index].pop_front() {
        return Some(j);
    }
    reg.deques[w.index].pop_back()
}
#[inline(never)]
fn find_work(w: &Worker) -> Option<JobRef> {
    if let Some(j) = pop_local(w) {
        return Some(j);
    }
    let reg = unsafe { &mut *w.reg };
    let mut v: Vec<usize> = (0..reg.n).filter(|&i| i != w.index && !reg.deques[i].is_empty()).collect();
    if !reg.injector.is_empty() {
        v.push(usize::MAX);
    }
    if v.is_empty() {
        return None;
    }
    let c = v[simrt::choose(v.len() as u32) as usize];
    unsafe { STEALS += 1 };
    if c == usize::MAX {
        reg.injector.pop_front()
    } else {
        reg.deques[c].pop_front()
    }
}
#[inline(never)]
fn push_local(w: &Worker, j: JobRef) {
    let reg = unsafe { &mut *w.reg };
    reg.deques[w.index].push_back(j);
    wake(reg);
    simrt::sync_point();
}
#[inline(never)]
fn inject(reg: *mut Registry, j: JobRef) {
    let reg = unsafe { &mut *reg };
    reg.injector.push_back(j);
    wake(reg);
    simrt::sync_point();
}

#[inline(never)]
fn global() -> *mut Registry {
    unsafe {
        if GLOBAL.is_null() {
            GLOBAL = new_registry(DEFAULT_N);
        }
        GLOBAL
    }
}

/// Control of the global pool by the simulation driver.
pub mod sim {
    use super::*;
    /// Number of workers the global pool of the coming run gets.
    pub fn set_threads(n: usize) {
        unsafe { DEFAULT_N = n.max(1) }
    }
    /// Ends the global pool (every run gets a fresh one).
    #[inline(never)]
    pub fn stop() {
        unsafe {
            if !GLOBAL.is_null() {
                let r = GLOBAL;
                GLOBAL = std::ptr::null_mut();
                stop_registry(r);
            }
        }
    }
}
#[inline(never)]
fn stop_registry(r: *mut Registry) {
    unsafe {
        (*r).terminate = true;
        wake(&mut *r);
        let ts = (*r).tasks.clone();
        for t in ts {
            simrt::join_raw(t);
        }
        drop(Box::from_raw(r));
    }
}

// ---------------------------------------------------------------- latch
struct Latch {
    done: Cell<bool>,
    reg: Cell<*mut Registry>,
    ext: Cell<Option<Tid>>,
}
impl Latch {
    #[inline(never)]
    fn new() -> Self {
        Latch { done: Cell::new(false), reg: Cell::new(std::ptr::null_mut()), ext: Cell::new(None) }
    }
    #[inline(never)]
    fn probe(&self) -> bool {
        self.done.get()
    }
    #[inline(never)]
    fn set(&self) {
        // read everything before `done`: the owner may go on as soon as it is set
        let (reg, ext) = (self.reg.get(), self.ext.get());
        self.done.set(true);
        if !reg.is_null() {
            wake(unsafe { &mut *reg });
        }
        if let Some(t) = ext {
            simrt::unblock(t);
        }
    }
    /// Waits on the calling thread; a worker executes other jobs meanwhile.
    #[inline(never)]
    fn wait(&self) {
        match me() {
            Some(w) => {
                self.reg.set(w.reg);
                while !self.probe() {
                    if let Some(j) = find_work(&w) {
                        execute(j, true);
                    } else {
                        sleep(unsafe { &mut *w.reg });
                    }
                }
            }
            None => {
                self.ext.set(simrt::cur_id());
                while !self.probe() {
                    simrt::block_latch();
                }
            }
        }
        simrt::sync_point();
    }
}

enum JobResult<R> {
    None,
    Ok(R),
    Panic(Box<dyn Any + Send>),
}
impl<R> JobResult<R> {
    fn into(self) -> R {
        match self {
            JobResult::None => unreachable!(),
            JobResult::Ok(r) => r,
            JobResult::Panic(p) => resume_unwind(p),
        }
    }
}

struct StackJob<F, R> {
    latch: Latch,
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<JobResult<R>>,
}
impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob { latch: Latch::new(), f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(JobResult::None) }
    }
    fn as_ref(&self) -> JobRef {
        unsafe fn run<F: FnOnce(bool) -> R, R>(p: *const (), migrated: bool) {
            let j = &*(p as *const StackJob<F, R>);
            let f = (*j.f.get()).take().unwrap();
            *j.r.get() = match catch_unwind(AssertUnwindSafe(|| f(migrated))) {
                Ok(r) => JobResult::Ok(r),
                Err(e) => JobResult::Panic(e),
            };
            j.latch.set();
        }
        JobRef { run: run::<F, R>, data: self as *const _ as *const () }
    }
    fn run_inline(&self, migrated: bool) -> R {
        let f = unsafe { (*self.f.get()).take().unwrap() };
        f(migrated)
    }
    fn take(&self) -> R {
        unsafe { std::mem::replace(&mut *self.r.get(), JobResult::None) }.into()
    }
}

struct HeapJob<F> {
    f: F,
}
impl<F: FnOnce()> HeapJob<F> {
    fn make(f: F) -> JobRef {
        unsafe fn run<F: FnOnce()>(p: *const (), _m: bool) {
            let j = Box::from_raw(p as *mut HeapJob<F>);
            (j.f)()
        }
        JobRef { run: run::<F>, data: Box::into_raw(Box::new(HeapJob { f })) as *const () }
    }
}

fn in_registry<R: Send, F: FnOnce(Option<Worker>, bool) -> R + Send>(reg: Option<*mut Registry>, f: F) -> R {
    if !simrt::active() {
        return f(None, false);
    }
    if let Some(w) = me() {
        if reg.is_none() || reg == Some(w.reg) {
            return f(Some(w), false);
        }
    }
    let target = reg.unwrap_or_else(global);
    let job = StackJob::new(move |m| f(me(), m));
    inject(target, job.as_ref());
    job.latch.wait();
    job.take()
}

// ---------------------------------------------------------------- join
#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    #[inline(never)]
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_registry(None, |w, injected| {
        let w = match w {
            None => {
                let ra = a(FnContext::new(false));
                return (ra, b(FnContext::new(false)));
            }
            Some(w) => w,
        };
        let job_b = StackJob::new(|m| b(FnContext::new(m)));
        let jr = job_b.as_ref();
        push_local(&w, jr);
        let ra = match catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected)))) {
            Ok(r) => r,
            Err(e) => {
                job_b.latch.wait();
                resume_unwind(e)
            }
        };
        while !job_b.latch.probe() {
            match pop_local(&w) {
                Some(j) if j == jr => {
                    let rb = job_b.run_inline(injected);
                    return (ra, rb);
                }
                Some(j) => execute(j, true),
                None => {
                    job_b.latch.wait();
                    break;
                }
            }
        }
        (ra, job_b.take())
    })
}

// ---------------------------------------------------------------- scope
struct ScopeBase {
    reg: *mut Registry,
    pending: Cell<usize>,
    panic: UnsafeCell<Option<Box<dyn Any + Send>>>,
    latch: Latch,
    queue: UnsafeCell<Vec<JobRef>>, // outside a simulation only
}
impl ScopeBase {
    #[inline(never)]
    fn new(reg: *mut Registry) -> Self {
        ScopeBase { reg, pending: Cell::new(1), panic: UnsafeCell::new(None), latch: Latch::new(), queue: UnsafeCell::new(vec![]) }
    }
    #[inline(never)]
    fn inc(&self) {
        self.pending.set(self.pending.get() + 1)
    }
    #[inline(never)]
    fn dec(&self) {
        let n = self.pending.get() - 1;
        self.pending.set(n);
        if n == 0 {
            self.latch.set()
        }
    }
    #[inline(never)]
    fn fail(&self, e: Box<dyn Any + Send>) {
        unsafe {
            if (*self.panic.get()).is_none() {
                *self.panic.get() = Some(e)
            } else {
                std::mem::forget(e)
            }
        }
    }
    #[inline(never)]
    fn push(&self, j: JobRef) {
        if !simrt::active() {
            unsafe { (*self.queue.get()).push(j) };
            return;
        }
        match me() {
            Some(w) if w.reg == self.reg => push_local(&w, j),
            _ => inject(self.reg, j),
        }
    }
    #[inline(never)]
    fn finish(&self) {
        self.dec();
        if simrt::active() {
            self.latch.wait();
        } else {
            while let Some(j) = unsafe { (*self.queue.get()).pop() } {
                unsafe { (j.run)(j.data, false) }
            }
        }
        if let Some(e) = unsafe { (*self.panic.get()).take() } {
            resume_unwind(e)
        }
    }
}
struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        Ptr(self.0)
    }
}
impl<T> Ptr<T> {
    fn get(&self) -> *const T {
        self.0
    }
}

macro_rules! scope_type {
    ($S:ident, $spawn:ident) => {
        pub struct $S<'scope> {
            base: ScopeBase,
            marker: PhantomData<Box<dyn FnOnce(&$S<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl<'scope> Sync for $S<'scope> {}
        unsafe impl<'scope> Send for $S<'scope> {}
        impl<'scope> $S<'scope> {
            pub fn $spawn<B>(&self, body: B)
            where
                B: FnOnce(&$S<'scope>) + Send + 'scope,
            {
                self.base.inc();
                let p = Ptr(self as *const Self);
                let job = HeapJob::make(move || {
                    let s = unsafe { &*p.get() };
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(s))) {
                        s.base.fail(e)
                    }
                    s.base.dec();
                });
                self.base.push(job);
            }
            pub fn spawn_broadcast<B>(&self, body: B)
            where
                B: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let body = std::sync::Arc::new(body);
                let n = if simrt::active() { unsafe { (*self.base.reg).n } } else { 1 };
                for i in 0..n {
                    self.base.inc();
                    let p = Ptr(self as *const Self);
                    let body = body.clone();
                    let job = HeapJob::make(move || {
                        let s = unsafe { &*p.get() };
                        if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(s, BroadcastContext::at(i, n)))) {
                            s.base.fail(e)
                        }
                        s.base.dec();
                    });
                    if simrt::active() {
                        push_private(self.base.reg, i, job);
                    } else {
                        self.base.push(job);
                    }
                }
            }
            fn run<R>(reg: *mut Registry, op: impl FnOnce(&$S<'scope>) -> R) -> R {
                let s = $S { base: ScopeBase::new(reg), marker: PhantomData };
                let r = match catch_unwind(AssertUnwindSafe(|| op(&s))) {
                    Ok(r) => Some(r),
                    Err(e) => {
                        s.base.fail(e);
                        None
                    }
                };
                s.base.finish();
                r.unwrap()
            }
        }
        impl<'scope> fmt::Debug for $S<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($S))
            }
        }
    };
}
scope_type!(Scope, spawn);
scope_type!(ScopeFifo, spawn_fifo);

#[inline(never)]
fn push_private(reg: *mut Registry, i: usize, j: JobRef) {
    let reg = unsafe { &mut *reg };
    reg.private[i].push_back(j);
    wake(reg);
    simrt::sync_point();
}
#[inline(never)]
fn cur_reg() -> *mut Registry {
    if !simrt::active() {
        return std::ptr::null_mut();
    }
    match me() {
        Some(w) => w.reg,
        None => global(),
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_registry(None, |_, _| Scope::run(cur_reg(), op))
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_registry(None, |_, _| ScopeFifo::run(cur_reg(), op))
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    Scope::run(cur_reg(), op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    ScopeFifo::run(cur_reg(), op)
}

// ---------------------------------------------------------------- spawn, broadcast
#[inline(never)]
fn spawn_job(reg: *mut Registry, j: JobRef) {
    match me() {
        Some(w) if w.reg == reg => push_local(&w, j),
        _ => inject(reg, j),
    }
}
fn spawn_on<F: FnOnce() + Send + 'static>(reg: *mut Registry, f: F) {
    let f = move || {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            if simrt::active() {
                simrt::fatal("abort", "a detached job panicked, which aborts the process");
            }
            std::process::abort()
        }
    };
    if !simrt::active() {
        return f();
    }
    spawn_job(reg, HeapJob::make(f));
}
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn_on(cur_reg(), f)
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn_on(cur_reg(), f)
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn at(index: usize, n: usize) -> Self {
        BroadcastContext { index, n, _m: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
fn broadcast_on<OP, R>(reg: *mut Registry, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    if !simrt::active() {
        return vec![op(BroadcastContext::at(0, 1))];
    }
    let n = unsafe { (*reg).n };
    let jobs: Vec<_> = (0..n)
        .map(|i| {
            let op = &op;
            StackJob::new(move |_| op(BroadcastContext::at(i, n)))
        })
        .collect();
    for (i, j) in jobs.iter().enumerate() {
        push_private(reg, i, j.as_ref());
    }
    for j in &jobs {
        j.latch.wait();
    }
    jobs.iter().map(|j| j.take()).collect()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_on(cur_reg(), op)
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    if !simrt::active() {
        return op(BroadcastContext::at(0, 1));
    }
    let reg = cur_reg();
    let n = unsafe { (*reg).n };
    let op = std::sync::Arc::new(op);
    for i in 0..n {
        let op = op.clone();
        push_private(reg, i, HeapJob::make(move || op(BroadcastContext::at(i, n))));
    }
}

// ---------------------------------------------------------------- queries
#[inline(never)]
pub fn current_num_threads() -> usize {
    if !simrt::active() {
        return 1;
    }
    match me() {
        Some(w) => unsafe { (*w.reg).n },
        None => unsafe {
            if GLOBAL.is_null() {
                DEFAULT_N
            } else {
                (*GLOBAL).n
            }
        },
    }
}
#[inline(never)]
pub fn current_thread_index() -> Option<usize> {
    me().map(|w| w.index)
}
pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    me().map(|w| unsafe { !(&(*w.reg).deques)[w.index].is_empty() })
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
#[inline(never)]
pub fn yield_now() -> Option<Yield> {
    let w = me()?;
    Some(match find_work(&w) {
        Some(j) => {
            execute(j, true);
            Yield::Executed
        }
        None => {
            simrt::yield_now();
            Yield::Idle
        }
    })
}
#[inline(never)]
pub fn yield_local() -> Option<Yield> {
    let w = me()?;
    Some(match pop_local(&w) {
        Some(j) => {
            execute(j, true);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

// ---------------------------------------------------------------- pools
pub struct ThreadPool {
    reg: *mut Registry,
}
unsafe impl Send for ThreadPool {}
unsafe impl Sync for ThreadPool {}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_registry(if self.reg.is_null() { None } else { Some(self.reg) }, |_, _| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_on(self.reg, op)
    }
    pub fn current_num_threads(&self) -> usize {
        if self.reg.is_null() {
            1
        } else {
            unsafe { (*self.reg).n }
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        me().filter(|w| w.reg == self.reg).map(|w| w.index)
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        Scope::run(self.reg, op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        ScopeFifo::run(self.reg, op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn_on(self.reg, op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn_on(self.reg, op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        if !self.reg.is_null() && simrt::active() {
            stop_registry(self.reg);
        }
    }
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}

pub struct ThreadPoolBuildError(());
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadBuilder(());
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}
impl ThreadBuilder {
    pub fn run(self) {}
}

pub struct DefaultSpawn;
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _m: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _m: PhantomData }
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        if !simrt::active() {
            return Ok(ThreadPool { reg: std::ptr::null_mut() });
        }
        let n = if self.n == 0 { unsafe { DEFAULT_N } } else { self.n.min(16) };
        Ok(ThreadPool { reg: new_registry(n) })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        unsafe {
            if !simrt::active() || !GLOBAL.is_null() {
                return Err(ThreadPoolBuildError(()));
            }
            GLOBAL = new_registry(if self.n == 0 { DEFAULT_N } else { self.n.min(16) });
        }
        Ok(())
    }
}
#[allow(dead_code)]
type Unused = ManuallyDrop<u8>;
