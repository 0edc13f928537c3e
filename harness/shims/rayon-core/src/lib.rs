//! Stand-in for `rayon-core` whose fork/join runs under `mcsched`. All of rayon's parallel iterators
//! (the real `rayon` crate) are built on `join_context` below.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub fn max_num_threads() -> usize {
    255
}
pub fn current_num_threads() -> usize {
    mcsched::num_threads()
}
pub fn current_thread_index() -> Option<usize> {
    if mcsched::in_pool() {
        Some(0)
    } else {
        None
    }
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

#[derive(Debug)]
pub struct FnContext(PhantomData<*mut ()>);
impl FnContext {
    fn new() -> Self {
        FnContext(PhantomData)
    }
    pub fn migrated(&self) -> bool {
        false
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    mcsched::join2(oper_a, oper_b)
}
pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    mcsched::join2(move || oper_a(FnContext::new()), move || oper_b(FnContext::new()))
}

type Task<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;
pub struct Scope<'scope> {
    tasks: Mutex<Vec<Task<'scope>>>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope { tasks: Mutex::new(vec![]), marker: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.tasks.lock().unwrap().push(Box::new(body));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        self.spawn(move |s| body(s, BroadcastContext::new()))
    }
    /// Runs everything spawned so far (and by those tasks), concurrently.
    fn drain(&self) {
        loop {
            let tasks: Vec<Task<'scope>> = std::mem::take(&mut *self.tasks.lock().unwrap());
            if tasks.is_empty() {
                return;
            }
            struct S<'a, 'b>(&'a Scope<'b>);
            unsafe impl Send for S<'_, '_> {}
            unsafe impl Sync for S<'_, '_> {}
            let this = S(self);
            let this = &this;
            mcsched::run_all(
                tasks
                    .into_iter()
                    .map(|t| {
                        let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                            let s = this;
                            t(s.0)
                        });
                        (String::new(), f)
                    })
                    .collect(),
            );
        }
    }
}
fn run_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    // Tasks start when the scope's body is done: one of the legal schedules of a pool whose other
    // workers are busy; the tasks themselves run concurrently.
    let s = Scope::new();
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.drain();
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    run_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    run_scope(op)
}
#[derive(Debug)]
pub struct ScopeFifo<'scope>(Scope<'scope>);
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        self.0.spawn(move |_| {
            let s = ScopeFifo(Scope::new());
            body(&s);
            s.0.drain();
        })
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo(Scope::new());
    let r = op(&s);
    s.0.drain();
    r
}
pub fn spawn<F: FnOnce() + Send + 'static>(func: F) {
    func()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(func: F) {
    func()
}

#[derive(Debug)]
pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
impl<'a> BroadcastContext<'a> {
    fn new() -> Self {
        BroadcastContext(PhantomData)
    }
    pub fn index(&self) -> usize {
        0
    }
    pub fn num_threads(&self) -> usize {
        1
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    vec![op(BroadcastContext::new())]
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    op(BroadcastContext::new())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

#[derive(Debug)]
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cannot build thread pool")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadPoolBuilder {
    n: usize,
}
impl fmt::Debug for ThreadPoolBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuilder")
    }
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0 }
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F>(self, _: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn start_handler<H>(self, _: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { mcsched::num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

pub struct ThreadPool {
    n: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        mcsched::install(self.n, op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        mcsched::with_pool(self.n, || broadcast(op))
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        mcsched::with_pool(self.n, || in_place_scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        mcsched::with_pool(self.n, || in_place_scope_fifo(op))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.install(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.install(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
