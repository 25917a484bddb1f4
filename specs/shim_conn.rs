// Shim: what a connection task touches.  `World::st` is where the connection is in the behaviour of spec_conn.rs;
// whatever the task does or sees moves it, and nothing may move it to `Bad`.
#[verifier::external_body]
pub struct World {}
impl World {
    pub uninterp spec fn st(&self) -> Conn;
    /// the clock, in milliseconds; waiting for anything lets it run
    pub uninterp spec fn now(&self) -> int;
    /// (no effect but to record what happened)
    #[verifier::external_body]
    pub fn note(&mut self, e: Ghost<CEv>)
        requires fine(old(self).st(), e@),
        ensures final(self).st() == step(old(self).st(), e@), final(self).now() == old(self).now(),
    { unimplemented!() }
    /// select!: any one enabled branch
    #[verifier::external_body]
    pub fn select(&mut self, on: Vec<bool>, n: usize) -> (r: usize)
        requires on@.len() == n,
        ensures r < n, on@[r as int], final(self).st() == old(self).st(),
    { unimplemented!() }
}
pub fn unreached_select() requires false {}

// ---- time ----
#[derive(Clone, Copy)]
pub struct Duration { pub ms: u64 }
impl Duration {
    pub open spec fn millis(self) -> int { self.ms as int }
    /// (a keep alive has at most 98302500 milliseconds)
    pub fn from_secs(s: u64) -> (r: Duration) requires s * 1000 <= u64::MAX, ensures r.millis() == s * 1000 { Duration { ms: s * 1000 } }
    pub fn from_millis(s: u64) -> (r: Duration) ensures r.millis() == s { Duration { ms: s } }
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.millis() == 0) { self.ms == 0 }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { t: u64 }
impl Instant {
    pub uninterp spec fn at(self) -> int;
    #[verifier::external_body]
    pub fn now(__w: &mut World) -> (r: Instant) ensures r.at() == old(__w).now(), final(__w).st() == old(__w).st(), final(__w).now() == old(__w).now() { unimplemented!() }
}
pub uninterp spec fn instant_at(t: int) -> Instant;
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Instant { instant_at(self.at() + d.millis()) }
}
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> Instant { unimplemented!() }
}
pub broadcast axiom fn axiom_instant(t: int) ensures #[trigger] instant_at(t).at() == t;
#[verifier::external_body]
pub struct Sleep {}
#[verifier::external_body]
pub fn sleep(d: Duration) -> Sleep { unimplemented!() }
impl Sleep {
    pub fn as_mut(&mut self) -> (r: &mut Sleep) ensures *r == *old(self), *final(self) == *final(r) { self }
    #[verifier::external_body]
    pub fn reset(&mut self, __w: &mut World, i: Instant)
        requires fine(old(__w).st(), CEv::Armed(i.at() - old(__w).now())),
        ensures final(__w).st() == step(old(__w).st(), CEv::Armed(i.at() - old(__w).now())), final(__w).now() == old(__w).now(),
    { unimplemented!() }
    /// the time is over
    #[verifier::external_body]
    pub fn vawait(&mut self, __w: &mut World)
        requires fine(old(__w).st(), CEv::Fired),
        ensures final(__w).st() == step(old(__w).st(), CEv::Fired),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct CancellationToken {}
impl CancellationToken {
    #[verifier::external_body]
    pub fn cancelled(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_cancelled(&self) -> bool { unimplemented!() }
}

// ---- the socket ----
impl Error {
    #[verifier::external_body]
    pub fn kind(&self) -> ErrorKind { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, BrokenPipe, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, UnexpectedEof, OutOfMemory, Other }
impl PartialEqSpecImpl for ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ErrorKind) -> bool { *self == *other }
}
/// the receiving half, with its read buffer
#[verifier::external_body]
pub struct NetReader {}
impl NetReader {
    /// all the bytes that the client will ever have sent and that were not taken from the buffer yet
    pub uninterp spec fn unread(&self) -> Seq<u8>;
    /// how many of them are in the buffer
    pub uninterp spec fn buffered(&self) -> nat;
    /// waits until there is something; nothing: the end of the stream
    #[verifier::external_body]
    pub fn fill_buf(&mut self, __w: &mut World) -> (r: Result<&[u8], Error>)
        ensures
            final(self).unread() == old(self).unread(), final(__w).st() == old(__w).st(),
            r is Ok ==> {
                let b = (r->Ok_0)@;
                b.len() == final(self).buffered() && b.len() <= old(self).unread().len() && b == old(self).unread().take(b.len() as int)
                && (b.len() == 0 ==> old(self).unread().len() == 0) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self, n: usize)
        requires n <= old(self).buffered(),
        ensures final(self).unread() == old(self).unread().sk(n as int), final(self).buffered() == old(self).buffered() - n,
    { unimplemented!() }
}
pub struct BufReader {}
impl BufReader {
    #[verifier::external_body]
    pub fn new(r: NetReader) -> (b: NetReader) ensures b.unread() == r.unread() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, r: NetReader) -> (b: NetReader) ensures b.unread() == r.unread() { unimplemented!() }
}
pub trait Whole { spec fn content(&self) -> Seq<u8>; }
impl Whole for Bytes { open spec fn content(&self) -> Seq<u8> { self@ } }
impl Whole for BytesMut { open spec fn content(&self) -> Seq<u8> { self@ } }
impl Whole for Vec<u8> { open spec fn content(&self) -> Seq<u8> { self@ } }
impl Whole for [u8] { open spec fn content(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct NetWriter {}
impl NetWriter {
    /// all of it, or an error after which an unknown part of it was sent
    #[verifier::external_body]
    pub fn write_all<B: Whole + ?Sized>(&mut self, __w: &mut World, b: &B) -> (r: Result<(), Error>)
        requires fine(old(__w).st(), CEv::Wrote { b: b.content(), ok: true }), fine(old(__w).st(), CEv::Wrote { b: b.content(), ok: false }),
        ensures final(__w).st() == step(old(__w).st(), CEv::Wrote { b: b.content(), ok: r is Ok }),
    { unimplemented!() }
    /// (may send a part of it only)
    #[verifier::external_body]
    pub fn write<B: Whole + ?Sized>(&mut self, __w: &mut World, b: &B) -> (r: Result<usize, Error>)
        requires b.content().len() == 0,
        ensures final(__w).st() == old(__w).st(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self) -> Result<(), Error> { unimplemented!() }
}
#[verifier::external_body]
pub struct NetStream {}
impl NetStream { pub uninterp spec fn unread(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn split(s: NetStream) -> (r: (NetReader, NetWriter)) ensures r.0.unread() == s.unread() { unimplemented!() }

// ---- bytes::BytesMut, as a queue ----
impl BytesMut {
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(),
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.sk(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut) ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len(), ensures final(self)@ == old(self)@.sk(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
impl core::ops::Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}

// ---- channels ----
impl Sender<Command> {
    /// (Err: the core is gone.)  A reply channel moves into one request, which is what it answers.
    #[verifier::external_body]
    pub fn send(&self, __w: &mut World, c: Command) -> (r: Result<(), SendError<Command>>)
        requires
            fine(old(__w).st(), CEv::Cmd { c, ok: true }), fine(old(__w).st(), CEv::Cmd { c, ok: false }),
            match c { Command::Publish { .. } => cmd_ok(c), _ => true },
        ensures
            final(__w).st() == step(old(__w).st(), CEv::Cmd { c, ok: r is Ok }),
            cmd_ok(c),
    { unimplemented!() }
}
impl Sender<Command> {
    /// (Err, and nothing sent, when the channel is full or the core is gone)
    #[verifier::external_body]
    pub fn try_send(&self, __w: &mut World, c: Command) -> (r: Result<(), TrySendError<Command>>)
        requires
            fine(old(__w).st(), CEv::Cmd { c, ok: true }),
            match c { Command::Publish { .. } => cmd_ok(c), _ => true },
        ensures
            final(__w).st() == (if r is Ok { step(old(__w).st(), CEv::Cmd { c, ok: true }) } else { old(__w).st() }),
            r is Ok ==> cmd_ok(c),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ChannelReceiver<T> { t: Vec<T> }
impl<T> ChannelReceiver<T> { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub fn channel<T>(n: usize) -> (r: (Sender<T>, ChannelReceiver<T>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
pub open spec fn from_core(chan: int, r: Option<ClientEvent>) -> CEv { CEv::FromCore { chan, what: match r { Some(e) => Some(out_of(e)), None => None } } }
impl ChannelReceiver<ClientEvent> {
    /// the next message; nobody sends on a channel before the core was given it, or on another one
    #[verifier::external_body]
    pub fn recv(&mut self, __w: &mut World) -> (r: Option<ClientEvent>)
        requires
            idle(old(__w).st()) && old(__w).st().src is Turn,
            old(__w).st().given ==> old(__w).st().me == old(self).chan() && old(__w).st().connected,
        ensures
            final(self).chan() == old(self).chan(),
            r is Some ==> old(__w).st().given,
            final(__w).st() == step(old(__w).st(), from_core(old(self).chan(), r)),
    { unimplemented!() }
    /// a message that is there already
    #[verifier::external_body]
    pub fn try_recv(&mut self, __w: &mut World) -> (r: Result<ClientEvent, TryRecvError>)
        requires
            idle(old(__w).st()),
            old(__w).st().given ==> old(__w).st().me == old(self).chan() && old(__w).st().connected,
        ensures
            final(self).chan() == old(self).chan(),
            r is Ok ==> old(__w).st().given && final(__w).st() == step(old(__w).st(), from_core(old(self).chan(), Some(r->Ok_0))),
            r is Err ==> final(__w).st() == old(__w).st(),
    { unimplemented!() }
}
pub enum TryRecvError { Empty, Disconnected }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneshotReceiver<T> { t: Vec<T> }
#[verifier::external_body]
pub struct RecvError {}
#[verifier::external_body]
pub fn oneshot_channel<T>() -> (r: (OneshotSender<T>, OneshotReceiver<T>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
impl<T> OneshotReceiver<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T: Reply> OneshotReceiver<T> {
    /// the answer, which is what the core may answer (proved of it in unit u3)
    #[verifier::external_body]
    pub fn vawait(self, __w: &mut World) -> (r: Result<T, RecvError>)
        requires old(__w).st().phase is Wait && old(__w).st().phase->reply == self.chan(),
        ensures
            final(__w).st() == step(old(__w).st(), CEv::Answer { from: self.chan(), what: match r { Ok(x) => Some(x.rep()), Err(_) => None } }),
            r is Ok ==> (r->Ok_0).permitted(self.chan()),
    { unimplemented!() }
}

// ---- std::collections::HashSet ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { v: Vec<K> }
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures r == old(self)@.contains(*k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
}
