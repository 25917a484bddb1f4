// Shim: the outside world (channels between the tasks, the socket, timers), as a log of what was done.
pub enum Ev {
    /// handed to the connection that reads this channel
    ToClient { chan: int, what: Out },
    /// the answer to the request that carried this reply channel
    Replied { to: int, what: Rep },
}
#[verifier::external_body]
pub struct World {}
impl World {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
}
/// What a channel may carry, and what sending it means.
pub trait Post: Sized {
    spec fn allowed(self) -> bool;
    spec fn ev(self, chan: int) -> Ev;
}
impl Post for ClientEvent {
    open spec fn allowed(self) -> bool { true }
    open spec fn ev(self, chan: int) -> Ev { Ev::ToClient { chan, what: out_of(self) } }
}
impl<T: Post> Sender<T> {
    /// (waits for room in the channel; Err when the receiver is gone)
    #[verifier::external_body]
    pub fn send(&self, __w: &mut World, v: T) -> (r: Result<(), SendError<T>>)
        requires v.allowed(),
        ensures final(__w).log() == old(__w).log().push(v.ev(self.chan())),
    { unimplemented!() }
}
impl<T: Post> Sender<T> {
    /// (Err, and nothing sent, when the channel is full or the receiver is gone)
    #[verifier::external_body]
    pub fn try_send(&self, __w: &mut World, v: T) -> (r: Result<(), TrySendError<T>>)
        requires v.allowed(),
        ensures final(__w).log() == (if r is Ok { old(__w).log().push(v.ev(self.chan())) } else { old(__w).log() }),
    { unimplemented!() }
}
impl<T: Reply> OneshotSender<T> {
    #[verifier::external_body]
    pub fn send(self, __w: &mut World, v: T) -> (r: Result<(), T>)
        requires v.permitted(self.chan()),
        ensures v.permitted(self.chan()), final(__w).log() == old(__w).log().push(Ev::Replied { to: self.chan(), what: v.rep() }),
    { unimplemented!() }
}
