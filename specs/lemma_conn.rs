// Theorems about whole histories of a connection: `es` is everything it did and saw, none of it forbidden.
pub open spec fn run(s: Conn, es: Seq<CEv>) -> Conn
    decreases es.len(),
{ if es.len() == 0 { s } else { run(step(s, es[0]), es.sk(1)) } }
pub open spec fn one_if<T>(b: bool, x: T) -> Seq<T> { if b { seq![x] } else { Seq::empty() } }
/// the publications that were accepted, in the order in which their packets came
pub open spec fn pubs_taken(s: Conn, es: Seq<CEv>) -> Seq<Msg>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else {
        let n = step(s, es[0]);
        (if es[0] is Took { owed_pub(n) } else { Seq::empty() }) + pubs_taken(n, es.sk(1)) }
}
/// the publications that the core was given, in order
pub open spec fn pubs_handed(es: Seq<CEv>) -> Seq<Msg>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else {
        (match es[0] { CEv::Cmd { c: Command::Publish { topic, qos, payload }, .. } => seq![Msg { topic: sb(topic), qos, payload: payload@ }], _ => Seq::empty() }) + pubs_handed(es.sk(1)) }
}
pub open spec fn owed_pub(s: Conn) -> Seq<Msg> { match s.phase { Phase::Do(Act::Pub(m), _) => seq![m], _ => Seq::empty() } }
/// the messages that came from the core, and those that were sent to the client
pub open spec fn queue_got(es: Seq<CEv>) -> Seq<Seq<u8>>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else { (match es[0] { CEv::FromCore { what: Some(Out::Msg(b)), .. } => seq![b], _ => Seq::empty() }) + queue_got(es.sk(1)) }
}
pub open spec fn queue_sent(s: Conn, es: Seq<CEv>) -> Seq<Seq<u8>>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else {
        (match es[0] { CEv::Wrote { b, .. } => if s.src is Core { seq![b] } else { Seq::empty() }, _ => Seq::empty() }) + queue_sent(step(s, es[0]), es.sk(1)) }
}
pub open spec fn owed_msg(s: Conn) -> Seq<Seq<u8>> { match s.phase { Phase::Do(Act::Write(b), _) => if s.src is Core { seq![b] } else { Seq::empty() }, _ => Seq::empty() } }
/// shape of the states that occur
pub open spec fn shaped(s: Conn) -> bool {
    &&& match s.phase { Phase::Do(_, t) => !(t is Pub), _ => true }
    &&& s.src is Core ==> match s.phase { Phase::Do(a, t) => t is Nothing && (a is Nothing || a is Write), Phase::End => true, Phase::Bad => true, _ => false }
}
proof fn lemma_bad_stays(s: Conn, es: Seq<CEv>)
    requires s.phase is Bad,
    ensures run(s, es).phase is Bad,
    decreases es.len(),
{ if es.len() > 0 { lemma_bad_stays(step(s, es[0]), es.sk(1)); } }
/// what the core is given is what was accepted, in order: nothing lost but the one that is being handed over
proof fn theorem_handed(s: Conn, es: Seq<CEv>)
    requires shaped(s), !(run(s, es).phase is Bad),
    ensures owed_pub(s) + pubs_taken(s, es) =~= pubs_handed(es) + owed_pub(run(s, es)), shaped(run(s, es)),
    decreases es.len(),
{
    if es.len() > 0 {
        let n = step(s, es[0]);
        if n.phase is Bad { lemma_bad_stays(n, es.sk(1)); }
        lemma_step(s, es[0]);
        theorem_handed(n, es.sk(1));
        let a = if es[0] is Took { owed_pub(n) } else { Seq::<Msg>::empty() };
        let h = match es[0] { CEv::Cmd { c: Command::Publish { topic, qos, payload }, .. } => seq![Msg { topic: sb(topic), qos, payload: payload@ }], _ => Seq::<Msg>::empty() };
        assert(owed_pub(s) + a =~= h + owed_pub(n));
        let t = pubs_taken(n, es.sk(1));
        assert(owed_pub(s) + (a + t) =~= (owed_pub(s) + a) + t);
        assert((h + owed_pub(n)) + t =~= h + (owed_pub(n) + t));
        assert(h + (pubs_handed(es.sk(1)) + owed_pub(run(n, es.sk(1)))) =~= (h + pubs_handed(es.sk(1))) + owed_pub(run(n, es.sk(1))));
    }
}
proof fn lemma_step(s: Conn, e: CEv)
    requires shaped(s), !(step(s, e).phase is Bad),
    ensures shaped(step(s, e)),
        owed_pub(s) + (if e is Took { owed_pub(step(s, e)) } else { Seq::<Msg>::empty() })
            =~= (match e { CEv::Cmd { c: Command::Publish { topic, qos, payload }, .. } => seq![Msg { topic: sb(topic), qos, payload: payload@ }], _ => Seq::<Msg>::empty() }) + owed_pub(step(s, e)),
        owed_msg(s) + (match e { CEv::FromCore { what: Some(Out::Msg(b)), .. } => seq![b], _ => Seq::<Seq<u8>>::empty() })
            =~= (match e { CEv::Wrote { b, .. } => if s.src is Core { seq![b] } else { Seq::<Seq<u8>>::empty() }, _ => Seq::<Seq<u8>>::empty() }) + owed_msg(step(s, e)),
{}
/// what the client is sent of the core's messages is what the core queued, in order: nothing lost but the one being sent
proof fn theorem_queue(s: Conn, es: Seq<CEv>)
    requires shaped(s), !(run(s, es).phase is Bad),
    ensures owed_msg(s) + queue_got(es) =~= queue_sent(s, es) + owed_msg(run(s, es)),
    decreases es.len(),
{
    if es.len() > 0 {
        let n = step(s, es[0]);
        if n.phase is Bad { lemma_bad_stays(n, es.sk(1)); }
        lemma_step(s, es[0]);
        theorem_queue(n, es.sk(1));
        let a = match es[0] { CEv::FromCore { what: Some(Out::Msg(b)), .. } => seq![b], _ => Seq::<Seq<u8>>::empty() };
        let h = match es[0] { CEv::Wrote { b, .. } => if s.src is Core { seq![b] } else { Seq::<Seq<u8>>::empty() }, _ => Seq::<Seq<u8>>::empty() };
        let t = queue_got(es.sk(1));
        assert(owed_msg(s) + (a + t) =~= (owed_msg(s) + a) + t);
        assert((h + owed_msg(n)) + t =~= h + (owed_msg(n) + t));
        assert(h + (queue_sent(n, es.sk(1)) + owed_msg(run(n, es.sk(1)))) =~= (h + queue_sent(n, es.sk(1))) + owed_msg(run(n, es.sk(1))));
    }
}
/// the start is such a state
proof fn lemma_start(stream: Seq<u8>)
    ensures shaped(start(stream)), owed_pub(start(stream)) =~= Seq::<Msg>::empty(), owed_msg(start(stream)) =~= Seq::<Seq<u8>>::empty(),
{}
/// the packets acted upon, and the first n packets of a stream
pub open spec fn packets(s: Conn, es: Seq<CEv>) -> Seq<SPacket>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else { (if es[0] is Took { seq![(decode(head(s.rest))->0).0] } else { Seq::empty() }) + packets(step(s, es[0]), es.sk(1)) }
}
pub open spec fn parse(b: Seq<u8>, n: nat) -> Seq<SPacket>
    decreases n,
{ if n == 0 { Seq::empty() } else { seq![(decode(head(b))->0).0] + parse(b.sk((decode(head(b))->0).1), (n - 1) as nat) } }
/// whatever else happens, and however the stream arrives: the packets acted upon are the first packets of the stream
proof fn theorem_stream(s: Conn, es: Seq<CEv>)
    requires !(run(s, es).phase is Bad),
    ensures packets(s, es) =~= parse(s.rest, packets(s, es).len()),
    decreases es.len(),
{
    if es.len() > 0 {
        let n = step(s, es[0]);
        if n.phase is Bad { lemma_bad_stays(n, es.sk(1)); }
        theorem_stream(n, es.sk(1));
        let t = packets(n, es.sk(1));
        if es[0] is Took {
            let p = (decode(head(s.rest))->0).0;
            assert(packets(s, es) =~= seq![p] + t);
            assert(n.rest == s.rest.sk((decode(head(s.rest))->0).1));
            assert((packets(s, es).len() - 1) as nat == t.len());
        } else { assert(packets(s, es) =~= t); assert(n.rest == s.rest); }
    }
}
