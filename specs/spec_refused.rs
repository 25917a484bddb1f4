pub open spec fn plain_err(e: MqttError) -> bool { !(e is UnacceptableProtocolLevel) && !(e is ClientIdentifierRejected) }
/// (size of the header of the packet at the start of b)
pub open spec fn body_of(b: Seq<u8>) -> Seq<u8> {
    match dec_len(b.sk(1)) { VarInt::Value(v, n) => b.subrange(1 + n, 1 + n + v), _ => nil() }
}
pub open spec fn refused_level(b: Seq<u8>) -> bool {
    frame(b) is Some && frame(b)->0 <= b.len() && ok_first(b[0]) && ty_of(b[0]) == 1 && bad_level(body_of(b))
}
pub open spec fn refused_client_id(b: Seq<u8>) -> bool {
    frame(b) is Some && frame(b)->0 <= b.len() && ok_first(b[0]) && ty_of(b[0]) == 1 && bad_client_id(body_of(b))
}
/// the frame and the packet at the start of a stream do not depend on what follows
pub proof fn theorem_prefix(b: Seq<u8>, more: Seq<u8>)
    ensures frame(b) is Some ==> frame(b + more) == frame(b), decode(b) is Some ==> decode(b + more) == decode(b),
        b.len() >= 5 && dec_len(b.sk(1)) is TooLong ==> dec_len((b + more).sk(1)) is TooLong && decode(b + more) is None,
{
    reveal(frame); reveal(decode); reveal_with_fuel(dec_len, 1);
    if b.len() >= 1 {
        let r = b.sk(1);
        let r2 = (b + more).sk(1);
        assert forall|i: int| 0 <= i < r.len() implies r[i] == r2[i] by {}
        match dec_len(r) {
            VarInt::Value(v, n) => {
                assert(dec_len(r2) == dec_len(r));
                if b.len() >= 1 + n + v { assert((b + more).subrange(1 + n, 1 + n + v) =~= b.subrange(1 + n, 1 + n + v)); }
            },
            VarInt::TooLong => { assert(dec_len(r2) is TooLong); },
            _ => {},
        }
    }
}
