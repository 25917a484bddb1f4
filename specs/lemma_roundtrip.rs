// The wire format is unambiguous: decoding an encoded packet gives the packet back (C09).
proof fn lemma_len_roundtrip(n: nat, rest: Seq<u8>)
    requires n <= MAX_REMLEN,
    ensures dec_len(enc_len(n) + rest) == VarInt::Value(n as int, enc_len(n).len() as int), 1 <= enc_len(n).len() <= 4,
{
    reveal_with_fuel(enc_len, 5);
    let e = enc_len(n) + rest;
    if n < 128 { assert(e[0] == n as u8); }
    else if n < 16384 {
        assert(enc_len(n) =~= seq![(n % 128 + 128) as u8, (n / 128) as u8]);
        assert(e[0] == (n % 128 + 128) as u8 && e[1] == (n / 128) as u8);
    } else if n < 2097152 {
        assert(enc_len(n) =~= seq![(n % 128 + 128) as u8, (n / 128 % 128 + 128) as u8, (n / 128 / 128) as u8]);
        assert(e[0] == (n % 128 + 128) as u8 && e[1] == (n / 128 % 128 + 128) as u8 && e[2] == (n / 128 / 128) as u8);
    } else {
        assert(enc_len(n) =~= seq![(n % 128 + 128) as u8, (n / 128 % 128 + 128) as u8, (n / 128 / 128 % 128 + 128) as u8, (n / 128 / 128 / 128) as u8]);
        assert(e[0] == (n % 128 + 128) as u8 && e[1] == (n / 128 % 128 + 128) as u8 && e[2] == (n / 128 / 128 % 128 + 128) as u8 && e[3] == (n / 128 / 128 / 128) as u8);
    }
}
proof fn lemma_u16_rt(x: u16, t: Seq<u8>)
    ensures sp_u16(be16(x) + t) == Some((x, t)),
{
    reveal(sp_u16);
    let b = be16(x) + t;
    assert(b[0] == (x / 256) as u8 && b[1] == (x % 256) as u8);
    assert(b.sk(2) =~= t);
}
proof fn lemma_bin_rt(s: Seq<u8>, t: Seq<u8>)
    requires s.len() <= 65535,
    ensures sp_bin(en_str(s) + t) == Some((s, t)), ok_str(s) ==> sp_str(en_str(s) + t) == Some((s, t)), en_str(s).len() == 2 + s.len(),
{
    reveal(sp_str); reveal(sp_bytes);
    let b = en_str(s) + t;
    assert(b =~= be16(s.len() as u16) + (s + t));
    lemma_u16_rt(s.len() as u16, s + t);
    assert((s + t).take(s.len() as int) =~= s);
    assert((s + t).sk(s.len() as int) =~= t);
}
spec fn eo(x: Option<Seq<u8>>) -> Seq<u8> { match x { None => nil(), Some(s) => en_str(s) } }
proof fn lemma_ap_opt(p: Seq<u8>, x: Option<Seq<u8>>)
    ensures ap_opt(p, x) == p + eo(x),
{
    match x { None => { assert(p + nil() =~= p); }, Some(s) => { assert(ap_str(p, s) =~= p + en_str(s)); } }
}
proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
spec fn en_filters(f: Seq<(Seq<u8>, u8)>) -> Seq<u8>
    decreases f.len(),
{ if f.len() == 0 { nil() } else { en_str(f[0].0) + (seq![f[0].1] + en_filters(f.sk(1))) } }
spec fn en_topics(f: Seq<Seq<u8>>) -> Seq<u8>
    decreases f.len(),
{ if f.len() == 0 { nil() } else { en_str(f[0]) + en_topics(f.sk(1)) } }
proof fn lemma_ap_filters(p: Seq<u8>, f: Seq<(Seq<u8>, u8)>)
    ensures ap_filters(p, f) == p + en_filters(f),
    decreases f.len(),
{
    if f.len() == 0 { assert(p + nil() =~= p); } else {
        lemma_ap_filters(ap_str(p, f[0].0).push(f[0].1), f.sk(1));
        assert(ap_str(p, f[0].0).push(f[0].1) + en_filters(f.sk(1)) =~= p + en_filters(f));
    }
}
proof fn lemma_ap_topics(p: Seq<u8>, f: Seq<Seq<u8>>)
    ensures ap_topics(p, f) == p + en_topics(f),
    decreases f.len(),
{
    if f.len() == 0 { assert(p + nil() =~= p); } else {
        lemma_ap_topics(ap_str(p, f[0]), f.sk(1));
        assert(ap_str(p, f[0]) + en_topics(f.sk(1)) =~= p + en_topics(f));
    }
}
proof fn lemma_filters_rt(f: Seq<(Seq<u8>, u8)>)
    requires forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0.len() <= 65535 && ok_str(f[i].0) && f[i].1 <= 2,
    ensures sp_filters(en_filters(f)) == Some(f), f.len() > 0 ==> en_filters(f).len() > 0,
    decreases f.len(),
{
    if f.len() > 0 {
        let t = en_filters(f.sk(1));
        assert forall|i: int| 0 <= i < f.sk(1).len() implies (#[trigger] f.sk(1)[i]).0.len() <= 65535 && ok_str(f.sk(1)[i].0) && f.sk(1)[i].1 <= 2 by { assert(f.sk(1)[i] == f[i + 1]); }
        lemma_filters_rt(f.sk(1));
        lemma_bin_rt(f[0].0, seq![f[0].1] + t);
        let b1 = seq![f[0].1] + t;
        assert(b1.sk(1) =~= t);
        assert(seq![(f[0].0, f[0].1)] + f.sk(1) =~= f);
        assert(seq![(f[0].0, b1[0])] + f.sk(1) =~= f);
    } else { assert(f =~= Seq::empty()); }
}
proof fn lemma_topics_rt(f: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).len() <= 65535 && ok_str(f[i]),
    ensures sp_topics(en_topics(f)) == Some(f), f.len() > 0 ==> en_topics(f).len() > 0,
    decreases f.len(),
{
    if f.len() > 0 {
        let t = en_topics(f.sk(1));
        assert forall|i: int| 0 <= i < f.sk(1).len() implies (#[trigger] f.sk(1)[i]).len() <= 65535 && ok_str(f.sk(1)[i]) by { assert(f.sk(1)[i] == f[i + 1]); }
        lemma_topics_rt(f.sk(1));
        lemma_bin_rt(f[0], t);
        assert(seq![f[0]] + f.sk(1) =~= f);
    } else { assert(f =~= Seq::empty()); }
}
proof fn lemma_opt_rt(x: Option<Seq<u8>>, want: bool, t: Seq<u8>)
    ensures wf_opt_str(x, want) ==> opt_str(want, eo(x) + t) == Some((x, t)), wf_opt_bin(x, want) ==> opt_bin(want, eo(x) + t) == Some((x, t)),
{
    match x { None => { assert(nil() + t =~= t); }, Some(s) => { if s.len() <= 65535 { lemma_bin_rt(s, t); } } }
}
proof fn lemma_connect_rt(p: SPacket)
    requires wf_packet(p), p is Connect,
    ensures sp_connect(en_body(p)) == Some((p, nil())),
{
    match p { SPacket::Connect { flags, keepalive, client_id, will_topic, will_message, username, password } => {
        let t4 = eo(password) + nil();
        let t3 = eo(username) + t4;
        let t2 = eo(will_message) + t3;
        let t1 = eo(will_topic) + t2;
        let t0 = en_str(client_id) + t1;
        let tk = be16(keepalive) + t0;
        let tf = seq![4u8, flags] + tk;
        let p0 = ap_str(nil(), mqtt_name()).push(4u8).push(flags) + be16(keepalive);
        let p1 = ap_str(p0, client_id);
        let p2 = ap_opt(p1, will_topic);
        let p3 = ap_opt(p2, will_message);
        let p4 = ap_opt(p3, username);
        lemma_ap_opt(p4, password); lemma_ap_opt(p3, username); lemma_ap_opt(p2, will_message); lemma_ap_opt(p1, will_topic);
        assert(eo(password) + nil() =~= eo(password));
        assert(en_body(p) == p4 + t4);
        lemma_assoc(p3, eo(username), t4);
        lemma_assoc(p2, eo(will_message), t3);
        lemma_assoc(p1, eo(will_topic), t2);
        assert(en_body(p) == p1 + t1);
        assert(p1 + t1 =~= p0 + t0);
        assert(p0 + t0 =~= en_str(mqtt_name()) + tf);
        lemma_bin_rt(mqtt_name(), tf);
        assert(ok_str(mqtt_name())) by { lemma_ascii_utf8(); }
        assert(tf.sk(1).sk(1) =~= tk);
        assert(tf[0] == 4u8 && tf[1] == flags);
        lemma_u16_rt(keepalive, t0);
        lemma_bin_rt(client_id, t1);
        lemma_opt_rt(will_topic, c_will(flags), t2);
        lemma_opt_rt(will_message, c_will(flags), t3);
        lemma_opt_rt(username, c_username(flags), t4);
        lemma_opt_rt(password, c_password(flags), nil());
    }, _ => {} }
}
proof fn lemma_ascii_utf8()
    ensures valid_utf8(mqtt_name()),
{
    let s = seq!['M', 'Q', 'T', 'T'];
    assert(is_ascii_chars(s));
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= mqtt_name());
    encode_utf8_valid_utf8(s);
}
proof fn lemma_body_rt(p: SPacket)
    requires wf_packet(p),
    ensures sp_body(first_byte(p), en_body(p)) is Some, (sp_body(first_byte(p), en_body(p))->0).0 == p, (sp_body(first_byte(p), en_body(p))->0).1.len() == 0,
{
    match p {
        SPacket::Connect { .. } => { lemma_connect_rt(p); },
        SPacket::Connack { flags, code } => {},
        SPacket::Publish { flags, topic, id, payload } => {
            match id {
                None => { assert(en_body(p) =~= en_str(topic) + payload); lemma_bin_rt(topic, payload); },
                Some(i) => { assert(en_body(p) =~= en_str(topic) + (be16(i) + payload)); lemma_bin_rt(topic, be16(i) + payload); lemma_u16_rt(i, payload); },
            }
        },
        SPacket::Ack { kind, id } => { assert(en_body(p) =~= be16(id) + nil()); lemma_u16_rt(id, nil()); },
        SPacket::Subscribe { id, filters } => {
            lemma_ap_filters(nil() + be16(id), filters); assert(nil() + be16(id) =~= be16(id));
            lemma_u16_rt(id, en_filters(filters)); lemma_filters_rt(filters);
        },
        SPacket::Suback { id, codes } => {
            lemma_ap_bytes(nil() + be16(id), codes); assert(nil() + be16(id) =~= be16(id));
            lemma_u16_rt(id, codes);
        },
        SPacket::Unsubscribe { id, filters } => {
            lemma_ap_topics(nil() + be16(id), filters); assert(nil() + be16(id) =~= be16(id));
            lemma_u16_rt(id, en_topics(filters)); lemma_topics_rt(filters);
        },
        SPacket::Bare { kind } => {},
    }
}
/// decoding what was encoded gives it back, whatever follows on the stream
pub proof fn theorem_roundtrip(p: SPacket, more: Seq<u8>)
    requires wf_packet(p),
    ensures decode(encode(p) + more) == Some((p, encode(p).len() as int)), frame(encode(p) + more) == Some(encode(p).len() as int),
{
    let body = en_body(p);
    let e = encode(p) + more;
    assert(e[0] == first_byte(p));
    assert(e.sk(1) =~= enc_len(body.len()) + (body + more));
    lemma_len_roundtrip(body.len(), body + more);
    let n = enc_len(body.len()).len() as int;
    assert(encode(p).len() == 1 + n + body.len());
    assert(e.subrange(1 + n, 1 + n + body.len()) =~= body);
    lemma_body_rt(p);
}
