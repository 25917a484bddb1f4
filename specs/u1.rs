//@unit codec
//@include shim_base.rs
//@include lemma_bits.rs
//@include spec_mqtt.rs
/// (the broker's commands are another unit's business)
#[verifier::external_body]
pub struct Command {}
//@include types_codec.rs
//@include spec_refused.rs

// ================= enum conversions =================
//@disc packets::enums::PacketType
//@implfn packets::enums::<PacketType as TryFrom<u8>>::try_from (value) -> r
impl VTryFrom<u8> for PacketType {
    open spec fn spec_try(v: u8) -> Option<Self> { if 1 <= v <= 14 { Some(PacketType_of(v)) } else { None } }
//@body
//@end
//@implfn packets::enums::<u8 as From<QosLevel>>::from (value) -> r
impl VFrom<QosLevel> for u8 {
    open spec fn spec_from(v: QosLevel) -> u8 { match v { QosLevel::AtMost => 0, QosLevel::AtLeast => 1, QosLevel::Exactly => 2 } }
//@body
//@end
//@implfn packets::enums::<QosLevel as TryFrom<u8>>::try_from (value) -> r
impl VTryFrom<u8> for QosLevel {
    open spec fn spec_try(v: u8) -> Option<Self> { if v == 0 { Some(QosLevel::AtMost) } else if v == 1 { Some(QosLevel::AtLeast) } else if v == 2 { Some(QosLevel::Exactly) } else { None } }
//@body
//@end
pub open spec fn spec_crc(v: u8) -> Option<ConnectReturnCode> {
    if v == 0 { Some(ConnectReturnCode::Accepted) } else if v == 1 { Some(ConnectReturnCode::V4UnacceptableProtocal) }
    else if v == 2 { Some(ConnectReturnCode::V4IdentifierRejected) } else if v == 3 { Some(ConnectReturnCode::V4ServerUnavailable) }
    else if v == 4 { Some(ConnectReturnCode::V4BadUserNameOrPassword) } else if v == 5 { Some(ConnectReturnCode::V4NotAuthorized) } else { None }
}
//@implfn packets::enums::<ConnectReturnCode as TryFrom<&u8>>::try_from (value) -> r
impl<'a> VTryFrom<&'a u8> for ConnectReturnCode {
    open spec fn spec_try(v: &'a u8) -> Option<Self> { spec_crc(*v) }
//@body
//@end
//@implfn packets::enums::<ConnectReturnCode as TryFrom<u8>>::try_from (value) -> r
impl VTryFrom<u8> for ConnectReturnCode {
    open spec fn spec_try(v: u8) -> Option<Self> { spec_crc(v) }
//@body
//@end
//@implfn packets::enums::<u8 as From<ConnectReturnCode>>::from (value) -> r
impl VFrom<ConnectReturnCode> for u8 {
    open spec fn spec_from(v: ConnectReturnCode) -> u8 { v as u8 }
//@body
//@end
/// the return codes MQTT 3.1.1 defines keep their numbers
proof fn connack_codes()
    ensures ConnectReturnCode::Accepted as u8 == 0, ConnectReturnCode::V4UnacceptableProtocal as u8 == 1, ConnectReturnCode::V4IdentifierRejected as u8 == 2,
        ConnectReturnCode::V4ServerUnavailable as u8 == 3, ConnectReturnCode::V4BadUserNameOrPassword as u8 == 4, ConnectReturnCode::V4NotAuthorized as u8 == 5,
{}
proof fn suback_codes()
    ensures SubackReturnCode::SuccessQosZero as u8 == 0, SubackReturnCode::SuccessQosOne as u8 == 1, SubackReturnCode::SuccessQosTwo as u8 == 2, SubackReturnCode::Failure as u8 == 0x80,
{}
proof fn qos_codes()
    ensures QosLevel::AtMost as u8 == 0, QosLevel::AtLeast as u8 == 1, QosLevel::Exactly as u8 == 2,
{}
pub open spec fn spec_src(v: u8) -> Option<SubackReturnCode> {
    if v == 0 { Some(SubackReturnCode::SuccessQosZero) } else if v == 1 { Some(SubackReturnCode::SuccessQosOne) }
    else if v == 2 { Some(SubackReturnCode::SuccessQosTwo) } else if v == 0x80 { Some(SubackReturnCode::Failure) } else { None }
}
//@implfn packets::enums::<SubackReturnCode as TryFrom<&u8>>::try_from (value) -> r
impl<'a> VTryFrom<&'a u8> for SubackReturnCode {
    open spec fn spec_try(v: &'a u8) -> Option<Self> { spec_src(*v) }
//@body
//@end
//@implfn packets::enums::<SubackReturnCode as TryFrom<u8>>::try_from (value) -> r
impl VTryFrom<u8> for SubackReturnCode {
    open spec fn spec_try(v: u8) -> Option<Self> { spec_src(v) }
//@body
//@end
//@implfn packets::enums::<u8 as From<SubackReturnCode>>::from (value) -> r
impl VFrom<SubackReturnCode> for u8 {
    open spec fn spec_from(v: SubackReturnCode) -> u8 { v as u8 }
//@body
//@end
//@implfn core::enums::<u8 as From<ProtocalVersion>>::from (value) -> r
impl VFrom<ProtocalVersion> for u8 {
    open spec fn spec_from(v: ProtocalVersion) -> u8 { match v { ProtocalVersion::Four => 4, ProtocalVersion::Five => 5, ProtocalVersion::Unknown => 0 } }
//@body
//@end
//@implfn core::enums::<ProtocalVersion as From<u8>>::from (value) -> r
impl VFrom<u8> for ProtocalVersion {
    open spec fn spec_from(v: u8) -> ProtocalVersion { if v == 4 { ProtocalVersion::Four } else if v == 5 { ProtocalVersion::Five } else { ProtocalVersion::Unknown } }
//@body
//@end
//@implfn packets::headers::connack::<u8 as From<AcknowledgeFlags>>::from (value) -> r
impl VFrom<AcknowledgeFlags> for u8 {
    open spec fn spec_from(v: AcknowledgeFlags) -> u8 { v.0 }
//@body
//@end
//@implfn packets::headers::connack::<AcknowledgeFlags as From<u8>>::from (value) -> r
impl VFrom<u8> for AcknowledgeFlags {
    open spec fn spec_from(v: u8) -> AcknowledgeFlags { AcknowledgeFlags(v) }
//@body
//@end
//@implfn packets::headers::connect::<u8 as From<Flags>>::from (value) -> r
impl VFrom<Flags> for u8 {
    open spec fn spec_from(v: Flags) -> u8 { v.0 }
//@body
//@end
//@implfn packets::headers::connect::<Flags as From<u8>>::from (value) -> r
impl VFrom<u8> for Flags {
    open spec fn spec_from(v: u8) -> Flags { Flags(v) }
//@body
//@end
//@implfn packets::headers::connect::<Flags as From<&u8>>::from (value) -> r
impl<'a> VFrom<&'a u8> for Flags {
    open spec fn spec_from(v: &'a u8) -> Flags { Flags(*v) }
//@body
//@end
//@implfn packets::headers::fixed_header::<FixedHeader as From<u8>>::from (value) -> r
impl VFrom<u8> for FixedHeader {
    open spec fn spec_from(v: u8) -> FixedHeader { FixedHeader { flags: v, remaining_len: 0, remaining_length_bytes: 0 } }
//@body
//@end
//@fn packets::headers::connack::AcknowledgeFlags::new (session_present) -> r
    ensures r.0 == (if session_present { 1u8 } else { 0u8 }),
//@end

// ================= connect flags =================
//@fn packets::headers::connect::Flags::new (clean_session, will, will_qos, will_retain, password, username) -> r
    ensures c_clean(r.0) == clean_session, c_will(r.0) == will, c_qos(r.0) == will_qos as u8, c_retain(r.0) == will_retain,
        c_password(r.0) == password, c_username(r.0) == username, !c_reserved(r.0),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::validate_flags () -> r
    ensures r == c_reserved(self.0),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::clean_session () -> r
    ensures r == c_clean(self.0),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::will () -> r
    ensures r == c_will(self.0),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::will_qos () -> r
    ensures match r { Ok(q) => q as u8 == c_qos(self.0), Err(e) => c_qos(self.0) > 2 && e is Convertion },
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::will_retain () -> r
    ensures r == c_retain(self.0),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::has_password () -> r
    ensures r == c_password(self.0),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::connect::Flags::has_username () -> r
    ensures r == c_username(self.0),
//@start
    proof { lemma_bits(); }
//@end

// ================= fixed header =================
//@fn packets::headers::fixed_header::FixedHeader::new (packet_type, dup, qos, retain, len) -> r
    ensures r.flags == (packet_type as u8) * 16 + (if dup { 8int } else { 0 }) + (qos as u8) * 2 + (if retain { 1int } else { 0 }),
        r.remaining_len == len, r.remaining_length_bytes == 0,
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::fixed_header::FixedHeader::as_byte (buf)
    ensures final(buf)@ == old(buf)@.push(self.flags),
//@end
//@fn packets::headers::fixed_header::FixedHeader::get_packet_type () -> r
    ensures match r { Ok(t) => 1 <= ty_of(self.flags) <= 14 && t as u8 == ty_of(self.flags), Err(e) => !(1 <= ty_of(self.flags) <= 14) && e is Convertion },
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::fixed_header::FixedHeader::get_dup () -> r
    ensures r == ((self.flags / 8) % 2 == 1),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::fixed_header::FixedHeader::get_qos () -> r
    ensures match r { Ok(q) => q as u8 == qos_of(self.flags), Err(e) => qos_of(self.flags) > 2 && e is Convertion },
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::fixed_header::FixedHeader::get_retain () -> r
    ensures r == (self.flags % 2 == 1),
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::fixed_header::FixedHeader::has_valid_flags () -> r
    ensures match r { Ok(ok) => 1 <= ty_of(self.flags) <= 14 && ok == ok_first(self.flags), Err(e) => !(1 <= ty_of(self.flags) <= 14) && e is Convertion },
//@start
    proof { lemma_bits(); }
//@end
//@fn packets::headers::fixed_header::FixedHeader::get_remaing_len () -> r
    ensures r == self.remaining_len,
//@end
//@fn packets::headers::fixed_header::FixedHeader::get_rl_len () -> r
    ensures r == self.remaining_length_bytes,
//@end

// ================= primitive fields =================
//@fn packets::utils::format_unpack_u16_error (e) -> r
    ensures r is RequiredByteMissing,
//@end
//@fn packets::utils::unpack_u16 (iter) -> r
    ensures match r { Ok(x) => sp_u16(old(iter).rem()) == Some((x, final(iter).rem())), Err(e) => sp_u16(old(iter).rem()) is None && e is RequiredByteMissing },
//@start
    proof { reveal(sp_u16); }
//@end
//@fn packets::utils::unpack_packet_id (iter) -> r
    ensures match r { Ok(x) => sp_id(old(iter).rem()) == Some((x, final(iter).rem())), Err(e) => sp_id(old(iter).rem()) is None && (e is RequiredByteMissing || e is ProtocolViolation) },
//@start
    proof { reveal(sp_u16); }
//@end
//@fn packets::utils::unpack_bytes (iter, len) -> r
    ensures match r { Ok(x) => sp_bytes(old(iter).rem(), len as int) == Some((x@, final(iter).rem())), Err(e) => sp_bytes(old(iter).rem(), len as int) is None && e is MissingByte },
//@start
    proof { reveal(sp_bytes); }
//@end
//@fn packets::utils::unpack_string_with_len (iter, len) -> r
    ensures match r {
        Ok(x) => sp_bytes(old(iter).rem(), len as int) == Some((sb(x), final(iter).rem())) && ok_str(sb(x)),
        Err(e) => (match sp_bytes(old(iter).rem(), len as int) { None => true, Some((s, _)) => !ok_str(s) }) && plain_err(e) },
//@start
    proof { reveal(sp_bytes); }
    proof {
        assert(old(iter).rem().take(0) =~= Seq::<u8>::empty());
        assert(old(iter).rem().sk(0) =~= old(iter).rem());
        lemma_empty_str();
    }
//@end
proof fn lemma_empty_str()
    ensures valid_utf8(Seq::<u8>::empty()), encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(), !Seq::<u8>::empty().contains(0u8),
        forall|s: Seq<char>| s.len() == 0 ==> #[trigger] encode_utf8(s) == Seq::<u8>::empty(),
        forall|s: Seq<char>| #![trigger encode_utf8(s)] encode_utf8(s).len() == 0 ==> s.len() == 0,
{
    let e = Seq::<char>::empty();
    assert(encode_utf8(e) =~= Seq::<u8>::empty()) by { reveal_with_fuel(encode_utf8, 2); }
    encode_utf8_valid_utf8(e);
    assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] encode_utf8(s) == Seq::<u8>::empty() by { assert(s =~= e); }
    assert forall|s: Seq<char>| #![trigger encode_utf8(s)] encode_utf8(s).len() == 0 implies s.len() == 0 by {
        assert(encode_utf8(s) =~= encode_utf8(e));
        lemma_sb_inj(s, e);
    }
}
//@fn packets::utils::unpack_string (iter) -> r
    ensures match r { Ok(x) => sp_str(old(iter).rem()) == Some((sb(x), final(iter).rem())), Err(e) => sp_str(old(iter).rem()) is None && plain_err(e) },
//@start
    proof { reveal(sp_str); }
//@end
proof fn lemma_bits_len()
    ensures forall|x: u8| #[trigger] (x & 127u8) == x % 128u8, forall|x: u8| #[trigger] (x & 128u8) == (if x >= 128 { 128u8 } else { 0u8 }),
{
    assert(forall|x: u8| #[trigger] (x & 127u8) == x % 128u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 128u8) == (if x >= 128u8 { 128u8 } else { 0u8 })) by (bit_vector);
}
/// n length bytes of r have been read, all of them with the continuation bit; v is their value and m the next weight
#[verifier::opaque]
pub open spec fn dl_inv(r: Seq<u8>, n: int, m: int, v: int) -> bool {
    &&& 0 <= n <= 4 && n <= r.len() && (forall|i: int| 0 <= i < n ==> r[i] >= 128)
    &&& m == (if n == 0 { 1int } else if n == 1 { 128 } else if n == 2 { 16384 } else if n == 3 { 2097152 } else { 268435456 })
    &&& v == (if n > 0 { r[0] - 128 } else { 0 }) + (if n > 1 { 128 * (r[1] - 128) } else { 0 }) + (if n > 2 { 16384 * (r[2] - 128) } else { 0 }) + (if n > 3 { 2097152 * (r[3] - 128) } else { 0 })
}
proof fn lemma_dl_step(r: Seq<u8>, n: int, m: int, v: int)
    requires dl_inv(r, n, m, v),
    ensures 0 <= v < 268435456, 1 <= m <= 268435456, 0 <= n <= 4, n <= r.len(), n < 4 ==> m <= 2097152, n == 4 ==> m == 268435456 && dec_len(r) is TooLong,
        n == r.len() && n < 4 ==> dec_len(r) is Incomplete,
        n == r.len() ==> !(dec_len(r) is Value),
        n < r.len() ==> r.sk(n).len() > 0 && r.sk(n)[0] == r[n] && r.sk(n).sk(1) == r.sk(n + 1),
        n < r.len() ==> 0 <= (r[n] % 128) * m <= 127 * m && (r[n] % 128) * m == m * (r[n] % 128),
        n < r.len() && n < 4 ==> v + (r[n] % 128) * m < 268435456,
        n < r.len() && n < 4 && r[n] >= 128 ==> dl_inv(r, n + 1, m * 128, v + (r[n] % 128) * m),
        n < r.len() && n < 4 && r[n] < 128 ==> dec_len(r) == VarInt::Value(v + (r[n] % 128) * m, n + 1),
{
    reveal(dl_inv);
    if n < r.len() {
        assert(r.sk(n).sk(1) =~= r.sk(n + 1));
        let x = (r[n] % 128) as int;
        if n == 0 { assert(x * m == x) by (nonlinear_arith) requires m == 1; }
        else if n == 1 { assert(x * m == x * 128) by (nonlinear_arith) requires m == 128; }
        else if n == 2 { assert(x * m == x * 16384) by (nonlinear_arith) requires m == 16384; }
        else if n == 3 { assert(x * m == x * 2097152) by (nonlinear_arith) requires m == 2097152; }
        else { assert(x * m == x * 268435456) by (nonlinear_arith) requires m == 268435456; }
    }
}
//@fn packets::utils::decode_length (iter) -> r
    ensures match r {
        Ok((v, n)) => dec_len(old(iter).rem()) == VarInt::Value(v as int, n as int) && final(iter).rem() == old(iter).rem().sk(n as int) && n <= old(iter).rem().len() && 1 <= n <= 4 && v <= MAX_REMLEN,
        Err(e) => !(dec_len(old(iter).rem()) is Value) && (if e is RequiredByteMissing { dec_len(old(iter).rem()) is Incomplete || old(iter).rem().len() == 4 } else { dec_len(old(iter).rem()) is TooLong }) && plain_err(e) },
//@locals multiplier value bytes byte
//@start
    proof { assert(old(iter).rem().sk(0) =~= old(iter).rem()); reveal(dl_inv); }
//@loop 0
    invariant_except_break
        dl_inv(old(iter).rem(), bytes as int, multiplier as int, value as int), 0 <= bytes <= 4,
        iter.rem() == old(iter).rem().sk(bytes as int),
    ensures
        1 <= bytes <= 4, bytes <= old(iter).rem().len(), iter.rem() == old(iter).rem().sk(bytes as int),
        dec_len(old(iter).rem()) == VarInt::Value(value as int, bytes as int), value < 268435456,
    decreases 5 - bytes,
//@loopstart 0
    proof { lemma_bits_len(); lemma_dl_step(old(iter).rem(), bytes as int, multiplier as int, value as int); }
//@end
//@fn packets::utils::encode_length (len, bytes)
    requires len <= MAX_REMLEN,
    ensures final(bytes)@ == old(bytes)@ + enc_len(len as nat),
//@locals mlen written d
//@start
    proof { lemma_bits(); }
//@loop 0
    invariant_except_break
        0 <= written <= 3, len <= MAX_REMLEN,
        written == 0 ==> mlen <= MAX_REMLEN, written == 1 ==> mlen < 2097152, written == 2 ==> mlen < 16384, written == 3 ==> mlen < 128,
        old(bytes)@ + enc_len(len as nat) == bytes@ + enc_len(mlen as nat),
    ensures bytes@ == old(bytes)@ + enc_len(len as nat),
    decreases mlen,
//@loopstart 0
    proof {
        lemma_bits();
        reveal_with_fuel(enc_len, 2);
        let ghost b0 = bytes@;
        let ghost m = mlen as nat;
        assert(m >= 128 ==> b0.push((m % 128 + 128) as u8) + enc_len(m / 128) =~= b0 + enc_len(m));
        assert(m < 128 ==> b0.push(m as u8) =~= b0 + enc_len(m));
    }
//@end
//@fn packets::headers::fixed_header::FixedHeader::from_bytes (iter, _x) -> r
    ensures match r {
        Ok(h) => old(iter).rem().len() > 0 && h.flags == old(iter).rem()[0] && dec_len(old(iter).rem().sk(1)) == VarInt::Value(h.remaining_len as int, h.remaining_length_bytes as int)
            && 1 <= h.remaining_length_bytes <= 4 && h.remaining_len <= MAX_REMLEN && h.remaining_length_bytes + 1 <= old(iter).rem().len(),
        Err(e) => (old(iter).rem().len() == 0 || !(dec_len(old(iter).rem().sk(1)) is Value))
            && (e is RequiredByteMissing ==> old(iter).rem().len() == 0 || dec_len(old(iter).rem().sk(1)) is Incomplete || old(iter).rem().len() == 5)
            && (!(e is RequiredByteMissing) ==> old(iter).rem().len() > 0 && dec_len(old(iter).rem().sk(1)) is TooLong) && plain_err(e) },
//@end

// ================= whole packets =================
#[verifier::external_body]
pub struct Props {}
//@fn packets::utils::unpack_properties (iter) -> r
    requires false,     // MQTT 5 only: the verifier proves that no packet this broker accepts gets here
//@external
//@end
pub open spec fn plain_type(f: u8) -> bool { ty_of(f) != 1 && ty_of(f) != 3 && ty_of(f) != 8 && ty_of(f) != 9 && ty_of(f) != 10 }
/// proof split of the CONNECT packets: by the fields that follow
pub open spec fn conn_case(b: Seq<u8>) -> int {
    match sp_str(b) { None => 0, Some((name, b1)) =>
        if !is_mqtt(name) || b1.len() < 4 || b1[0] != 4 || !ok_connect_flags(b1[1]) { 0 } else {
            1 + (if c_will(b1[1]) { 3int } else { 0 }) + (if !c_username(b1[1]) { 0int } else if !c_password(b1[1]) { 1 } else { 2 })
        }
    }
}
/// what a decoded body must be
pub open spec fn body_result(r: Result<VariableHeader, MqttError>, flags: u8, b: Seq<u8>, rest: Seq<u8>) -> bool {
    match r {
        Ok(v) => sp_body(flags, b) is Some && represents(v, flags, (sp_body(flags, b)->0).0) && (sp_body(flags, b)->0).1 == rest,
        Err(e) => sp_body(flags, b) is None }
}
//@fn packets::VariableHeader::unpack (iter, fixed, _protocol) -> r
//@attr #[verifier::rlimit(60)]
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::loop_isolation(false)]
//@case connect0 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 0
//@case connect1 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 1
//@case connect2 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 2
//@case connect3 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 3
//@case connect4 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 4
//@case connect5 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 5
//@case connect6 ty_of(fixed.flags) == 1 && conn_case(old(iter).rem()) == 6
//@case publish ty_of(fixed.flags) == 3
//@case subscribe ty_of(fixed.flags) == 8
//@case suback ty_of(fixed.flags) == 9
//@case unsubscribe ty_of(fixed.flags) == 10
//@case other plain_type(fixed.flags)
    requires old(iter).rem().len() == fixed.remaining_len, fixed.remaining_len <= MAX_REMLEN,
    ensures
        body_result(r, fixed.flags, old(iter).rem(), final(iter).rem()),
        r is Err ==> (r->Err_0 is UnacceptableProtocolLevel <==> ok_first(fixed.flags) && ty_of(fixed.flags) == 1 && bad_level(old(iter).rem())),
        r is Err ==> (r->Err_0 is ClientIdentifierRejected <==> ok_first(fixed.flags) && ty_of(fixed.flags) == 1 && bad_client_id(old(iter).rem())),
//@start
    let ghost b0 = old(iter).rem();
    proof { lemma_lens(); if ty_of(fixed.flags) != 1 { lemma_misc(); } }
//@loop 0
    invariant
        len == iter.rem().len(), b0 == old(iter).rem(), ok_first(fixed.flags), ty_of(fixed.flags) == 8,
        sp_id(b0) is Some, (sp_id(b0)->0).0 == packet_id,
        match sp_filters(iter.rem()) { None => sp_filters((sp_id(b0)->0).1) is None, Some(s) => sp_filters((sp_id(b0)->0).1) == Some(filters_view(tuples@) + s) },
        (sp_id(b0)->0).1.len() > 0 || tuples@.len() == 0, (sp_id(b0)->0).1.len() == 0 || iter.rem().len() > 0 || tuples@.len() > 0,
    decreases len,
//@loopstart 0
    proof { lemma_lens(); lemma_filters_step(iter.rem()); lemma_misc(); }
//@loop 1
    invariant
        len == iter.rem().len(), b0 == old(iter).rem(), ok_first(fixed.flags), ty_of(fixed.flags) == 9,
        sp_u16(b0) is Some, (sp_u16(b0)->0).0 == packet_id,
        (sp_u16(b0)->0).1 =~= codes_view(return_codes@) + iter.rem(),
        forall|i: int| 0 <= i < return_codes@.len() ==> ok_suback_code(#[trigger] codes_view(return_codes@)[i]),
    decreases len,
//@loopstart 1
    proof { lemma_misc(); assert((sp_u16(b0)->0).1[codes_view(return_codes@).len() as int] == iter.rem()[0]); }
//@loop 2
    invariant
        len == iter.rem().len(), b0 == old(iter).rem(), ok_first(fixed.flags), ty_of(fixed.flags) == 10,
        sp_id(b0) is Some, (sp_id(b0)->0).0 == packet_id,
        match sp_topics(iter.rem()) { None => sp_topics((sp_id(b0)->0).1) is None, Some(s) => sp_topics((sp_id(b0)->0).1) == Some(topics_view(tuples@) + s) },
        (sp_id(b0)->0).1.len() > 0 || tuples@.len() == 0, (sp_id(b0)->0).1.len() == 0 || iter.rem().len() > 0 || tuples@.len() > 0,
    decreases len,
//@loopstart 2
    proof { lemma_lens(); lemma_topics_step(iter.rem()); lemma_misc(); }
//@end
proof fn lemma_lens()
    ensures
        forall|b: Seq<u8>| #![trigger sp_u16(b)] sp_u16(b) is Some ==> (sp_u16(b)->0).1.len() + 2 == b.len(),
        forall|b: Seq<u8>| #![trigger sp_str(b)] sp_str(b) is Some ==> (sp_str(b)->0).1.len() + 2 + (sp_str(b)->0).0.len() == b.len(),
        forall|b: Seq<u8>, n: int| #![trigger sp_bytes(b, n)] 0 <= n && sp_bytes(b, n) is Some ==> (sp_bytes(b, n)->0).1.len() + n == b.len() && (sp_bytes(b, n)->0).0.len() == n,
        forall|b: Seq<u8>, n: int| #![trigger sp_bytes(b, n)] n == b.len() ==> sp_bytes(b, n) == Some((b, Seq::<u8>::empty())),
        forall|b: Seq<u8>, n: int| #![trigger sp_bytes(b, n)] n <= b.len() ==> sp_bytes(b, n) is Some,
{
    reveal(sp_u16); reveal(sp_str); reveal(sp_bytes);
    assert forall|b: Seq<u8>, n: int| #![trigger sp_bytes(b, n)] n == b.len() implies sp_bytes(b, n) == Some((b, Seq::<u8>::empty())) by {
        assert(b.take(n) =~= b); assert(b.sk(n) =~= Seq::<u8>::empty());
    }
}
proof fn lemma_filters_step(b: Seq<u8>)
    ensures
        b.len() == 0 ==> sp_filters(b) == Some(Seq::<(Seq<u8>, u8)>::empty()),
        b.len() > 0 && sp_str(b) is None ==> sp_filters(b) is None,
{}
proof fn lemma_topics_step(b: Seq<u8>)
    ensures
        b.len() == 0 ==> sp_topics(b) == Some(Seq::<Seq<u8>>::empty()),
        b.len() > 0 && sp_str(b) is None ==> sp_topics(b) is None,
{}
proof fn lemma_misc()
    ensures
        forall|t: Seq<(String, QosLevel)>, x: (String, QosLevel)| #![trigger filters_view(t.push(x))] filters_view(t.push(x)) == filters_view(t).push((sb(x.0), x.1 as u8)),
        forall|t: Seq<String>, x: String| #![trigger topics_view(t.push(x))] topics_view(t.push(x)) == topics_view(t).push(sb(x)),
        forall|t: Seq<SubackReturnCode>, x: SubackReturnCode| #![trigger codes_view(t.push(x))] codes_view(t.push(x)) == codes_view(t).push(x as u8),
        filters_view(Seq::empty()) == Seq::<(Seq<u8>, u8)>::empty(), topics_view(Seq::empty()) == Seq::<Seq<u8>>::empty(), codes_view(Seq::empty()) == Seq::<u8>::empty(),
        forall|a: Seq<(Seq<u8>, u8)>, e: Seq<(Seq<u8>, u8)>| #![trigger a + e] e.len() == 0 ==> a + e == a,
        forall|a: Seq<Seq<u8>>, e: Seq<Seq<u8>>| #![trigger a + e] e.len() == 0 ==> a + e == a,
        forall|a: Seq<u8>, e: Seq<u8>| #![trigger a + e] (e.len() == 0 ==> a + e == a) && (a.len() == 0 ==> a + e == e),
        forall|s: Seq<u8>, n: int| #![trigger s.take(n)] n == s.len() ==> s.take(n) == s,
        forall|s: Seq<u8>, n: int| #![trigger s.sk(n)] n == s.len() ==> s.sk(n) == Seq::<u8>::empty(),
        forall|a: Seq<(Seq<u8>, u8)>, x: (Seq<u8>, u8), c: Seq<(Seq<u8>, u8)>| #![trigger a + (seq![x] + c)] a + (seq![x] + c) == a.push(x) + c,
        forall|a: Seq<Seq<u8>>, x: Seq<u8>, c: Seq<Seq<u8>>| #![trigger a + (seq![x] + c)] a + (seq![x] + c) == a.push(x) + c,
{
    assert forall|t: Seq<(String, QosLevel)>, x: (String, QosLevel)| #![trigger filters_view(t.push(x))] filters_view(t.push(x)) == filters_view(t).push((sb(x.0), x.1 as u8)) by {
        assert(filters_view(t.push(x)) =~= filters_view(t).push((sb(x.0), x.1 as u8)));
    }
    assert forall|t: Seq<String>, x: String| #![trigger topics_view(t.push(x))] topics_view(t.push(x)) == topics_view(t).push(sb(x)) by { assert(topics_view(t.push(x)) =~= topics_view(t).push(sb(x))); }
    assert forall|t: Seq<SubackReturnCode>, x: SubackReturnCode| #![trigger codes_view(t.push(x))] codes_view(t.push(x)) == codes_view(t).push(x as u8) by { assert(codes_view(t.push(x)) =~= codes_view(t).push(x as u8)); }
    assert forall|a: Seq<(Seq<u8>, u8)>, e: Seq<(Seq<u8>, u8)>| #![trigger a + e] e.len() == 0 implies a + e == a by { assert(a + e =~= a); }
    assert forall|a: Seq<Seq<u8>>, e: Seq<Seq<u8>>| #![trigger a + e] e.len() == 0 implies a + e == a by { assert(a + e =~= a); }
    assert forall|a: Seq<u8>, e: Seq<u8>| #![trigger a + e] (e.len() == 0 ==> a + e == a) && (a.len() == 0 ==> a + e == e) by {
        if e.len() == 0 { assert(a + e =~= a); } if a.len() == 0 { assert(a + e =~= e); } }
    assert forall|s: Seq<u8>, n: int| #![trigger s.take(n)] n == s.len() implies s.take(n) == s by { assert(s.take(n) =~= s); }
    assert forall|s: Seq<u8>, n: int| #![trigger s.sk(n)] n == s.len() implies s.sk(n) == Seq::<u8>::empty() by { assert(s.sk(n) =~= Seq::<u8>::empty()); }
    assert(filters_view(Seq::empty()) =~= Seq::<(Seq<u8>, u8)>::empty());
    assert(topics_view(Seq::empty()) =~= Seq::<Seq<u8>>::empty());
    assert(codes_view(Seq::empty()) =~= Seq::<u8>::empty());
    assert forall|a: Seq<(Seq<u8>, u8)>, x: (Seq<u8>, u8), c: Seq<(Seq<u8>, u8)>| #![trigger a + (seq![x] + c)] a + (seq![x] + c) == a.push(x) + c by { assert(a + (seq![x] + c) =~= a.push(x) + c); }
    assert forall|a: Seq<Seq<u8>>, x: Seq<u8>, c: Seq<Seq<u8>>| #![trigger a + (seq![x] + c)] a + (seq![x] + c) == a.push(x) + c by { assert(a + (seq![x] + c) =~= a.push(x) + c); }
}
proof fn lemma_pack_views()
    ensures
        forall|t: Seq<(String, QosLevel)>| #![trigger filters_view(t)] filters_view(t).len() == t.len(),
        forall|t: Seq<(String, QosLevel)>| #![trigger filters_view(t)] t.len() > 0 ==> filters_view(t)[0] == (sb(t[0].0), t[0].1 as u8) && filters_view(t.sk(1)) == filters_view(t).sk(1),
        forall|t: Seq<String>| #![trigger topics_view(t)] topics_view(t).len() == t.len(),
        forall|t: Seq<String>| #![trigger topics_view(t)] t.len() > 0 ==> topics_view(t)[0] == sb(t[0]) && topics_view(t.sk(1)) == topics_view(t).sk(1),
        forall|t: Seq<SubackReturnCode>| #![trigger codes_view(t)] codes_view(t).len() == t.len(),
        forall|t: Seq<SubackReturnCode>| #![trigger codes_view(t)] t.len() > 0 ==> codes_view(t)[0] == t[0] as u8 && codes_view(t.sk(1)) == codes_view(t).sk(1),
{
    assert forall|t: Seq<(String, QosLevel)>| #![trigger filters_view(t)] t.len() > 0 implies filters_view(t)[0] == (sb(t[0].0), t[0].1 as u8) && filters_view(t.sk(1)) == filters_view(t).sk(1) by {
        assert(filters_view(t.sk(1)) =~= filters_view(t).sk(1)); }
    assert forall|t: Seq<String>| #![trigger topics_view(t)] t.len() > 0 implies topics_view(t)[0] == sb(t[0]) && topics_view(t.sk(1)) == topics_view(t).sk(1) by {
        assert(topics_view(t.sk(1)) =~= topics_view(t).sk(1)); }
    assert forall|t: Seq<SubackReturnCode>| #![trigger codes_view(t)] t.len() > 0 implies codes_view(t)[0] == t[0] as u8 && codes_view(t.sk(1)) == codes_view(t).sk(1) by {
        assert(codes_view(t.sk(1)) =~= codes_view(t).sk(1)); }
}
//@fn packets::VariableHeader::pack () -> r
//@attr #[verifier::rlimit(60)]
//@attr #[verifier::spinoff_prover]
    requires packable(self),
    ensures r@ == en_body(vh_view(self, 0)),
//@start
    let ghost me = self;
    proof { lemma_pack_views(); }
//@loop 0
    invariant
        me is Subscribe, packable(me), forall|i: int| 0 <= i < $it0.rem().len() ==> sb((#[trigger] $it0.rem()[i]).0).len() <= 65535,
        ap_filters(bytes@, filters_view($it0.rem())) == en_body(vh_view(me, 0)),
    ensures $it0.rem().len() == 0, ap_filters(bytes@, filters_view($it0.rem())) == en_body(vh_view(me, 0)),
    decreases $it0.rem().len(),
//@loopstart 0
    proof { lemma_pack_views(); }
//@loopstart 1
    proof { lemma_pack_views(); }
//@loopstart 2
    proof { lemma_pack_views(); }
//@loop 1
    invariant
        me is Unsubscribe, packable(me), forall|i: int| 0 <= i < $it1.rem().len() ==> sb(#[trigger] $it1.rem()[i]).len() <= 65535,
        ap_topics(bytes@, topics_view($it1.rem())) == en_body(vh_view(me, 0)),
    ensures $it1.rem().len() == 0, ap_topics(bytes@, topics_view($it1.rem())) == en_body(vh_view(me, 0)),
    decreases $it1.rem().len(),
//@loop 2
    invariant
        me is SubAck,
        ap_bytes(bytes@, codes_view($it2.rem())) == en_body(vh_view(me, 0)),
    ensures $it2.rem().len() == 0, ap_bytes(bytes@, codes_view($it2.rem())) == en_body(vh_view(me, 0)),
    decreases $it2.rem().len(),
//@end
//@fn packets::Packet::new (header, variable) -> r
    ensures r.fixed == header, r.variable == variable,
//@end
//@fn packets::Packet::pack () -> r
    requires packable(self.variable), en_body(vh_view(self.variable, 0)).len() <= MAX_REMLEN,
    ensures r@ == frame_of(self.fixed.flags, en_body(vh_view(self.variable, 0))),
//@start
    proof { assert(Seq::<u8>::empty().push(self.fixed.flags) =~= seq![self.fixed.flags]); }
//@end
//@fn packets::Packet::make_publish (dup, qos, retain, topic, packet_id, payload) -> r
    requires
        sb(topic).len() <= 65535,
        // an identifier exactly on QoS 1 and 2 [MQTT-2.3.1-5]
        packet_id is Some <==> !(qos is AtMost),
        4 + sb(topic).len() + payload@.len() <= MAX_REMLEN || (packet_id is None && 2 + sb(topic).len() + payload@.len() <= MAX_REMLEN),
    ensures r@ == encode(SPacket::Publish { flags: pub_flags(dup, qos, retain), topic: sb(topic), id: packet_id, payload: payload@ }),
//@end
//@fn packets::Packet::make_connack (rc, session_present) -> r
    ensures r@ == encode(SPacket::Connack { flags: b1(session_present, 1), code: rc as u8 }),
//@end
//@fn packets::Packet::make_suback (packet_id, rc) -> r
    requires 2 + rc@.len() <= MAX_REMLEN,
    ensures r@ == encode(SPacket::Suback { id: packet_id, codes: codes_view(rc@) }),
//@start
    proof { lemma_ap_bytes(nil() + be16(packet_id), codes_view(rc@)); }
//@end
//@fn packets::Packet::make_unsuback (packet_id) -> r
    ensures r@ == encode(SPacket::Ack { kind: 11, id: packet_id }),
//@end
//@fn packets::Packet::make_puback (packet_id) -> r
    ensures r@ == encode(SPacket::Ack { kind: 4, id: packet_id }),
//@end
//@fn packets::Packet::make_pubrec (packet_id) -> r
    ensures r@ == encode(SPacket::Ack { kind: 5, id: packet_id }),
//@end
//@fn packets::Packet::make_pubrel (packet_id) -> r
    ensures r@ == encode(SPacket::Ack { kind: 6, id: packet_id }),
//@end
//@fn packets::Packet::make_pubcomp (packet_id) -> r
    ensures r@ == encode(SPacket::Ack { kind: 7, id: packet_id }),
//@end
//@fn packets::Packet::make_ping_resp () -> r
    ensures r@ == encode(SPacket::Bare { kind: 13 }),
//@end
//@fn packets::Packet::unpack (bytes, protocal) -> r
    ensures
        match r {
            Ok((p, n)) => decode(bytes@) is Some && (decode(bytes@)->0).1 == n && n <= bytes@.len() && p.fixed.flags == bytes@[0]
                && represents(p.variable, bytes@[0], (decode(bytes@)->0).0),
            Err(e) => decode(bytes@) is None },
        r is Err ==> (r->Err_0 is UnacceptableProtocolLevel <==> refused_level(bytes@)),
        r is Err ==> (r->Err_0 is ClientIdentifierRejected <==> refused_client_id(bytes@)),
//@start
    broadcast use lemma_part_of_part;
//@end
//@fn packets::Packet::complete_len (bytes) -> r
    ensures match r {
        Ok(Some(n)) => frame(bytes@) == Some(n as int) && n <= bytes@.len(),
        Ok(None) => (frame(bytes@) is Some ==> frame(bytes@)->0 > bytes@.len()) && !(bytes@.len() >= 6 && dec_len(bytes@.sk(1)) is TooLong),
        Err(e) => bytes@.len() >= 5 && dec_len(bytes@.sk(1)) is TooLong && plain_err(e) },
//@end
proof fn lemma_ap_bytes(p: Seq<u8>, f: Seq<u8>)
    ensures ap_bytes(p, f) == p + f,
    decreases f.len(),
{
    if f.len() == 0 { assert(p + f =~= p); } else {
        lemma_ap_bytes(p.push(f[0]), f.sk(1));
        assert(p.push(f[0]) + f.sk(1) =~= p + f);
    }
}
//@include lemma_roundtrip.rs
