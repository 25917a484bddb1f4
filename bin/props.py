"""Which obligations each property consists of: unit -> [regular expression over contract keys].
A key is the extracted function (with #case for the cases of one function), or "proof <lemma>"."""
DEC = [r"packets::VariableHeader::unpack", r"packets::Packet::unpack", r"packets::utils::(unpack_|decode_length|format_)", r"fixed_header::FixedHeader::(from_bytes|get_|has_valid|.*From)",
       r"TryFrom", r"fixed_header::<FixedHeader as From", r"packets::Packet::complete_len"]
STR = [r"packets::utils::(unpack_u16|unpack_packet_id|unpack_string|unpack_string_with_len)$"]
CONNFLAGS = [r"headers::connect::"]
MAKE = [r"packets::Packet::(make_|pack$|new$)", r"packets::VariableHeader::pack$", r"fixed_header::FixedHeader::(new|as_byte)$", r"connack::", r"packets::utils::encode_length", r"<u8 as From<"]

LEN = [r"packets::utils::decode_length", r"FixedHeader::(from_bytes|get_remaing_len|get_rl_len)$"]
BODY = [r"VariableHeader::unpack(#(publish|subscribe|unsubscribe|other))?$", r"packets::Packet::unpack$", r"<QosLevel as TryFrom", r"packets::utils::unpack_bytes"] + STR + LEN

PROPS = {
    "C01": {"u1": [r"packets::utils::(en|de)code_length", r"FixedHeader::(from_bytes|get_remaing_len|get_rl_len)$", r"packets::Packet::(complete_len|pack)$", r"proof lemma_len"]},
    "C02": {"u1": DEC + CONNFLAGS},
    "C03": {"u1": [r"packets::Packet::(unpack|complete_len)$", r"FixedHeader::(from_bytes|get_remaing_len|get_rl_len)$", r"packets::utils::decode_length", r"proof theorem_prefix"]},
    "C04": {"u1": [r"VariableHeader::unpack(#publish)?$", r"packets::Packet::unpack$", r"FixedHeader::(get_dup|get_qos|get_retain|from_bytes)$", r"<QosLevel as TryFrom", r"packets::utils::unpack_bytes"] + STR + LEN},
    "C05": {"u1": [r"VariableHeader::unpack(#subscribe|#unsubscribe)?$", r"packets::Packet::unpack$", r"<QosLevel as TryFrom", r"proof lemma_(filters|topics)_step"] + STR + LEN},
    "C06": {"u1": [r"VariableHeader::unpack(#connect\d)?$", r"packets::Packet::unpack$", r"packets::utils::unpack_bytes"] + STR + CONNFLAGS + LEN},
    "C07": {"u1": DEC + CONNFLAGS, "u4": [r"handler::read_packet"]},
    "C08": {"u1": MAKE},
    "C09": {"u1": [r"proof theorem_roundtrip", r"packets::VariableHeader::pack$", r"packets::Packet::(pack|unpack)$", r"packets::VariableHeader::unpack", r"packets::utils::encode_length", r"packets::utils::unpack_bytes"] + STR + LEN},
    "C10": {"u2": [r"::add_subscriber$", r"::SubHier::get$", r"::SubscriptionTree::get$", r"utils::tokenise_topic", r"proof theorem_(hits|matching)"]},
    "C11": {"u2": [r"::SubHier::(insert|delete|new)$", r"::SubscriptionTree::(insert|delete|new)$", r"utils::tokenise_topic", r"utils::is_valid_filter"],
            "u3": [r"core::App::(subscribe|unsubscribe|new)$", r"main::async#0"]},
    "C12": {"u2": [r"::add_subscriber$", r"::SubHier::get$", r"::SubscriptionTree::get$", r"::SubscriptionLeaf::new"], "u3": [r"core::App::publish$", r"proof theorem_once"]},
    "C13": {"u2": [r"utils::(is_valid_filter|tokenise_topic)", r"::SubscriptionTree::insert$"], "u3": [r"core::App::subscribe$"], "u1": [r"make_suback$"]},
    "C14": {"u3": [r"core::App::publish$", r"core::session::Session::next_packet_id", r"main::async#0", r"proof theorem_(deliver_all|ids)"], "u1": [r"make_publish$"]},
    "C15": {"u3": [r"core::App::(connect|disconnect|new)$", r"core::session::Session::new", r"main::async#0", r"proof theorem_ids"], "u4": [r"handler::client_handler", r"main::async#1"], "u1": [r"make_connack$", r"connack::"]},
    "C16": {"u4": [r"handler::(client_handler|read_packet)", r"main::async#1"], "u1": [r"make_connack$", r"connack::", r"VariableHeader::unpack(#connect\d)?$", r"packets::Packet::unpack$"] + STR + CONNFLAGS + LEN},
    "C17": {"u4": [r"handler::client_handler"], "u1": [r"make_(suback|unsuback|puback|pubrec|pubrel|pubcomp|ping_resp)$"] + BODY},
    "C18": {"u4": [r"handler::client_handler", r"proof theorem_handed"], "u1": [r"FixedHeader::get_qos$"] + BODY},
    "C19": {"u4": [r"handler::client_handler"]},
    "C20": {"u4": [r"handler::(read_packet|client_handler)", r"proof theorem_stream"], "u1": [r"packets::Packet::(complete_len|unpack)$"] + LEN},
    "C21": {"u4": [r"handler::client_handler", r"main::async#1", r"proof theorem_queue"], "u1": MAKE},
    "C23": {"u3": [r"core::App::publish$", r"main::async#0", r"proof (theorem_(order|two_messages)|lemma_(made|appended)$)"],
            "u4": [r"handler::client_handler#(publish|rest)$", r"main::async#1", r"proof (theorem_(handed|queue)|lemma_(step|start|bad_stays)$)"]},
}
# kinds of obligation that count for a property (the others of these functions belong to other properties)
ONLY = {"C02": r"precondition|overflow|underflow|decreases|division|unreached|assertion|invariant|index"}
# (keys, text of the failed obligation) for functions whose obligations belong to several properties
TEXT = {}
# of the connection task: keep-alive obligations belong to C19 alone, what is read to C20, identity to C15
KA = r"Armed|Fired|timed\(|keepalive|arms__@\[\d\] ==|arithmetic"
READ = r"stream\(|abandoned|whole|read_ok|read_ev|NoMore|ReadErr|read_packet"
for _p in ("C16", "C17", "C18", "C21"):
    TEXT[_p] = [(r"handler::client_handler", r"\A(?![\s\S]*(%s|%s))" % (KA, READ.replace("|read_ev", "")))]
TEXT["C15"] = [(r"handler::client_handler", r"CEv::Cmd|cid|given|chan\(\)|over\(")]
TEXT["C19"] = [(r"handler::client_handler(?!#rest)", KA)]
TEXT["C20"] = [(r"handler::client_handler(?!#rest)", READ)]
# order alone
TEXT["C23"] = [(r"core::App::publish", r"appended"), (r"handler::client_handler", TEXT["C18"][0][1])]
UNITS = ["u1", "u2", "u3", "u4"]
