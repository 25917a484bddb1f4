// derived comparisons compare discriminants (assumed of #[derive])
pub open spec fn cmp8(a: u8, b: u8) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialEqSpecImpl for QosLevel {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &QosLevel) -> bool { *self == *other }
}
impl PartialOrdSpecImpl for QosLevel {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &QosLevel) -> Option<Ordering> { Some(cmp8(*self as u8, *other as u8)) }
}
impl OrdSpecImpl for QosLevel {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &QosLevel) -> Ordering { cmp8(*self as u8, *other as u8) }
}
impl VMin for QosLevel {
    open spec fn le(self, o: Self) -> bool { self as u8 <= o as u8 }
    fn v_min(self, o: Self) -> Self { if (self as u8) <= o as u8 { self } else { o } }
    fn v_max(self, o: Self) -> Self { if (self as u8) <= o as u8 { o } else { self } }
}
