// Shim: std::collections::HashMap with string keys, and the source of session identities.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { v: Vec<(K, V)> }
impl<K: VStr, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VStr + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.str_bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VStr + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.str_bytes()) && *v == self@[k.str_bytes()], None => !self@.dom().contains(k.str_bytes()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: VStr + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.str_bytes()) && *v == old(self)@[k.str_bytes()] && final(self)@ == old(self)@.insert(k.str_bytes(), *final(v)),
            None => !old(self)@.dom().contains(k.str_bytes()) && *final(self) == *old(self) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures r == (if old(self)@.dom().contains(k.str_bytes()) { Some(old(self)@[k.str_bytes()]) } else { None::<V> }), final(self)@ == old(self)@.insert(k.str_bytes(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VStr + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures r == (if old(self)@.dom().contains(k.str_bytes()) { Some(old(self)@[k.str_bytes()]) } else { None::<V> }), final(self)@ == old(self)@.remove(k.str_bytes()) { unimplemented!() }
    /// the values, to be searched
    pub fn values_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
    /// any one value the predicate accepts
    #[verifier::external_body]
    pub fn v_find<F: Fn(&V) -> bool>(&mut self, f: F) -> (r: Option<&mut V>)
        requires forall|k: Seq<u8>| #[trigger] old(self)@.dom().contains(k) ==> call_requires(f, (&old(self)@[k],)),
        ensures match r {
            Some(v) => exists|k: Seq<u8>| #[trigger] old(self)@.dom().contains(k) && *v == old(self)@[k] && call_ensures(f, (&old(self)@[k],), true)
                && final(self)@ == old(self)@.insert(k, *final(v)),
            None => (forall|k: Seq<u8>| #[trigger] old(self)@.dom().contains(k) ==> call_ensures(f, (&old(self)@[k],), false)) && *final(self) == *old(self) },
    { unimplemented!() }
}
