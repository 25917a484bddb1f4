// Shim: collections, channels' handles and slice iteration used by the topic tree and the broker core.

// ---- iteration over a borrowed vector or slice ----
#[verifier::reject_recursive_types(T)]
pub struct RefIter<'a, T> { pub data: &'a [T], pub pos: usize }
impl<'a, T> RefIter<'a, T> {
    pub open spec fn rem(&self) -> Seq<T> { if self.pos <= self.data@.len() { self.data@.sk(self.pos as int) } else { Seq::empty() } }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && *(r->0) == old(self).rem()[0] && final(self).rem() == old(self).rem().sk(1),
    {
        if self.pos < self.data.len() {
            let r = &self.data[self.pos];
            self.pos = self.pos + 1;
            assert(final(self).rem() =~= old(self).rem().sk(1));
            Some(r)
        } else { None }
    }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
    /// index of the first element the predicate accepts
    pub fn v_position<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
        ensures match r {
            Some(k) => k < self.rem().len() && call_ensures(f, (&self.rem()[k as int],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), false),
            None => forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (&#[trigger] self.rem()[i],), false) },
    {
        if self.pos > self.data.len() { return None; }
        let n = self.data.len() - self.pos;
        let mut k: usize = 0;
        while k < n
            invariant
                self.pos <= self.data@.len(), n == self.data@.len() - self.pos, k <= n, self.rem().len() == n,
                forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), false),
            decreases n - k,
        {
            let x = &self.data[self.pos + k];
            assert(*x == self.rem()[k as int]);
            if f(x) { return Some(k); }
            k = k + 1;
        }
        None
    }
    pub fn v_any<F: Fn(&T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
        ensures if r { exists|i: int| 0 <= i < self.rem().len() && call_ensures(f, (&#[trigger] self.rem()[i],), true) }
            else { forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (&#[trigger] self.rem()[i],), false) },
    {
        if self.pos > self.data.len() { return false; }
        let n = self.data.len() - self.pos;
        let mut k: usize = 0;
        while k < n
            invariant
                self.pos <= self.data@.len(), n == self.data@.len() - self.pos, k <= n, self.rem().len() == n,
                forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), false),
            decreases n - k,
        {
            let x = &self.data[self.pos + k];
            assert(*x == self.rem()[k as int]);
            if f(x) { return true; }
            k = k + 1;
        }
        false
    }
    pub fn v_all<F: Fn(&T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
        ensures if r { forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (&#[trigger] self.rem()[i],), true) }
            else { exists|i: int| 0 <= i < self.rem().len() && call_ensures(f, (&#[trigger] self.rem()[i],), false) },
    {
        if self.pos > self.data.len() { return true; }
        let n = self.data.len() - self.pos;
        let mut k: usize = 0;
        while k < n
            invariant
                self.pos <= self.data@.len(), n == self.data@.len() - self.pos, k <= n, self.rem().len() == n,
                forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), true),
            decreases n - k,
        {
            let x = &self.data[self.pos + k];
            assert(*x == self.rem()[k as int]);
            if !f(x) { return false; }
            k = k + 1;
        }
        true
    }
}
pub trait VRefIter<T> { spec fn elems(&self) -> Seq<T>; fn v_iter<'a>(&'a self) -> (r: RefIter<'a, T>) ensures r.rem() == self.elems(), r.pos == 0, r.data@ == self.elems(); }
impl<T> VRefIter<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: RefIter<'a, T>) { let r = RefIter { data: self.as_slice(), pos: 0 }; assert(r.rem() =~= self@); r }
}
// a slice of strings (a slice of bytes has its own iterator)
impl VRefIter<String> for [String] {
    open spec fn elems(&self) -> Seq<String> { self@ }
    fn v_iter<'a>(&'a self) -> (r: RefIter<'a, String>) { let r = RefIter { data: self, pos: 0 }; assert(r.rem() =~= self@); r }
}
impl<'x> VIntoIterRef<'x, String> for &'x [String] {
    open spec fn all_ref(self) -> Seq<String> { self@ }
    fn v_into_iter(self) -> (r: RefIter<'x, String>) { let r = RefIter { data: self, pos: 0 }; assert(r.rem() =~= self@); r }
}
/// `enumerate` (of an iterator that is at its start)
#[verifier::reject_recursive_types(T)]
pub struct EnumIter<'a, T> { pub it: RefIter<'a, T>, pub lo: usize }
impl<'a, T> EnumIter<'a, T> {
    pub open spec fn lo(&self) -> int { self.lo as int }
    pub open spec fn hi(&self) -> int { self.it.data@.len() as int }
    /// goes over the elements of s
    pub open spec fn over(&self, s: Seq<T>) -> bool { self.it.pos == self.lo && self.it.data@ == s }
    pub open spec fn rem(&self) -> Seq<T> { self.it.rem() }
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).it.pos == old(self).lo,
        ensures
            final(self).it.pos == final(self).lo, final(self).it.data == old(self).it.data,
            old(self).lo >= old(self).it.data@.len() ==> r is None && *final(self) == *old(self),
            old(self).lo < old(self).it.data@.len() ==> r is Some && (r->0).0 == old(self).lo && *((r->0).1) == old(self).it.data@[old(self).lo as int] && final(self).lo == old(self).lo + 1,
    {
        if self.it.pos < self.it.data.len() {
            let r = &self.it.data[self.it.pos];
            let k = self.lo;
            self.it.pos = self.it.pos + 1;
            self.lo = self.lo + 1;
            Some((k, r))
        } else { None }
    }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
}
impl<'a, T> RefIter<'a, T> {
    pub fn enumerate(self) -> (r: EnumIter<'a, T>) requires self.pos == 0, ensures r.it == self, r.lo == 0 { EnumIter { it: self, lo: 0 } }
}
impl<'x, T> VIntoIterRef<'x, T> for &'x Vec<T> {
    open spec fn all_ref(self) -> Seq<T> { self@ }
    fn v_into_iter(self) -> (r: RefIter<'x, T>) { let r = RefIter { data: self.as_slice(), pos: 0 }; assert(r.rem() =~= self@); r }
}
pub trait VIntoIterRef<'x, T>: Sized { spec fn all_ref(self) -> Seq<T>; fn v_into_iter(self) -> (r: RefIter<'x, T>) ensures r.rem() == self.all_ref(); }

// ---- slices of strings ----
pub trait VSplitFirst<T> { spec fn seq(&self) -> Seq<T>;
    fn v_split_first<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>)
        ensures match r { Some((x, t)) => self.seq().len() > 0 && *x == self.seq()[0] && t@ == self.seq().sk(1), None => self.seq().len() == 0 }; }
impl<T> VSplitFirst<T> for [T] {
    open spec fn seq(&self) -> Seq<T> { self@ }
    fn v_split_first<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) {
        if self.len() == 0 { return None; }
        let t = vstd::slice::slice_subrange(self, 1, self.len());
        assert(t@ =~= self@.sk(1));
        Some((&self[0], t))
    }
}
impl<T> VSplitFirst<T> for Vec<T> {
    open spec fn seq(&self) -> Seq<T> { self@ }
    fn v_split_first<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) {
        if self.len() == 0 { return None; }
        let t = vstd::slice::slice_subrange(self.as_slice(), 1, self.len());
        assert(t@ =~= self@.sk(1));
        Some((&self[0], t))
    }
}
pub trait VStartsWith { spec fn sw(&self, c: char) -> bool; fn v_starts_with(&self, c: char) -> (r: bool) ensures r == self.sw(c); }
/// (for ASCII characters)
impl VStartsWith for String {
    open spec fn sw(&self, c: char) -> bool { sb(*self).len() > 0 && sb(*self)[0] == c as u8 }
    #[verifier::external_body]
    fn v_starts_with(&self, c: char) -> bool { self.starts_with(c) }
}

// ---- splitting a string at an ASCII character ----
pub open spec fn split_at(b: Seq<u8>, c: u8) -> Seq<Seq<u8>>
    decreases b.len(),
{
    if b.len() == 0 { seq![Seq::<u8>::empty()] }
    else {
        let r = split_at(b.sk(1), c);
        if b[0] == c { seq![Seq::<u8>::empty()] + r } else { r.update(0, seq![b[0]] + r[0]) }
    }
}
#[verifier::external_body]
pub struct StrSplit {}
impl StrSplit {
    pub uninterp spec fn parts(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn collect<T>(self) -> (r: Vec<&'static str>) ensures strs(r@) == self.parts() { unimplemented!() }
}
pub open spec fn strs(v: Seq<&'static str>) -> Seq<Seq<u8>> { v.map_values(|x: &'static str| encode_utf8(x@)) }
pub open spec fn levels_of(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|x: String| sb(x)) }
pub trait VSplit { spec fn text(&self) -> Seq<u8>; fn v_split(&self, c: char) -> (r: StrSplit) ensures r.parts() == split_at(self.text(), c as u8); }
impl VSplit for String {
    open spec fn text(&self) -> Seq<u8> { sb(*self) }
    #[verifier::external_body]
    fn v_split(&self, c: char) -> StrSplit { unimplemented!() }
}
// ---- dashmap::DashMap with string keys; its guards are plain references ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { v: Vec<(K, V)> }
impl<K: VStr, V> DashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VStr + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.str_bytes()) && *v == self@[k.str_bytes()], None => !self@.dom().contains(k.str_bytes()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VStr + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.str_bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: VStr + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.str_bytes()) && *v == old(self)@[k.str_bytes()] && final(self)@ == old(self)@.insert(k.str_bytes(), *final(v)),
            None => !old(self)@.dom().contains(k.str_bytes()) && *final(self) == *old(self) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.str_bytes(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VStr + ?Sized>(&mut self, k: &Q) -> (r: Option<(K, V)>) ensures final(self)@ == old(self)@.remove(k.str_bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<Seq<u8>, V>::empty()) { unimplemented!() }
}
/// dropping a guard of a DashMap does nothing to what it guards
pub fn drop_guard<V>(x: &mut V) ensures *final(x) == *old(x) {}

// ---- tokio::sync::mpsc::Sender: only its identity matters (which channel) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { t: Vec<T> }
impl<T> Sender<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Sender<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn same_channel(&self, other: &Sender<T>) -> (r: bool) ensures r == (self.chan() == other.chan()) { unimplemented!() }
}
