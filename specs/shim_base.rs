// Shim: the parts of std, bytes and uuid that the extracted code calls, under (assumed or verified) contracts.
// Functions marked external_body / assume_specification are ASSUMED; the others are verified here.

pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }

/// the value of a ghost condition (used only to dispatch to the per-case copies of one function body)
#[verifier::external_body]
pub fn case_of(c: Ghost<bool>) -> (r: bool) ensures r == c@ { unimplemented!() }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }

/// bytes of a string
pub open spec fn sb(s: String) -> Seq<u8> { encode_utf8(s@) }

pub proof fn lemma_sb_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}

pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == encode_utf8(s@).len();
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures
        valid_utf8(v@) ==> r is Ok && encode_utf8((r->Ok_0)@) == v@,
        !valid_utf8(v@) ==> r is Err;
#[verifier::external_body]
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == b[0] as u16 * 256 + b[1] as u16,
{ u16::from_be_bytes(b) }

// ---- slice::Iter<u8>, and its take(n).copied() adaptor (verified against a slice and a position) ----
pub struct ByteIter<'a> { pub data: &'a [u8], pub pos: usize }
impl<'a> ByteIter<'a> {
    pub open spec fn rem(&self) -> Seq<u8> {
        if self.pos <= self.data@.len() { self.data@.sk(self.pos as int) } else { Seq::empty() }
    }
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && *(r->0) == old(self).rem()[0]
                && final(self).rem() == old(self).rem().sk(1),
    {
        if self.pos < self.data.len() {
            let r = &self.data[self.pos];
            self.pos = self.pos + 1;
            assert(final(self).rem() =~= old(self).rem().sk(1));
            Some(r)
        } else {
            None
        }
    }
    pub fn v_position<F: Fn(&u8) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
        ensures match r {
            Some(k) => k < self.rem().len() && call_ensures(f, (&self.rem()[k as int],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), false),
            None => forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (&#[trigger] self.rem()[i],), false) },
    {
        if self.pos > self.data.len() { return None; }
        let n = self.data.len() - self.pos;
        let mut k: usize = 0;
        while k < n
            invariant
                self.pos <= self.data@.len(), n == self.data@.len() - self.pos, k <= n, self.rem().len() == n,
                forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), false),
            decreases n - k,
        {
            let x = &self.data[self.pos + k];
            assert(*x == self.rem()[k as int]);
            if f(x) { return Some(k); }
            k = k + 1;
        }
        None
    }
    pub fn v_any<F: Fn(&u8) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
        ensures if r { exists|i: int| 0 <= i < self.rem().len() && call_ensures(f, (&#[trigger] self.rem()[i],), true) }
            else { forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (&#[trigger] self.rem()[i],), false) },
    {
        if self.pos > self.data.len() { return false; }
        let n = self.data.len() - self.pos;
        let mut k: usize = 0;
        while k < n
            invariant
                self.pos <= self.data@.len(), n == self.data@.len() - self.pos, k <= n, self.rem().len() == n,
                forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), false),
            decreases n - k,
        {
            let x = &self.data[self.pos + k];
            assert(*x == self.rem()[k as int]);
            if f(x) { return true; }
            k = k + 1;
        }
        false
    }
    pub fn v_all<F: Fn(&u8) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
        ensures if r { forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (&#[trigger] self.rem()[i],), true) }
            else { exists|i: int| 0 <= i < self.rem().len() && call_ensures(f, (&#[trigger] self.rem()[i],), false) },
    {
        if self.pos > self.data.len() { return true; }
        let n = self.data.len() - self.pos;
        let mut k: usize = 0;
        while k < n
            invariant
                self.pos <= self.data@.len(), n == self.data@.len() - self.pos, k <= n, self.rem().len() == n,
                forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.rem()[i],), true),
            decreases n - k,
        {
            let x = &self.data[self.pos + k];
            assert(*x == self.rem()[k as int]);
            if !f(x) { return false; }
            k = k + 1;
        }
        true
    }
    pub fn take<'b>(&'b mut self, n: usize) -> (r: ByteTake<'b, 'a>)
        ensures r.n == n, *r.it == *old(self), *final(self) == *final(r.it),
    {
        ByteTake { it: self, n }
    }
}
pub struct ByteTake<'b, 'a> { pub it: &'b mut ByteIter<'a>, pub n: usize }
pub trait FromByteTake: Sized {
    spec fn of_bytes(self) -> Seq<u8>;
    fn from_vec(v: Vec<u8>) -> (r: Self) ensures r.of_bytes() == v@;
}
impl FromByteTake for Vec<u8> {
    open spec fn of_bytes(self) -> Seq<u8> { self@ }
    fn from_vec(v: Vec<u8>) -> Self { v }
}
impl<'b, 'a> ByteTake<'b, 'a> {
    pub fn copied(self) -> (r: Self) ensures r == self { self }
    pub fn collect<T: FromByteTake>(self) -> (r: T)
        ensures
            r.of_bytes() == (*old(self.it)).rem().take(imin(self.n as int, (*old(self.it)).rem().len() as int)),
            final(self.it).rem() == (*old(self.it)).rem().sk(imin(self.n as int, (*old(self.it)).rem().len() as int)),
    {
        let mut v = Vec::new();
        let mut this = self;
        let ghost r0 = this.it.rem();
        let mut k = this.n;
        let mut done = false;
        while k > 0 && !done
            invariant
                v@ =~= r0.take(v.len() as int), this.it.rem() =~= r0.sk(v.len() as int), v.len() <= r0.len(),
                k + v.len() == self.n || done, done ==> v.len() == r0.len(), v.len() <= self.n, k <= self.n,
                *final(this.it) == *final(self.it),
            decreases k, (if done { 0int } else { 1int }),
        {
            match this.it.next() {
                Some(b) => { v.push(*b); k = k - 1; },
                None => { done = true; },
            }
        }
        T::from_vec(v)
    }
}
pub trait ByteSlice { 
    spec fn bytes_of(&self) -> Seq<u8>;
    fn v_iter<'a>(&'a self) -> (r: ByteIter<'a>) ensures r.rem() == self.bytes_of();
}
impl ByteSlice for [u8] {
    open spec fn bytes_of(&self) -> Seq<u8> { self@ }
    fn v_iter<'a>(&'a self) -> (r: ByteIter<'a>) {
        let r = ByteIter { data: self, pos: 0 };
        assert(r.rem() =~= self@);
        r
    }
}

// ---- Vec<u8> -> [u8; N] ----
pub trait VTryIntoArr { fn vtry_into<const N: usize>(self) -> (r: Result<[u8; N], Vec<u8>>)
    ensures self.arr_bytes().len() == N ==> r is Ok && (r->Ok_0)@ == self.arr_bytes(),
            self.arr_bytes().len() != N ==> r is Err;
    spec fn arr_bytes(self) -> Seq<u8>; }
impl VTryIntoArr for Vec<u8> {
    open spec fn arr_bytes(self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vtry_into<const N: usize>(self) -> (r: Result<[u8; N], Vec<u8>>) { self.try_into() }
}

// ---- value of an integer or of a reference to one ----
pub trait VVal<T>: Sized { spec fn sval(self) -> T; fn vval(self) -> (r: T) ensures r == self.sval(); }
impl VVal<u8> for u8 { open spec fn sval(self) -> u8 { self } fn vval(self) -> u8 { self } }
impl<'a> VVal<u8> for &'a u8 { open spec fn sval(self) -> u8 { *self } fn vval(self) -> u8 { *self } }
impl VVal<usize> for usize { open spec fn sval(self) -> usize { self } fn vval(self) -> usize { self } }
impl VVal<u16> for u16 { open spec fn sval(self) -> u16 { self } fn vval(self) -> u16 { self } }

// ---- std functions given by what they return (T1: exact, by their documentation)
pub assume_specification<T: Copy>[Option::<&T>::copied](o: Option<&T>) -> (r: Option<T>) ensures match o { Some(x) => r == Some(*x), None => r is None };
pub assume_specification<T>[Option::<T>::or](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U>[Option::<T>::and](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None::<U> });
pub assume_specification<T>[Option::<T>::xor](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });
pub assume_specification<T, U>[Option::<T>::zip](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(T, U)> });
pub assume_specification<T>[Option::<Option<T>>::flatten](o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None::<T> });
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, E>[Result::<T, E>::unwrap_or](o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T>[core::mem::replace](d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
pub assume_specification<T: Default>[core::mem::take](d: &mut T) -> (r: T) ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);

// ---- Option / Result by cases, proved: the combinators are rewritten to a match on it
pub enum VB<T, N, K> { Yes(T, K), No(N, K) }
pub struct OptK; pub struct ResK;
pub trait VBr<T, N, K>: Sized { spec fn br_yes(self, t: T) -> bool; spec fn br_no(self, n: N) -> bool;
  fn v_br(self) -> (r: VB<T, N, K>) ensures match r { VB::Yes(t, _) => self.br_yes(t), VB::No(n, _) => self.br_no(n) }; }
impl<T> VBr<T, (), OptK> for Option<T> {
  open spec fn br_yes(self, t: T) -> bool { self == Some(t) }
  open spec fn br_no(self, n: ()) -> bool { self is None }
  fn v_br(self) -> (r: VB<T, (), OptK>) { match self { Some(t) => VB::Yes(t, OptK), None => VB::No((), OptK) } }
}
impl<T, E> VBr<T, E, ResK> for Result<T, E> {
  open spec fn br_yes(self, t: T) -> bool { self == Ok::<T, E>(t) }
  open spec fn br_no(self, n: E) -> bool { self == Err::<T, E>(n) }
  fn v_br(self) -> (r: VB<T, E, ResK>) { match self { Ok(t) => VB::Yes(t, ResK), Err(e) => VB::No(e, ResK) } }
}
// rebuild: the kind decides the container
pub trait VMk<U, N>: Sized { type Out; spec fn is_yes(u: U, o: Self::Out) -> bool; spec fn is_no(n: N, o: Self::Out) -> bool;
  fn yes(self, u: U) -> (o: Self::Out) ensures Self::is_yes(u, o);
  fn no(self, n: N) -> (o: Self::Out) ensures Self::is_no(n, o); }
impl<U> VMk<U, ()> for OptK { type Out = Option<U>;
  open spec fn is_yes(u: U, o: Option<U>) -> bool { o == Some(u) }
  open spec fn is_no(n: (), o: Option<U>) -> bool { o is None }
  fn yes(self, u: U) -> (o: Option<U>) { Some(u) } fn no(self, n: ()) -> (o: Option<U>) { None } }
impl<U, E> VMk<U, E> for ResK { type Out = Result<U, E>;
  open spec fn is_yes(u: U, o: Result<U, E>) -> bool { o == Ok::<U, E>(u) }
  open spec fn is_no(n: E, o: Result<U, E>) -> bool { o == Err::<U, E>(n) }
  fn yes(self, u: U) -> (o: Result<U, E>) { Ok(u) } fn no(self, n: E) -> (o: Result<U, E>) { Err(n) } }
// and_then's other side
pub trait VFail<N>: Sized { spec fn failed(self, n: N) -> bool; fn v_fail(n: N) -> (r: Self) ensures r.failed(n); }
impl<U> VFail<()> for Option<U> { open spec fn failed(self, n: ()) -> bool { self is None } fn v_fail(n: ()) -> (r: Self) { None } }
impl<U, E> VFail<E> for Result<U, E> { open spec fn failed(self, n: E) -> bool { self == Err::<U, E>(n) } fn v_fail(n: E) -> (r: Self) { Err(n) } }
pub trait VToOwned<T> { spec fn owned(&self) -> T; fn v_to_owned(&self) -> (r: T) ensures r == self.owned(); }
impl VToOwned<u8> for u8 { open spec fn owned(&self) -> u8 { *self } fn v_to_owned(&self) -> u8 { *self } }

// ---- min and max ----
pub trait VMin: Sized { spec fn le(self, o: Self) -> bool;
    fn v_min(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { self } else { o });
    fn v_max(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { o } else { self }); }
impl VMin for u8 { open spec fn le(self, o: Self) -> bool { self <= o } fn v_min(self, o: Self) -> Self { if self <= o { self } else { o } } fn v_max(self, o: Self) -> Self { if self <= o { o } else { self } } }
impl VMin for u16 { open spec fn le(self, o: Self) -> bool { self <= o } fn v_min(self, o: Self) -> Self { if self <= o { self } else { o } } fn v_max(self, o: Self) -> Self { if self <= o { o } else { self } } }
impl VMin for u32 { open spec fn le(self, o: Self) -> bool { self <= o } fn v_min(self, o: Self) -> Self { if self <= o { self } else { o } } fn v_max(self, o: Self) -> Self { if self <= o { o } else { self } } }
impl VMin for u64 { open spec fn le(self, o: Self) -> bool { self <= o } fn v_min(self, o: Self) -> Self { if self <= o { self } else { o } } fn v_max(self, o: Self) -> Self { if self <= o { o } else { self } } }
impl VMin for usize { open spec fn le(self, o: Self) -> bool { self <= o } fn v_min(self, o: Self) -> Self { if self <= o { self } else { o } } fn v_max(self, o: Self) -> Self { if self <= o { o } else { self } } }
// ---- Option ----
pub trait VAsDeref { spec fn text_of(&self) -> Option<Seq<char>>; fn as_deref(&self) -> (r: Option<&str>) ensures match (r, self.text_of()) { (Some(x), Some(y)) => x@ == y, (None, None) => true, _ => false }; }
impl VAsDeref for Option<String> {
    open spec fn text_of(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } }
    fn as_deref(&self) -> Option<&str> { match self { Some(s) => Some(s.as_str()), None => None } }
}

// ---- contains ----
pub trait VContains<T> { spec fn has(&self, x: T) -> bool; fn v_contains(&self, x: T) -> (r: bool) ensures r == self.has(x); }
impl<'x> VContains<&'x u8> for Vec<u8> {
    open spec fn has(&self, x: &'x u8) -> bool { self@.contains(*x) }
    #[verifier::external_body]
    fn v_contains(&self, x: &'x u8) -> (r: bool) { self.contains(x) }
}
/// (for ASCII patterns: a character is in the string iff its byte is in the encoding)
impl VContains<char> for String {
    open spec fn has(&self, x: char) -> bool { sb(*self).contains(x as u8) }
    #[verifier::external_body]
    fn v_contains(&self, x: char) -> (r: bool) { self.contains(x) }
}

// ---- comparison with a string literal (given by its bytes) ----
pub trait VStr { spec fn str_bytes(&self) -> Seq<u8>; fn is_bytes(&self, b: &[u8]) -> (r: bool) ensures r == (self.str_bytes() =~= b@); }
impl VStr for String {
    open spec fn str_bytes(&self) -> Seq<u8> { sb(*self) }
    #[verifier::external_body]
    fn is_bytes(&self, b: &[u8]) -> bool { self.as_bytes() == b }
}
impl VStr for str {
    open spec fn str_bytes(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn is_bytes(&self, b: &[u8]) -> bool { self.as_bytes() == b }
}
impl<'a, T: VStr + ?Sized> VStr for &'a T {
    open spec fn str_bytes(&self) -> Seq<u8> { (**self).str_bytes() }
    fn is_bytes(&self, b: &[u8]) -> bool { (**self).is_bytes(b) }
}
pub fn v_str_is<T: VStr + ?Sized>(x: &T, b: &[u8]) -> (r: bool) ensures r == (x.str_bytes() =~= b@) { x.is_bytes(b) }

/// a string literal, given by its bytes
#[verifier::external_body]
pub fn v_lit(b: &[u8]) -> (r: &'static str) ensures encode_utf8(r@) == b@, b@.len() == 1 ==> encode_utf8(r@) == seq![b@[0]], b@.len() == 0 ==> encode_utf8(r@) == Seq::<u8>::empty() { unimplemented!() }

// ---- conversion traits ----
pub trait VFrom<T>: Sized {
    spec fn spec_from(v: T) -> Self;
    fn vfrom(v: T) -> (r: Self) ensures r == Self::spec_from(v);
}
pub trait VInto<T>: Sized {
    spec fn spec_into(self) -> T;
    fn vinto(self) -> (r: T) ensures r == self.spec_into();
}
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn spec_into(self) -> U { U::spec_from(self) }
    fn vinto(self) -> U { U::vfrom(self) }
}
impl VFrom<u8> for u16 { open spec fn spec_from(v: u8) -> u16 { v as u16 } fn vfrom(v: u8) -> u16 { v as u16 } }
impl VFrom<u8> for u32 { open spec fn spec_from(v: u8) -> u32 { v as u32 } fn vfrom(v: u8) -> u32 { v as u32 } }
impl VFrom<u8> for u64 { open spec fn spec_from(v: u8) -> u64 { v as u64 } fn vfrom(v: u8) -> u64 { v as u64 } }
impl VFrom<u8> for u128 { open spec fn spec_from(v: u8) -> u128 { v as u128 } fn vfrom(v: u8) -> u128 { v as u128 } }
impl VFrom<u8> for usize { open spec fn spec_from(v: u8) -> usize { v as usize } fn vfrom(v: u8) -> usize { v as usize } }
impl VFrom<u16> for u32 { open spec fn spec_from(v: u16) -> u32 { v as u32 } fn vfrom(v: u16) -> u32 { v as u32 } }
impl VFrom<u16> for u64 { open spec fn spec_from(v: u16) -> u64 { v as u64 } fn vfrom(v: u16) -> u64 { v as u64 } }
impl VFrom<u16> for u128 { open spec fn spec_from(v: u16) -> u128 { v as u128 } fn vfrom(v: u16) -> u128 { v as u128 } }
impl VFrom<u32> for u64 { open spec fn spec_from(v: u32) -> u64 { v as u64 } fn vfrom(v: u32) -> u64 { v as u64 } }
impl VFrom<u32> for u128 { open spec fn spec_from(v: u32) -> u128 { v as u128 } fn vfrom(v: u32) -> u128 { v as u128 } }
impl VFrom<u64> for u128 { open spec fn spec_from(v: u64) -> u128 { v as u128 } fn vfrom(v: u64) -> u128 { v as u128 } }
impl VFrom<bool> for u8 { open spec fn spec_from(v: bool) -> u8 { if v { 1 } else { 0 } } fn vfrom(v: bool) -> u8 { if v { 1 } else { 0 } } }
impl VFrom<bool> for u16 { open spec fn spec_from(v: bool) -> u16 { if v { 1 } else { 0 } } fn vfrom(v: bool) -> u16 { if v { 1 } else { 0 } } }
impl VFrom<bool> for u32 { open spec fn spec_from(v: bool) -> u32 { if v { 1 } else { 0 } } fn vfrom(v: bool) -> u32 { if v { 1 } else { 0 } } }
impl VFrom<bool> for u64 { open spec fn spec_from(v: bool) -> u64 { if v { 1 } else { 0 } } fn vfrom(v: bool) -> u64 { if v { 1 } else { 0 } } }
impl VFrom<bool> for usize { open spec fn spec_from(v: bool) -> usize { if v { 1 } else { 0 } } fn vfrom(v: bool) -> usize { if v { 1 } else { 0 } } }
impl VFrom<u16> for usize {
    open spec fn spec_from(v: u16) -> usize { v as usize }
    fn vfrom(v: u16) -> usize { v as usize }
}
pub uninterp spec fn spec_string_of(s: &str) -> String;
impl<'s> VFrom<&'s str> for String {
    open spec fn spec_from(v: &'s str) -> String { spec_string_of(v) }
    #[verifier::external_body]
    fn vfrom(v: &'s str) -> String { v.to_string() }
}
pub trait VTryFrom<T>: Sized {
    spec fn spec_try(v: T) -> Option<Self>;
    fn vtry_from(v: T) -> (r: Result<Self, MqttError>)
        ensures match r { Ok(x) => Self::spec_try(v) == Some(x), Err(e) => Self::spec_try(v) is None && is_conv(e) };
}

// ---- bytes::{Bytes, BytesMut} ----
#[verifier::external_body]
pub struct Bytes { v: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bytes) ensures r == *self, r@ == self@ { Bytes { v: self.v.clone() } }
    #[verifier::external_body]
    pub fn vfrom_iter<'b, 'a>(t: ByteTake<'b, 'a>) -> (r: Bytes)
        ensures
            r@ == (*old(t.it)).rem().take(imin(t.n as int, (*old(t.it)).rem().len() as int)),
            final(t.it).rem() == (*old(t.it)).rem().sk(imin(t.n as int, (*old(t.it)).rem().len() as int)),
    { unimplemented!() }
}
impl FromByteTake for Bytes {
    open spec fn of_bytes(self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn from_vec(v: Vec<u8>) -> (r: Self) { Bytes { v } }
}
pub trait Buf { spec fn buf_bytes(&self) -> Seq<u8>; }
impl Buf for Bytes { open spec fn buf_bytes(&self) -> Seq<u8> { self@ } }
impl Buf for &[u8] { open spec fn buf_bytes(&self) -> Seq<u8> { (*self)@ } }
pub open spec fn be16(x: u16) -> Seq<u8> { seq![(x / 256) as u8, (x % 256) as u8] }
#[verifier::external_body]
pub struct BytesMut { v: Vec<u8> }
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, x: u8) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u16(&mut self, x: u16) ensures final(self)@ == old(self)@ + be16(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, x: &[u8]) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, x: &[u8]) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put<B: Buf>(&mut self, x: B) ensures final(self)@ == old(self)@ + x.buf_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}

pub trait VToString { spec fn ts(&self) -> Seq<u8>; fn v_to_string(&self) -> (r: String) ensures sb(r) == self.ts(); }
impl VToString for str {
    open spec fn ts(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn v_to_string(&self) -> String { self.to_string() }
}
impl VToString for String {
    open spec fn ts(&self) -> Seq<u8> { sb(*self) }
    #[verifier::external_body]
    fn v_to_string(&self) -> String { self.to_string() }
}
impl<'a, T: VToString + ?Sized> VToString for &'a T {
    open spec fn ts(&self) -> Seq<u8> { (**self).ts() }
    fn v_to_string(&self) -> String { (**self).v_to_string() }
}

pub uninterp spec fn decimal(n: int) -> Seq<u8>;
impl VToString for u8 { open spec fn ts(&self) -> Seq<u8> { decimal(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> String { self.to_string() } }

// ---- uuid ----
/// the value came out of the generator of random identifiers
pub uninterp spec fn from_uuid(x: u128) -> bool;
#[verifier::external_body]
pub struct Uuid {}
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4() -> Uuid { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures sb(r).len() == 36 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(&self) -> (r: u128) ensures from_uuid(r) { unimplemented!() }
}

// ---- owned iteration over a vector (`for x in vec`) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedIter<T> { v: std::vec::IntoIter<T> }
impl<T> OwnedIter<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().sk(1),
    { self.v.next() }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
}
pub trait VIntoIter<T> { spec fn all(self) -> Seq<T>; fn v_into_iter(self) -> (r: OwnedIter<T>) ensures r.rem() == self.all(); }
impl<T> VIntoIter<T> for Vec<T> {
    open spec fn all(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: OwnedIter<T>) { OwnedIter { v: self.into_iter() } }
}

// ---- a range of indices ----
pub struct RangeIter { pub lo: usize, pub hi: usize }
impl RangeIter {
    pub open spec fn lo(&self) -> int { self.lo as int }
    pub open spec fn hi(&self) -> int { self.hi as int }
    pub open spec fn over<U>(&self, s: Seq<U>) -> bool { self.hi == s.len() }

    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            old(self).lo >= old(self).hi ==> r is None && *final(self) == *old(self),
            old(self).lo < old(self).hi ==> r == Some(old(self).lo) && final(self).hi == old(self).hi && final(self).lo == old(self).lo + 1,
    {
        if self.lo < self.hi { let r = self.lo; self.lo = self.lo + 1; Some(r) } else { None }
    }
}
pub trait VRange { fn v_into_iter(self) -> (r: RangeIter) ensures r.lo == self.lo(), r.hi == self.hi(); spec fn lo(self) -> usize; spec fn hi(self) -> usize; }
impl VRange for core::ops::Range<usize> {
    open spec fn lo(self) -> usize { self.start }
    open spec fn hi(self) -> usize { self.end }
    fn v_into_iter(self) -> RangeIter { RangeIter { lo: self.start, hi: self.end } }
}

pub broadcast proof fn lemma_part_of_part<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
// ---- a part of a slice, if it is there ----
pub trait VGetRange<T> { spec fn whole(&self) -> Seq<T>;
    fn v_get_range<'a>(&'a self, lo: usize, hi: Option<usize>) -> (r: Option<&'a [T]>)
        ensures ({ let h = match hi { Some(h) => h as int, None => self.whole().len() as int };
            match r { Some(x) => lo <= h <= self.whole().len() && x@ == self.whole().subrange(lo as int, h), None => !(lo <= h <= self.whole().len()) } }); }
impl<T> VGetRange<T> for [T] {
    open spec fn whole(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_get_range<'a>(&'a self, lo: usize, hi: Option<usize>) -> (r: Option<&'a [T]>) { match hi { Some(h) => self.get(lo..h), None => self.get(lo..) } }
}

// ---- `skip` without vstd's broadcast lemmas about it (they multiply terms) ----
pub trait SeqSk: Sized { spec fn sk(self, n: int) -> Self; }
impl<A> SeqSk for Seq<A> {
    open spec fn sk(self, n: int) -> Self { self.subrange(n, self.len() as int) }
}
