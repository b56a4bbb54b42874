// Trusted base: what the standard library and the dependencies of the repository do, in
// specification terms. Everything `external_body`, `axiom` or `assume_specification` in this
// file is an assumption; run/check.py lists each one in the evidence.

// ---------------------------------------------------------------- small helpers
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
#[verifier::inline]
pub open spec fn pin<A>(s: Seq<A>, a: A) -> A { a }
pub open spec fn it_is<T>(r: It<T>, s: Seq<T>) -> bool { r@ =~= s }
pub open spec fn vec_is<T>(r: Vec<T>, s: Seq<T>) -> bool { r@ =~= s }
pub open spec fn vref_is<T>(r: &Vec<T>, s: Seq<T>) -> bool { r@ =~= s }
pub open spec fn slice_is<T>(r: &[T], s: Seq<T>) -> bool { r@ =~= s }
pub open spec fn string_is(a: String, b: Seq<char>) -> bool { a@ =~= b }
pub open spec fn strref_is(a: &str, b: Seq<char>) -> bool { a@ =~= b }
pub open spec fn str_is(a: Seq<char>, b: Seq<char>) -> bool { a =~= b }
pub open spec fn it_it_is<C: VIntoIter>(r: It<C>, s: Seq<Seq<C::X>>) -> bool {
    &&& r@.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] r@[i]).items() =~= s[i]
}
pub open spec fn opt_it_is<T>(r: Option<It<T>>, s: Option<Seq<T>>) -> bool {
    match (r, s) { (Some(a), Some(b)) => a@ =~= b, (None, None) => true, _ => false }
}
pub open spec fn opt_vec_is<T>(r: Option<Vec<T>>, s: Option<Seq<T>>) -> bool {
    match (r, s) { (Some(a), Some(b)) => a@ =~= b, (None, None) => true, _ => false }
}
pub open spec fn opt_vref_is<T>(r: Option<&Vec<T>>, s: Option<Seq<T>>) -> bool {
    match (r, s) { (Some(a), Some(b)) => a@ =~= b, (None, None) => true, _ => false }
}
pub open spec fn opt_slice_is<T>(r: Option<&[T]>, s: Option<Seq<T>>) -> bool {
    match (r, s) { (Some(a), Some(b)) => a@ =~= b, (None, None) => true, _ => false }
}
pub open spec fn opt_str_is(r: Option<String>, s: Option<Seq<char>>) -> bool {
    match (r, s) { (Some(a), Some(b)) => a@ =~= b, (None, None) => true, _ => false }
}
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn flatten_opts<T>(s: Seq<Option<T>>) -> Seq<T> { s.map_values(|x: Option<T>| opt_seq(x)).flatten() }
pub open spec fn flatten_its<C: VIntoIter>(s: Seq<C>) -> Seq<C::X> { s.map_values(|x: C| x.items()).flatten() }
pub open spec fn seq_first<'a, T>(s: Seq<T>) -> Option<T> { if s.len() == 0 { None } else { Some(s[0]) } }
pub open spec fn seq_last<T>(s: Seq<T>) -> Option<T> { if s.len() == 0 { None } else { Some(s.last()) } }
pub open spec fn seq_get<'a, T>(s: Seq<T>, i: usize) -> Option<&'a T> { if i < s.len() { Some(&s[i as int]) } else { None } }
pub open spec fn seq_take<T>(s: Seq<T>, n: usize) -> Seq<T> { if n <= s.len() { s.take(n as int) } else { s } }
pub open spec fn seq_skip<T>(s: Seq<T>, n: usize) -> Seq<T> { if n <= s.len() { s.skip(n as int) } else { Seq::empty() } }
pub open spec fn seq_all<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) }
pub open spec fn seq_any<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) }
pub open spec fn opt_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub open spec fn opt_deref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub open spec fn checked_sub_spec(a: usize, b: usize) -> Option<usize> { if a >= b { Some((a - b) as usize) } else { None } }
pub open spec fn saturating_sub_spec(a: usize, b: usize) -> usize { if a >= b { (a - b) as usize } else { 0 } }
pub open spec fn max_spec(a: usize, b: usize) -> usize { if a >= b { a } else { b } }
pub open spec fn min_spec(a: usize, b: usize) -> usize { if a <= b { a } else { b } }

pub broadcast proof fn flatten_ext<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] =~= b[i],
    ensures #[trigger] a.flatten() == #[trigger] b.flatten(),
{ assert(a =~= b); }

pub broadcast proof fn filter_ext<T>(s: Seq<T>, f: spec_fn(T) -> bool, g: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i]),
    ensures #[trigger] s.filter(f) == #[trigger] s.filter(g),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == g(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        filter_ext(s.drop_last(), f, g);
    }
}

pub proof fn filter_push<T>(s: Seq<T>, x: T, f: spec_fn(T) -> bool)
    ensures s.push(x).filter(f) == (if f(x) { s.filter(f).push(x) } else { s.filter(f) }),
{
    reveal(Seq::filter);
    assert(s.push(x).drop_last() =~= s);
}

pub broadcast proof fn filter_has<T>(s: Seq<T>, x: T, f: spec_fn(T) -> bool)
    ensures #[trigger] s.filter(f).contains(x) == (s.contains(x) && f(x)),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let p = s.drop_last();
        filter_has(p, x, f);
        assert(s =~= p.push(s.last()));
        contains_push(p, s.last(), x);
        contains_push(p.filter(f), s.last(), x);
    }
}
pub proof fn contains_push<T>(s: Seq<T>, y: T, x: T)
    ensures s.push(y).contains(x) == (s.contains(x) || x == y),
{
    if s.contains(x) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(s.push(y)[i] == x);
    }
    if x == y { assert(s.push(y)[s.len() as int] == x); }
    if s.push(y).contains(x) {
        let i = choose|i: int| 0 <= i < s.push(y).len() && s.push(y)[i] == x;
        if i < s.len() { assert(s[i] == x); }
    }
}

// ---------------------------------------------------------------- containers and iterators
/// iterator: a finite sequence of items still to come. All iterators of the code under proof are
/// finite, and their closures are pure, so laziness cannot be observed.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }

pub trait VHas<T> { spec fn has_(&self, x: T) -> bool; }
impl<T> VHas<T> for It<T> { open spec fn has_(&self, x: T) -> bool { self@.contains(x) } }
impl<T> VHas<T> for Option<T> { open spec fn has_(&self, x: T) -> bool { *self == Some(x) } }
impl<T, E> VHas<T> for Result<T, E> { open spec fn has_(&self, x: T) -> bool { *self == Ok::<T, E>(x) } }
pub open spec fn has<C: VHas<T>, T>(c: C, x: T) -> bool { c.has_(x) }

/// things with a sequence of elements
pub trait VSeq { type E; spec fn sq(&self) -> Seq<Self::E>; }
impl<T> VSeq for Vec<T> { type E = T; open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T> VSeq for [T] { type E = T; open spec fn sq(&self) -> Seq<T> { self@ } }
impl<'a, T> VSeq for &'a [T] { type E = T; open spec fn sq(&self) -> Seq<T> { self@ } }
impl<'a, T> VSeq for &'a Vec<T> { type E = T; open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VSeq for [T; N] { type E = T; open spec fn sq(&self) -> Seq<T> { self@ } }

pub trait VIntoIter: Sized {
    type X;
    spec fn items(&self) -> Seq<Self::X>;
    fn v_into_iter(self) -> (r: It<Self::X>) ensures r@ == self.items();
}
impl<T> VIntoIter for It<T> { type X = T; open spec fn items(&self) -> Seq<T> { self@ }
    fn v_into_iter(self) -> (r: It<T>) { self } }
impl<T> VIntoIter for Vec<T> { type X = T; open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }
impl<T> VIntoIter for Option<T> { type X = T; open spec fn items(&self) -> Seq<T> { opt_seq(*self) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a [T] { type X = &'a T; open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a Vec<T> { type X = &'a T; open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T, const N: usize> VIntoIter for [T; N] { type X = T; open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }

pub trait VForIter: VIntoIter { fn v_for_iter(self) -> (r: It<Self::X>) ensures r@ == self.items(); }
impl<C: VIntoIter> VForIter for C { fn v_for_iter(self) -> (r: It<Self::X>) { self.v_into_iter() } }

impl<T> It<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<U: VIntoIter, F: Fn(T) -> U>(self, f: F) -> (r: It<U::X>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|m: Seq<U>| #![auto] m.len() == self@.len()
            && (forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (self@[i],), #[trigger] m[i]))
            && r@ == m.map_values(|u: U| u.items()).flatten(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|m: Seq<Option<U>>| #![auto] m.len() == self@.len()
            && (forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (self@[i],), #[trigger] m[i]))
            && r@ == m.map_values(|u: Option<U>| opt_seq(u)).flatten(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures exists|g: spec_fn(T) -> bool| #![auto] (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), g(self@[i])))
            && r@ == self@.filter(g),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
            r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten(self) -> (r: It<T::X>) where T: VIntoIter
        ensures r@ == self@.map_values(|x: T| x.items()).flatten(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<C: VIntoIter<X = T>>(self, o: C) -> (r: It<T>) ensures r@ == self@ + o.items() { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_sized(&self) ensures self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@ == enumerated(self@), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == seq_take(self@, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == seq_skip(self@, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == seq_last(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r@ == derefs(self@) { unimplemented!() }
}

pub trait VSlice: VSeq {
    fn v_iter<'a>(&'a self) -> (r: It<&'a Self::E>) ensures r@ == refs(self.sq());
    fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a Self::E>) ensures r == seq_get(self.sq(), i);
    fn v_first<'a>(&'a self) -> (r: Option<&'a Self::E>) ensures r == (if self.sq().len() == 0 { None } else { Some(&self.sq()[0]) });
    fn v_last<'a>(&'a self) -> (r: Option<&'a Self::E>) ensures r == (if self.sq().len() == 0 { None } else { Some(&self.sq().last()) });
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sq().len() == 0);
    fn v_to_vec(&self) -> (r: Vec<Self::E>) ensures r@ == self.sq();
    fn v_contains(&self, x: &Self::E) -> (r: bool) ensures r == slice_has(self.sq(), x);
    fn v_windows<'a>(&'a self, n: usize) -> (r: It<&'a [Self::E]>)
        requires n > 0
        ensures r@.len() == (if self.sq().len() < n { 0 } else { self.sq().len() - n + 1 }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.sq().subrange(i, i + n);
    fn v_slice_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [Self::E])
        requires a <= b <= self.sq().len() ensures r@ == self.sq().subrange(a as int, b as int);
    fn v_slice_range_incl<'a>(&'a self, a: usize, b: usize) -> (r: &'a [Self::E])
        requires a <= b + 1, b < self.sq().len() ensures r@ == self.sq().subrange(a as int, b + 1);
    fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [Self::E])
        requires a <= self.sq().len() ensures r@ == self.sq().subrange(a as int, self.sq().len() as int);
}
impl<T> VSlice for Vec<T> {
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_windows<'a>(&'a self, n: usize) -> (r: It<&'a [T]>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_range_incl<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [T]) { unimplemented!() }
}
impl<T> VSlice for [T] {
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_windows<'a>(&'a self, n: usize) -> (r: It<&'a [T]>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_range_incl<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [T]) { unimplemented!() }
}
impl<T, const N: usize> VSlice for [T; N] {
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_windows<'a>(&'a self, n: usize) -> (r: It<&'a [T]>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_range_incl<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from<'a>(&'a self, a: usize) -> (r: &'a [T]) { unimplemented!() }
}
pub trait VVec: VSeq {
    fn v_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut Self::E>)
        ensures match r {
            Some(x) => i < old(self).sq().len() && *x == old(self).sq()[i as int] && final(self).sq() == old(self).sq().update(i as int, *final(x)),
            None => i >= old(self).sq().len() && final(self).sq() == old(self).sq(),
        };
    fn v_extend<C: VIntoIter<X = Self::E>>(&mut self, c: C) ensures final(self).sq() == old(self).sq() + c.items();
}
impl<T> VVec for Vec<T> {
    #[verifier::external_body] fn v_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
    #[verifier::external_body] fn v_extend<C: VIntoIter<X = T>>(&mut self, c: C) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { unimplemented!() }
#[verifier::external_body]
pub fn v_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { unimplemented!() }
#[verifier::external_body]
pub fn v_vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c] { unimplemented!() }
#[verifier::external_body]
pub fn v_arr2<T>(a: [T; 2]) -> (r: (T, T)) ensures r.0 == a@[0], r.1 == a@[1] { unimplemented!() }
#[verifier::external_body]
pub fn v_range(a: usize, b: usize) -> (r: It<usize>)
    ensures r@ == Seq::new((if a <= b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize) { unimplemented!() }
#[verifier::external_body]
pub fn v_range_incl(a: usize, b: usize) -> (r: It<usize>)
    ensures r@ == Seq::new((if a <= b { b - a + 1 } else { 0 }) as nat, |i: int| (a + i) as usize) { unimplemented!() }

// ---------------------------------------------------------------- equality, clone, default, panics
/// the equality of a type's PartialEq, which is a pure relation
pub uninterp spec fn eqv<T>(a: T, b: T) -> bool;
pub broadcast axiom fn eqv_lrange(a: (usize, usize), b: (usize, usize)) ensures #[trigger] eqv::<(usize, usize)>(a, b) == (a == b);
pub broadcast axiom fn eqv_char(a: char, b: char) ensures #[trigger] eqv::<char>(a, b) == (a == b);
pub broadcast axiom fn eqv_str(a: &str, b: &str) ensures #[trigger] eqv::<&str>(a, b) == (a@ == b@);
#[verifier::external_body]
pub fn v_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == eqv(*a, *b) { unimplemented!() }
pub open spec fn slice_has<T>(s: Seq<T>, x: &T) -> bool { exists|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i], *x) }
pub open spec fn str_in(s: Seq<&str>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x }

/// clone() gives an equal value (derived Clone, Rc::clone)
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VDefault: Sized { spec fn is_default(&self) -> bool; fn v_dflt() -> (r: Self) ensures r.is_default(); }
impl<T> VDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } #[verifier::external_body] fn v_dflt() -> (r: Self) { unimplemented!() } }
impl<K: VKey, V> VDefault for HashMap<K, V> { open spec fn is_default(&self) -> bool { self@ == Map::<K::KV, V>::empty() } #[verifier::external_body] fn v_dflt() -> (r: Self) { unimplemented!() } }
impl<T> VDefault for PhantomData<T> { open spec fn is_default(&self) -> bool { true } #[verifier::external_body] fn v_dflt() -> (r: Self) { unimplemented!() } }
pub open spec fn dflt<T: VDefault>(x: T) -> bool { x.is_default() }
pub fn v_default<T: VDefault>() -> (r: T) ensures r.is_default() { T::v_dflt() }
pub trait VUnwrapOrDefault<T> { fn v_unwrap_or_default(self) -> T; }
impl<T: VDefault> VUnwrapOrDefault<T> for Option<T> {
    fn v_unwrap_or_default(self) -> (r: T) ensures match self { Some(x) => r == x, None => r.is_default() }
    { match self { Some(x) => x, None => v_default() } }
}
pub trait VCloned<T> { spec fn as_opt(&self) -> Option<T>; fn v_cloned(self) -> (r: Option<T>) ensures r == self.as_opt(); }
impl<'a, T> VCloned<T> for Option<&'a T> { open spec fn as_opt(&self) -> Option<T> { opt_deref(*self) } #[verifier::external_body] fn v_cloned(self) -> (r: Option<T>) { unimplemented!() } }
#[verifier::external_body]
pub fn v_assert(b: bool) requires b { unimplemented!() }
#[verifier::external_body]
pub fn v_panic() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_drop<T>(x: T) { unimplemented!() }
#[verifier::external_body]
pub fn v_take<T: VDefault>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { unimplemented!() }
/// the only other Rc of a line are those of selections, which a resolver does not keep
#[verifier::external_body]
pub fn v_try_unwrap<T>(x: Rc<T>) -> (r: Result<T, Rc<T>>) ensures r == Ok::<T, Rc<T>>(*x) { unimplemented!() }
/// conversion by `Into`, a function of the value
pub uninterp spec fn into_of<A, B>(x: A) -> B;
#[verifier::external_body]
pub fn v_into<A: Into<B>, B>(x: A) -> (r: B) ensures r == into_of::<A, B>(x) { unimplemented!() }
/// two selections with the same line value are taken to share the line
#[verifier::external_body]
pub fn v_ptr_eq<T>(a: &Rc<T>, b: &Rc<T>) -> (r: bool) ensures r == (**a == **b) { unimplemented!() }

pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o.is_some() ==> call_requires(f, (o.unwrap(),)),
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };

// ---------------------------------------------------------------- hash maps
pub trait VKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VKey for TypeId { type KV = TypeId; open spec fn kv(&self) -> TypeId { *self } }
impl VKey for (usize, usize) { type KV = (usize, usize); open spec fn kv(&self) -> (usize, usize) { *self } }
impl VKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for Seq<char> { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { *self } }
impl VKey for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<K: VKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::KV, V>;
    /// the entries in the order in which this map yields them
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    pub open spec fn get_spec<'a, Q: VKey<KV = K::KV> + ?Sized>(&'a self, k: &Q) -> Option<&'a V> {
        if self@.dom().contains(k.kv()) { Some(&self@[k.kv()]) } else { None }
    }
    #[verifier::external_body]
    pub fn v_get<'a, Q: VKey<KV = K::KV> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>) ensures r == self.get_spec(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_index<'a, Q: VKey<KV = K::KV> + ?Sized>(&'a self, k: &Q) -> (r: &'a V)
        requires self@.dom().contains(k.kv()) ensures *r == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or_insert<'a>(&'a mut self, k: K, d: V) -> (r: &'a mut V)
        ensures *r == (if old(self)@.dom().contains(k.kv()) { old(self)@[k.kv()] } else { d }),
            final(self)@ == old(self)@.insert(k.kv(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or_default<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: VDefault
        ensures if old(self)@.dom().contains(k.kv()) { *r == old(self)@[k.kv()] } else { r.is_default() },
            final(self)@ == old(self)@.insert(k.kv(), *final(r)),
    { unimplemented!() }
    pub axiom fn entries_law(&self)
        ensures
            forall|i: int| 0 <= i < self.entries().len() ==> self@.dom().contains((#[trigger] self.entries()[i]).0.kv()) && self@[self.entries()[i].0.kv()] == self.entries()[i].1,
            forall|k: K::KV| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < self.entries().len() && (#[trigger] self.entries()[i]).0.kv() == k,
            forall|i: int, j: int| 0 <= i < j < self.entries().len() ==> (#[trigger] self.entries()[i]).0.kv() != (#[trigger] self.entries()[j]).0.kv();
}
impl<K: VKey, V> VIntoIter for HashMap<K, V> { type X = (K, V); open spec fn items(&self) -> Seq<(K, V)> { self.entries() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<(K, V)>) { unimplemented!() } }

// ---------------------------------------------------------------- run-time types
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TypeId { x: u64 }
/// the identity of a type
pub uninterp spec fn tid<T>() -> TypeId;
impl TypeId { #[verifier::external_body] pub fn of<T: 'static>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() } }
/// a value whose type is not known statically
#[verifier::external_body]
pub struct Val { x: u64 }
pub uninterp spec fn erase<T>(x: T) -> Val;
pub uninterp spec fn unerase<T>(x: Val) -> T;
pub broadcast axiom fn erase_back<T>(x: T) ensures unerase::<T>(#[trigger] erase::<T>(x)) == x;
pub open spec fn typed<T>(s: Seq<Val>) -> Seq<T> { s.map_values(|v: Val| unerase::<T>(v)) }
pub open spec fn erased<T>(s: Seq<T>) -> Seq<Val> { s.map_values(|v: T| erase::<T>(v)) }
/// the stored values of a Vec<T> are images of values of T
pub open spec fn is_typed<T>(s: Seq<Val>) -> bool { erased::<T>(typed::<T>(s)) =~= s }

/// Box<dyn Any>
#[verifier::external_body]
#[derive(Debug)]
pub struct DynAny { x: u64 }
impl DynAny {
    pub uninterp spec fn ty(&self) -> TypeId;
    pub uninterp spec fn val(&self) -> Val;
    #[verifier::external_body]
    pub fn v_downcast<T: 'static>(self) -> (r: Result<Box<T>, DynAny>)
        ensures match r {
            Ok(b) => self.ty() == tid::<T>() && *b == unerase::<T>(self.val()) && erase::<T>(*b) == self.val(),
            Err(e) => self.ty() != tid::<T>() && e == self,
        },
    { unimplemented!() }
}
/// Box<dyn Bucket>: always a Vec of some type. `insert_any` is `<Vec<T> as Bucket>::insert_any`.
#[verifier::external_body]
pub struct DynBucket { x: u64 }
impl DynBucket {
    pub uninterp spec fn elem(&self) -> TypeId;
    pub uninterp spec fn vals(&self) -> Seq<Val>;
    pub open spec fn downcast_spec<T>(&self) -> Option<Seq<T>> { if self.elem() == tid::<T>() { Some(typed::<T>(self.vals())) } else { None } }
    #[verifier::external_body]
    pub fn as_any<'a>(&'a self) -> (r: &'a DynBucket) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_any_mut<'a>(&'a mut self) -> (r: &'a mut DynBucket) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_any(&mut self, v: DynAny)
        requires old(self).elem() == v.ty()
        ensures final(self).elem() == old(self).elem(), final(self).vals() == old(self).vals().push(v.val()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_downcast_ref<'a, T: 'static>(&'a self) -> (r: Option<&'a Vec<T>>)
        ensures match r {
            Some(v) => self.elem() == tid::<T>() && v@ == typed::<T>(self.vals()),
            None => self.elem() != tid::<T>(),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_downcast_mut<'a, T: 'static>(&'a mut self) -> (r: Option<&'a mut Vec<T>>)
        ensures match r {
            Some(v) => old(self).elem() == tid::<T>() && v@ == typed::<T>(old(self).vals()) && erased::<T>(v@) == old(self).vals()
                && final(self).elem() == old(self).elem() && final(self).vals() == erased::<T>(final(v)@),
            None => old(self).elem() != tid::<T>() && *final(self) == *old(self),
        },
    { unimplemented!() }
}
pub trait VBox<D>: Sized { spec fn boxed_as(&self, d: D) -> bool; fn v_boxed(self) -> (r: D) ensures self.boxed_as(r); }
impl<T: 'static> VBox<DynBucket> for Vec<T> { open spec fn boxed_as(&self, d: DynBucket) -> bool { d.elem() == tid::<T>() && d.vals() == erased::<T>(self@) }
    #[verifier::external_body] fn v_boxed(self) -> (r: DynBucket) { unimplemented!() } }
impl<T: 'static> VBox<DynAny> for T { open spec fn boxed_as(&self, d: DynAny) -> bool { d.ty() == tid::<T>() && d.val() == erase::<T>(*self) }
    #[verifier::external_body] fn v_boxed(self) -> (r: DynAny) { unimplemented!() } }
pub fn v_box<A: VBox<D>, D>(a: A) -> (r: D) ensures a.boxed_as(r) { a.v_boxed() }

// ---------------------------------------------------------------- characters and strings
pub uninterp spec fn c_alpha(c: char) -> bool;
pub uninterp spec fn c_white(c: char) -> bool;
pub open spec fn c_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn c_punc(c: char) -> bool { c == ',' || c == '.' || c == '!' || c == ';' || c == ':' || c == '?' || c == '\'' || c == '"' }
/// facts of the Unicode tables
pub broadcast axiom fn char_classes(c: char)
    ensures
        #[trigger] c_alpha(c) ==> !c_white(c) && !c_digit(c) && !c_punc(c) && c != '-' && c != '\u{2013}',
;
pub broadcast axiom fn char_classes2(c: char)
    ensures
        #[trigger] c_white(c) ==> !c_alpha(c) && !c_digit(c) && !c_punc(c) && c != '-' && c != '\u{2013}',
;
/// bytes of a character in UTF-8
pub open spec fn utf8(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn bytes(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { bytes(s.drop_last()) + utf8(s.last()) } }
pub open spec fn str_len(s: Seq<char>) -> usize { bytes(s) as usize }
/// the character index that starts at a byte offset
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && bytes(#[trigger] s.take(i)) == b }
pub open spec fn byte_ix(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && bytes(#[trigger] s.take(i)) == b }
pub open spec fn str_sub(s: Seq<char>, lo: usize, hi: usize) -> Seq<char> { s.subrange(byte_ix(s, lo as int), byte_ix(s, hi as int)) }
pub proof fn bytes_ge(s: Seq<char>) ensures bytes(s) >= s.len(), bytes(s) <= 4 * s.len() decreases s.len() { if s.len() > 0 { bytes_ge(s.drop_last()); } }
pub broadcast proof fn bytes_zero(s: Seq<char>) ensures #[trigger] bytes(s) == 0 <==> s.len() == 0 { bytes_ge(s); }
pub broadcast proof fn bytes_one(s: Seq<char>) ensures #[trigger] bytes(s) == 1 <==> s.len() == 1 && (s[0] as u32) < 0x80
{
    bytes_ge(s);
    if s.len() > 0 { bytes_ge(s.drop_last()); if s.len() == 1 { assert(s.drop_last().len() == 0); } else { assert(s.drop_last().len() > 0); } }
}
pub broadcast proof fn byte_ix_zero(s: Seq<char>) ensures #[trigger] boundary(s, 0), byte_ix(s, 0) == 0
{
    assert(bytes(s.take(0)) == 0);
    let i = byte_ix(s, 0);
    assert(0 <= i <= s.len() && bytes(s.take(i)) == 0);
    bytes_ge(s.take(i));
}
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
/// the characters of a text, whatever holds it
pub trait VChars { spec fn chars_(&self) -> Seq<char>; }
impl VChars for Seq<char> { open spec fn chars_(&self) -> Seq<char> { *self } }
impl VChars for String { open spec fn chars_(&self) -> Seq<char> { self@ } }
impl<'a> VChars for &'a String { open spec fn chars_(&self) -> Seq<char> { self@ } }
impl<'a> VChars for &'a str { open spec fn chars_(&self) -> Seq<char> { self@ } }
pub open spec fn chars_of<S: VChars>(s: S) -> Seq<char> { s.chars_() }
/// the pieces UAX #29 cuts a text into
pub uninterp spec fn word_bounds(s: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn word_bounds_law(s: Seq<char>)
    ensures (#[trigger] word_bounds(s)).flatten() == s, forall|i: int| 0 <= i < word_bounds(s).len() ==> (#[trigger] word_bounds(s)[i]).len() > 0;

pub trait VStr {
    spec fn cs(&self) -> Seq<char>;
    fn v_chars(&self) -> (r: It<char>) ensures r@ == self.cs();
    fn v_split_word_bounds<'a>(&'a self) -> (r: It<&'a str>)
        ensures r@.len() == word_bounds(self.cs()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == word_bounds(self.cs())[i];
    fn v_str_len(&self) -> (r: usize) ensures r == bytes(self.cs());
    fn v_str_is_empty(&self) -> (r: bool) ensures r == (self.cs().len() == 0);
    fn v_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.cs());
    fn v_to_string(&self) -> (r: String) ensures r@ == self.cs();
    fn v_as_str<'a>(&'a self) -> (r: &'a str) ensures r@ == self.cs();
    fn v_str_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires boundary(self.cs(), a as int) ensures r@ == self.cs().skip(byte_ix(self.cs(), a as int));
    fn v_str_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str)
        requires a <= b, boundary(self.cs(), a as int), boundary(self.cs(), b as int) ensures r@ == str_sub(self.cs(), a, b);
}
impl VStr for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_chars(&self) -> (r: It<char>) { unimplemented!() }
    #[verifier::external_body] fn v_split_word_bounds<'a>(&'a self) -> (r: It<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_str_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_str_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_as_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_str_from<'a>(&'a self, a: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_str_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { unimplemented!() }
}
impl VStr for String {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_chars(&self) -> (r: It<char>) { unimplemented!() }
    #[verifier::external_body] fn v_split_word_bounds<'a>(&'a self) -> (r: It<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_str_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_str_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_as_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_str_from<'a>(&'a self, a: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_str_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { unimplemented!() }
}
pub trait VString {
    fn v_push(&mut self, c: char);
    fn v_push_str(&mut self, s: &str);
    fn v_extend<C: VIntoIter<X = char>>(&mut self, c: C);
}
impl VString for String {
    #[verifier::external_body] fn v_push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] fn v_push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] fn v_extend<C: VIntoIter<X = char>>(&mut self, c: C) ensures final(self)@ == old(self)@ + c.items() { unimplemented!() }
}
impl VDefault for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn v_dflt() -> (r: Self) { unimplemented!() } }
pub trait VChar {
    spec fn ch(&self) -> char;
    fn v_is_alphabetic(&self) -> (r: bool) ensures r == c_alpha(self.ch());
    fn v_is_whitespace(&self) -> (r: bool) ensures r == c_white(self.ch());
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == c_digit(self.ch());
    fn v_char_to_string(&self) -> (r: String) ensures r@ == seq![self.ch()];
}
impl VChar for char {
    open spec fn ch(&self) -> char { *self }
    #[verifier::external_body] fn v_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_char_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_string_from<S: VStr + ?Sized>(s: &S) -> (r: String) ensures r@ == s.cs() { unimplemented!() }
#[verifier::external_body]
pub fn v_string_from_char(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
/// String::from_iter over string slices
#[verifier::external_body]
pub fn v_string_from_iter(s: It<&str>) -> (r: String) ensures r@ == s@.map_values(|x: &str| x@).flatten() { unimplemented!() }
#[verifier::external_body]
pub fn v_str_eq<A: VStr + ?Sized, B: VStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.cs() == b.cs()) { unimplemented!() }
#[verifier::external_body]
pub fn v_repeat(c: char) -> (r: Repeat) ensures r.what() == c { unimplemented!() }
#[verifier::external_body]
pub struct Repeat { x: char }
impl Repeat {
    pub uninterp spec fn what(&self) -> char;
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<char>) ensures r@ == times(self.what(), n as int) { unimplemented!() }
}
pub trait VAsRefStr { spec fn text(&self) -> Seq<char>; fn v_as_ref<'a>(&'a self) -> (r: &'a str) ensures r@ == self.text(), bytes(r@) <= usize::MAX; }

// ---------------------------------------------------------------- printing
/// a String is nothing but its characters
pub axiom fn string_ext(a: String, b: String) requires a@ == b@ ensures a == b;
pub uninterp spec fn debug_string<T>(x: T) -> String;
pub open spec fn debug_text<T>(x: T) -> Seq<char> { debug_string(x)@ }
#[verifier::external_body]
pub fn v_debug<T>(x: &T) -> (r: String) ensures r == debug_string(*x) { unimplemented!() }
/// display columns of a text
pub uninterp spec fn width(s: Seq<char>) -> nat;
#[verifier::external_body]
pub fn v_width<S: VStr + ?Sized>(s: &S) -> (r: usize) ensures r == width(s.cs()), r < usize::MAX { unimplemented!() }
/// a space is one column wide and keeps what is right of it apart from what is left of it
pub broadcast axiom fn width_space(a: Seq<char>, b: Seq<char>)
    requires a.len() == 0 || a.last() == ' '
    ensures #[trigger] width(a + b) == width(a) + width(b);
pub axiom fn width_push_space(a: Seq<char>) ensures width(a.push(' ')) == width(a) + 1;
#[verifier::external_body]
pub struct FmtError { x: u8 }
pub type FmtResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter { x: u8 }
impl Formatter {
    /// everything written so far
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str<S: VStr + ?Sized>(&mut self, s: &S) -> (r: FmtResult) ensures r.is_ok() ==> final(self).out() == old(self).out() + s.cs() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult) ensures r.is_ok() ==> final(self).out() == old(self).out().push(c) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_write_lit(s: &mut String, l: &str) -> (r: FmtResult) ensures r.is_ok(), final(s)@ == old(s)@ + l@ { unimplemented!() }

// ---------------------------------------------------------------- dependencies of the resolver crates
#[verifier::external_body]
pub struct Decimal { x: u8 }
#[verifier::external_body]
pub struct DecimalError { x: u8 }
/// the number written by a text, if it is one that a Decimal can hold
pub uninterp spec fn decimal_of(s: Seq<char>) -> Option<Decimal>;
#[verifier::external_body]
pub fn v_parse_decimal(s: &String) -> (r: Result<Decimal, DecimalError>)
    ensures match r { Ok(d) => decimal_of(s@) == Some(d), Err(_) => decimal_of(s@).is_none() } { unimplemented!() }
/// a point at the end of digits does not change the number
pub axiom fn decimal_point_at_end(s: Seq<char>) requires s.len() > 0, all_digits(s) ensures decimal_of(s.push('.')) == decimal_of(s);
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_digit(#[trigger] s[i]) }
pub enum Tag { Noun, Verb, Adjective, Adverb, Other(u8) }
#[verifier::external_body]
pub struct TagSet { x: u8 }
impl TagSet {
    /// the tags of a set, in the order in which it yields them
    pub uninterp spec fn list(&self) -> Seq<Tag>;
    #[verifier::external_body]
    pub fn of(tags: &[Tag]) -> (r: TagSet) ensures forall|s: Seq<Tag>| s =~= tags@ ==> r == #[trigger] tag_set_of(s) { unimplemented!() }
    #[verifier::external_body]
    pub fn tags(&self) -> (r: It<Tag>) ensures r@ == self.list() { unimplemented!() }
}
pub uninterp spec fn tag_set_of(s: Seq<Tag>) -> TagSet;
pub broadcast axiom fn tag_set_of_one(s: Seq<Tag>) ensures s.len() == 1 ==> (#[trigger] tag_set_of(s)).list() == s;
pub uninterp spec fn dictionary(w: Seq<char>) -> Option<TagSet>;
pub broadcast axiom fn dictionary_law(w: Seq<char>) ensures (#[trigger] dictionary(w)).is_some() ==> dictionary(w).unwrap().list().len() > 0;
pub struct TagLookup { pub x: u8 }
impl TagLookup {
    pub open spec fn get_spec<Q: VKey<KV = Seq<char>> + ?Sized>(&self, w: &Q) -> Option<TagSet> { dictionary(w.kv()) }
    #[verifier::external_body]
    pub fn v_get<Q: VKey<KV = Seq<char>> + ?Sized>(&self, w: &Q) -> (r: Option<TagSet>) ensures r == self.get_spec(w) { unimplemented!() }
}
pub const ENGLISH_TAG_LOOKUP: TagLookup = TagLookup { x: 0 };

pub broadcast proof fn refs_has<T>(s: Seq<T>, x: &T) requires #[trigger] refs(s).contains(x) ensures s.contains(*x)
{ let i = choose|i: int| 0 <= i < refs(s).len() && refs(s)[i] == x; assert(s[i] == *x); }
pub broadcast proof fn filter_refs<'a, T>(s: Seq<T>, g: spec_fn(&'a T) -> bool)
    ensures #[trigger] refs::<T>(s).filter(g) == refs::<T>(s.filter(|x: T| g(&x)))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        filter_refs(s.drop_last(), g);
        assert(refs(s).drop_last() =~= refs(s.drop_last()));
        let f = |x: T| g(&x);
        assert(refs(s.drop_last().filter(f).push(s.last())) =~= refs(s.drop_last().filter(f)).push(&s.last()));
    } else { assert(refs(s).filter(g) =~= refs(s.filter(|x: T| g(&x)))); }
}
pub broadcast proof fn filter_ext_refs<'a, T>(s: Seq<T>, g: spec_fn(&'a T) -> bool, f: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < refs::<T>(s).len() ==> g(#[trigger] refs::<T>(s)[i]) == f(s[i])
    ensures #[trigger] refs::<T>(s).filter(g) == refs::<T>(#[trigger] s.filter(f))
{
    filter_refs(s, g);
    assert forall|i: int| 0 <= i < s.len() implies (|x: T| g(&x))(#[trigger] s[i]) == f(s[i]) by { assert(refs::<T>(s)[i] == &s[i]); }
    filter_ext(s, |x: T| g(&x), f);
}
/// where the `k`-th element of `s` that `f` keeps stands in `s`
pub open spec fn kept<T>(s: Seq<T>, f: spec_fn(T) -> bool, k: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if f(s.last()) && k == s.drop_last().filter(f).len() { s.len() - 1 } else { kept(s.drop_last(), f, k) }
}
pub proof fn kept_law<T>(s: Seq<T>, f: spec_fn(T) -> bool, k: int)
    requires 0 <= k < s.filter(f).len()
    ensures 0 <= kept(s, f, k) < s.len(), s.filter(f)[k] == s[kept(s, f, k)], f(s[kept(s, f, k)])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let p = s.drop_last();
        if !(f(s.last()) && k == p.filter(f).len()) { kept_law(p, f, k); }
    }
}
/// one item for every element that `f` keeps and none for the others: as many items as elements kept, in the same order
pub open spec fn one_per_kept<T, U>(s: Seq<T>, f: spec_fn(T) -> bool, m: Seq<Seq<U>>, k: int) -> bool {
    0 <= kept(s, f, k) < s.len() && s.filter(f)[k] == s[kept(s, f, k)] && m.flatten()[k] == m[kept(s, f, k)][0]
}
pub broadcast proof fn filter_flat<T, U>(s: Seq<T>, f: spec_fn(T) -> bool, m: Seq<Seq<U>>)
    requires m.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] m[i]).len() == (if f(s[i]) { 1int } else { 0 })
    ensures (#[trigger] m.flatten()).len() == (#[trigger] s.filter(f)).len(),
        forall|k: int| #![trigger m.flatten()[k]] #![trigger s.filter(f)[k]] 0 <= k < m.flatten().len() ==> one_per_kept(s, f, m, k),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let (p, n) = (s.drop_last(), m.drop_last());
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] n[i]).len() == (if f(p[i]) { 1int } else { 0 }) by { assert(n[i] == m[i] && p[i] == s[i]); }
        filter_flat(p, f, n);
        m.lemma_flatten_and_flatten_alt_are_equivalent();
        n.lemma_flatten_and_flatten_alt_are_equivalent();
        assert(m.flatten() == n.flatten() + m.last());
        assert forall|k: int| 0 <= k < m.flatten().len() implies #[trigger] one_per_kept(s, f, m, k) by {
            if k < n.flatten().len() { assert(m.flatten()[k] == n.flatten()[k]); assert(one_per_kept(p, f, n, k)); }
        }
    } else { reveal(Seq::flatten); assert(m.flatten().len() == 0); assert(s.filter(f).len() == 0); }
}
pub broadcast proof fn flatten_one<T>(s: Seq<Seq<T>>)
    ensures s.len() == 1 ==> #[trigger] s.flatten() == s[0], s.len() == 0 ==> s.flatten() == Seq::<T>::empty()
{
    reveal_with_fuel(Seq::flatten, 3);
    if s.len() == 1 { assert(s.drop_first().len() == 0); assert(s.flatten() =~= s[0]); }
}

pub broadcast group group_core {
    flatten_ext, erase_back, char_classes, char_classes2, bytes_zero, bytes_one, byte_ix_zero, word_bounds_law, eqv_str, refs_has, tag_set_of_one, dictionary_law,
}
pub broadcast group group_filter { filter_ext_refs, filter_ext, filter_has, filter_flat, flatten_one }
