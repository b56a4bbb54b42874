//! bodies for the library contracts of prelude.rs; see DESIGN.md, "The prelude's contracts proved"
//@ struct It
#[verifier::reject_recursive_types(T)]
pub struct It<T> { pub v: Vec<T> }
//@ spec impl<T> It<T> :: view
pub open spec fn view(&self) -> Seq<T> { self.v@ }
//@ impl<T> VIntoIter for Vec<T> :: v_into_iter
{ It { v: self } }
//@ impl<T> VIntoIter for Option<T> :: v_into_iter
{ let mut v = Vec::new(); if let Some(x) = self { v.push(x); } assert(v@ =~= opt_seq(self)); It { v } }
//@ impl<'a, T> VIntoIter for &'a [T] :: v_into_iter
{ self.v_iter() }
//@ impl<'a, T> VIntoIter for &'a Vec<T> :: v_into_iter
{ self.v_iter() }
//@ impl<T> It<T> :: map
{
    let ghost s = self@;
    let mut me = self;
    let mut out: Vec<U> = Vec::new();
    let n = me.v.len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int), out@.len() == i,
            forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (s[j],), #[trigger] out@[j]),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        out.push(f(x));
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    It { v: out }
}
//@ impl<T> It<T> :: flat_map
{
    let ghost s = self@;
    let mut me = self;
    let mut out: Vec<U::X> = Vec::new();
    let ghost mut m = Seq::<U>::empty();
    let n = me.v.len();
    let mut i = 0usize;
    assert(m.map_values(|u: U| u.items()) =~= Seq::empty());
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int), m.len() == i,
            forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (s[j],), #[trigger] m[j]),
            out@ == m.map_values(|u: U| u.items()).flatten(),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        let c = f(x);
        proof { flat_push(m, c); m = m.push(c); }
        out.v_extend(c);
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    It { v: out }
}
//@ impl<T> It<T> :: filter_map
{
    let ghost s = self@;
    let mut me = self;
    let mut out: Vec<U> = Vec::new();
    let ghost mut m = Seq::<Option<U>>::empty();
    let n = me.v.len();
    let mut i = 0usize;
    assert(m.map_values(|u: Option<U>| opt_seq(u)) =~= Seq::empty());
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int), m.len() == i,
            forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (s[j],), #[trigger] m[j]),
            out@ == m.map_values(|u: Option<U>| opt_seq(u)).flatten(),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        let c = f(x);
        proof {
            assert(m.push(c).map_values(|u: Option<U>| opt_seq(u)) =~= m.map_values(|u: Option<U>| opt_seq(u)).push(opt_seq(c)));
            flat_last(m.map_values(|u: Option<U>| opt_seq(u)), opt_seq(c));
            m = m.push(c);
        }
        let ghost o = out@;
        if let Some(y) = c { out.push(y); }
        assert(out@ =~= o + opt_seq(c));
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    It { v: out }
}
//@ impl<T> It<T> :: all
{
    let ghost s = self@;
    let mut me = self;
    let n = me.v.len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int),
            forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s[j],), true),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        if !f(x) { return false; }
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    true
}
//@ impl<T> It<T> :: any
{
    let ghost s = self@;
    let mut me = self;
    let n = me.v.len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int),
            forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s[j],), false),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        if f(x) { return true; }
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    false
}
//@ impl<T> It<T> :: flatten
{
    let ghost s = self@;
    let mut me = self;
    let mut out: Vec<T::X> = Vec::new();
    let n = me.v.len();
    let mut i = 0usize;
    assert(s.take(0).map_values(|x: T| x.items()) =~= Seq::empty());
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int),
            out@ == s.take(i as int).map_values(|x: T| x.items()).flatten(),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        proof { flat_push(s.take(i as int), x); assert(s.take(i + 1) =~= s.take(i as int).push(x)); }
        out.v_extend(x);
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    assert(s.take(n as int) =~= s);
    It { v: out }
}
//@ impl<T> It<T> :: chain
{ let mut me = self; me.v.v_extend(o); me }
//@ impl<T> It<T> :: rev
{
    let ghost s = self@;
    let mut me = self;
    let mut out: Vec<T> = Vec::new();
    let n = me.v.len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s.len(), me@ == s.take(n - i), out@ == s.skip(n - i).reverse(),
        decreases n - i
    {
        let x = me.v.pop().unwrap();
        assert(x == s[n - i - 1]);
        out.push(x);
        i += 1;
        assert(me@ =~= s.take(n - i));
        assert(out@ =~= s.skip(n - i).reverse());
    }
    assert(s.skip(0) =~= s);
    It { v: out }
}
//@ impl<T> It<T> :: v_sized
{
    let n = self.v.len();
}
//@ impl<T> It<T> :: enumerate
{
    let ghost s = self@;
    let mut me = self;
    let mut out: Vec<(usize, T)> = Vec::new();
    let n = me.v.len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s.len(), me@ == s.skip(i as int), out@ == enumerated(s.take(i as int)),
        decreases n - i
    {
        let x = me.v.remove(0);
        assert(x == s[i as int]);
        out.push((i, x));
        i += 1;
        assert(me@ =~= s.skip(i as int));
        assert(out@ =~= enumerated(s.take(i as int)));
    }
    assert(s.take(n as int) =~= s);
    It { v: out }
}
//@ impl<T> It<T> :: take
{
    let mut me = self;
    if n < me.v.len() { me.v.truncate(n); }
    assert(me@ =~= seq_take(self@, n));
    me
}
//@ impl<T> It<T> :: skip
{
    let ghost s = self@;
    let mut me = self;
    let mut i = 0usize;
    let len = me.v.len();
    while i < n && i < len
        invariant i <= n, i <= len, len == s.len(), me@ == s.skip(i as int),
        decreases len - i
    {
        let _ = me.v.remove(0);
        i += 1;
        assert(me@ =~= s.skip(i as int));
    }
    assert(me@ =~= seq_skip(s, n));
    me
}
//@ impl<T> It<T> :: next
{
    if self.v.len() == 0 { None } else {
        let x = self.v.remove(0);
        assert(self@ =~= old(self)@.drop_first());
        Some(x)
    }
}
//@ impl<T> It<T> :: last
{ let mut me = self; me.v.pop() }
//@ impl<T> It<T> :: count
{ self.v.len() }
//@ impl<T> It<T> :: collect
{ self.v }
//@ impl<'a, T> It<&'a T> :: cloned
{
    let ghost s = self@;
    let mut out: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < self.v.len()
        invariant i <= self.v@.len(), self@ == s, out@ == derefs(s.take(i as int)),
        decreases self.v@.len() - i
    {
        out.push((*self.v[i]).v_clone());
        i += 1;
        assert(out@ =~= derefs(s.take(i as int)));
    }
    assert(s.take(i as int) =~= s);
    It { v: out }
}
//@ impl<T> VSlice for Vec<T> :: v_iter
{
    let s: &[T] = self.as_slice();
    let mut out: Vec<&T> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, out@ == refs(s@.take(i as int)),
        decreases s@.len() - i
    {
        out.push(&s[i]);
        i += 1;
        assert(out@ =~= refs(s@.take(i as int)));
    }
    assert(s@.take(i as int) =~= s@);
    It { v: out }
}
//@ impl<T> VSlice for Vec<T> :: v_get
{ let s: &[T] = self.as_slice(); if i < s.len() { Some(&s[i]) } else { None } }
//@ impl<T> VSlice for Vec<T> :: v_first
{ let s: &[T] = self.as_slice(); if s.len() == 0 { None } else { Some(&s[0]) } }
//@ impl<T> VSlice for Vec<T> :: v_last
{ let s: &[T] = self.as_slice(); if s.len() == 0 { None } else { Some(&s[s.len() - 1]) } }
//@ impl<T> VSlice for Vec<T> :: v_is_empty
{ let s: &[T] = self.as_slice(); s.len() == 0 }
//@ impl<T> VSlice for Vec<T> :: v_to_vec
{
    let s: &[T] = self.as_slice();
    let mut out: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, out@ == s@.take(i as int),
        decreases s@.len() - i
    {
        out.push(s[i].v_clone());
        i += 1;
        assert(out@ =~= s@.take(i as int));
    }
    assert(s@.take(i as int) =~= s@);
    out
}
//@ impl<T> VSlice for Vec<T> :: v_contains
{
    let s: &[T] = self.as_slice();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, forall|j: int| 0 <= j < i ==> !eqv(#[trigger] s@[j], *x),
        decreases s@.len() - i
    {
        if v_eq(&s[i], x) { return true; }
        i += 1;
    }
    false
}
//@ impl<T> VSlice for Vec<T> :: v_windows
{
    let s: &[T] = self.as_slice();
    let mut out: Vec<&[T]> = Vec::new();
    if s.len() < n { return It { v: out }; }
    let k = s.len() - n;
    let mut i = 0usize;
    loop
        invariant s@ == self@, i <= k, k == s@.len() - n, out@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] out@[j])@ == s@.subrange(j, j + n),
        decreases k - i
    {
        out.push(slice_subrange(s, i, i + n));
        if i == k { break; }
        i += 1;
    }
    It { v: out }
}
//@ impl<T> VSlice for Vec<T> :: v_slice_range
{ let s: &[T] = self.as_slice(); slice_subrange(s, a, b) }
//@ impl<T> VSlice for Vec<T> :: v_slice_range_incl
{ let s: &[T] = self.as_slice(); let n = s.len(); slice_subrange(s, a, b + 1) }
//@ impl<T> VSlice for Vec<T> :: v_slice_from
{ let s: &[T] = self.as_slice(); slice_subrange(s, a, s.len()) }
//@ impl<T> VSlice for [T] :: v_iter
{
    let s: &[T] = self;
    let mut out: Vec<&T> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, out@ == refs(s@.take(i as int)),
        decreases s@.len() - i
    {
        out.push(&s[i]);
        i += 1;
        assert(out@ =~= refs(s@.take(i as int)));
    }
    assert(s@.take(i as int) =~= s@);
    It { v: out }
}
//@ impl<T> VSlice for [T] :: v_get
{ let s: &[T] = self; if i < s.len() { Some(&s[i]) } else { None } }
//@ impl<T> VSlice for [T] :: v_first
{ let s: &[T] = self; if s.len() == 0 { None } else { Some(&s[0]) } }
//@ impl<T> VSlice for [T] :: v_last
{ let s: &[T] = self; if s.len() == 0 { None } else { Some(&s[s.len() - 1]) } }
//@ impl<T> VSlice for [T] :: v_is_empty
{ let s: &[T] = self; s.len() == 0 }
//@ impl<T> VSlice for [T] :: v_to_vec
{
    let s: &[T] = self;
    let mut out: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, out@ == s@.take(i as int),
        decreases s@.len() - i
    {
        out.push(s[i].v_clone());
        i += 1;
        assert(out@ =~= s@.take(i as int));
    }
    assert(s@.take(i as int) =~= s@);
    out
}
//@ impl<T> VSlice for [T] :: v_contains
{
    let s: &[T] = self;
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, forall|j: int| 0 <= j < i ==> !eqv(#[trigger] s@[j], *x),
        decreases s@.len() - i
    {
        if v_eq(&s[i], x) { return true; }
        i += 1;
    }
    false
}
//@ impl<T> VSlice for [T] :: v_windows
{
    let s: &[T] = self;
    let mut out: Vec<&[T]> = Vec::new();
    if s.len() < n { return It { v: out }; }
    let k = s.len() - n;
    let mut i = 0usize;
    loop
        invariant s@ == self@, i <= k, k == s@.len() - n, out@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] out@[j])@ == s@.subrange(j, j + n),
        decreases k - i
    {
        out.push(slice_subrange(s, i, i + n));
        if i == k { break; }
        i += 1;
    }
    It { v: out }
}
//@ impl<T> VSlice for [T] :: v_slice_range
{ let s: &[T] = self; slice_subrange(s, a, b) }
//@ impl<T> VSlice for [T] :: v_slice_range_incl
{ let s: &[T] = self; let n = s.len(); slice_subrange(s, a, b + 1) }
//@ impl<T> VSlice for [T] :: v_slice_from
{ let s: &[T] = self; slice_subrange(s, a, s.len()) }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_iter
{
    let s: &[T] = self.as_slice();
    let mut out: Vec<&T> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, out@ == refs(s@.take(i as int)),
        decreases s@.len() - i
    {
        out.push(&s[i]);
        i += 1;
        assert(out@ =~= refs(s@.take(i as int)));
    }
    assert(s@.take(i as int) =~= s@);
    It { v: out }
}
//@ impl<T, const N: usize> VSlice for [T; N] :: v_get
{ let s: &[T] = self.as_slice(); if i < s.len() { Some(&s[i]) } else { None } }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_first
{ let s: &[T] = self.as_slice(); if s.len() == 0 { None } else { Some(&s[0]) } }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_last
{ let s: &[T] = self.as_slice(); if s.len() == 0 { None } else { Some(&s[s.len() - 1]) } }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_is_empty
{ let s: &[T] = self.as_slice(); s.len() == 0 }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_to_vec
{
    let s: &[T] = self.as_slice();
    let mut out: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, out@ == s@.take(i as int),
        decreases s@.len() - i
    {
        out.push(s[i].v_clone());
        i += 1;
        assert(out@ =~= s@.take(i as int));
    }
    assert(s@.take(i as int) =~= s@);
    out
}
//@ impl<T, const N: usize> VSlice for [T; N] :: v_contains
{
    let s: &[T] = self.as_slice();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), s@ == self@, forall|j: int| 0 <= j < i ==> !eqv(#[trigger] s@[j], *x),
        decreases s@.len() - i
    {
        if v_eq(&s[i], x) { return true; }
        i += 1;
    }
    false
}
//@ impl<T, const N: usize> VSlice for [T; N] :: v_windows
{
    let s: &[T] = self.as_slice();
    let mut out: Vec<&[T]> = Vec::new();
    if s.len() < n { return It { v: out }; }
    let k = s.len() - n;
    let mut i = 0usize;
    loop
        invariant s@ == self@, i <= k, k == s@.len() - n, out@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] out@[j])@ == s@.subrange(j, j + n),
        decreases k - i
    {
        out.push(slice_subrange(s, i, i + n));
        if i == k { break; }
        i += 1;
    }
    It { v: out }
}
//@ impl<T, const N: usize> VSlice for [T; N] :: v_slice_range
{ let s: &[T] = self.as_slice(); slice_subrange(s, a, b) }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_slice_range_incl
{ let s: &[T] = self.as_slice(); let n = s.len(); slice_subrange(s, a, b + 1) }
//@ impl<T, const N: usize> VSlice for [T; N] :: v_slice_from
{ let s: &[T] = self.as_slice(); slice_subrange(s, a, s.len()) }
//@ impl<T> VVec for Vec<T> :: v_get_mut
{ if i < self.len() { Some(&mut self[i]) } else { None } }
//@ impl<T> VVec for Vec<T> :: v_extend
{
    let mut it = c.v_into_iter();
    let ghost (old_s, s) = (self@, c.items());
    let ghost mut k = 0int;
    while it.v.len() > 0
        invariant 0 <= k <= s.len(), it@ == s.skip(k), self@ == old_s + s.take(k),
        decreases it.v@.len()
    {
        let x = it.v.remove(0);
        assert(x == s[k]);
        self.push(x);
        proof { k = k + 1; assert(it@ =~= s.skip(k)); assert(self@ =~= old_s + s.take(k)); }
    }
    assert(s.take(k) =~= s);
}
//@ v_vec1
{ let mut v = Vec::new(); v.push(a); assert(v@ =~= seq![a]); v }
//@ v_vec2
{ let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
//@ v_vec3
{ let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); assert(v@ =~= seq![a, b, c]); v }
//@ v_range
{
    let mut v: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= b ==> a <= i <= b, a > b ==> i == a && v@.len() == 0, a <= b ==> v@ =~= Seq::new((i - a) as nat, |i: int| (a + i) as usize),
        decreases b - i
    { v.push(i); i += 1; }
    assert(v@ =~= Seq::new((if a <= b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize));
    It { v }
}
//@ v_range_incl
{
    let mut v: Vec<usize> = Vec::new();
    if a <= b {
        let mut i = a;
        loop
            invariant a <= i <= b, v@ =~= Seq::new((i - a) as nat, |i: int| (a + i) as usize),
            decreases b - i
        { v.push(i); if i == b { break; } i += 1; }
    }
    assert(v@ =~= Seq::new((if a <= b { b - a + 1 } else { 0 }) as nat, |i: int| (a + i) as usize));
    It { v }
}
//@ impl<T> VDefault for Vec<T> :: v_dflt
{ Vec::new() }
//@ impl<T> VDefault for PhantomData<T> :: v_dflt
{ PhantomData }
//@ impl<'a, T> VCloned<T> for Option<&'a T> :: v_cloned
{ match self { Some(x) => Some((*x).v_clone()), None => None } }
//@ v_assert
{ }
//@ v_panic
{ loop decreases 0int { } }
//@ v_drop
{ }
//@ v_take
{ let mut y = T::v_dflt(); std::mem::swap(x, &mut y); y }
//@ impl VStr for str :: v_chars
{
    let s: &str = self;
    let mut out: Vec<char> = Vec::new();
    let n = s.unicode_len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s@.len(), s@ == self@, out@ == s@.take(i as int),
        decreases n - i
    {
        out.push(s.get_char(i));
        i += 1;
        assert(out@ =~= s@.take(i as int));
    }
    assert(s@.take(i as int) =~= s@);
    It { v: out }
}
//@ impl VStr for str :: v_str_len
{ let s: &str = self; proof { bytes_utf8(s@); } s.as_bytes().len() }
//@ impl VStr for str :: v_str_is_empty
{ let s: &str = self; s.is_empty() }
//@ impl VStr for str :: v_to_string
{ let s: &str = self; s.to_string() }
//@ impl VStr for str :: v_as_str
{ self }
//@ impl VStr for str :: v_str_from
{ let s: &str = self; let i = char_index(s, a); s.substring_char(i, s.unicode_len()) }
//@ impl VStr for str :: v_str_range
{
    let s: &str = self;
    let i = char_index(s, a);
    let j = char_index(s, b);
    proof { if i > j { bytes_mono(s@, j as int, i as int); } }
    s.substring_char(i, j)
}
//@ impl VStr for String :: v_chars
{
    let s: &str = self.as_str();
    let mut out: Vec<char> = Vec::new();
    let n = s.unicode_len();
    let mut i = 0usize;
    while i < n
        invariant i <= n, n == s@.len(), s@ == self@, out@ == s@.take(i as int),
        decreases n - i
    {
        out.push(s.get_char(i));
        i += 1;
        assert(out@ =~= s@.take(i as int));
    }
    assert(s@.take(i as int) =~= s@);
    It { v: out }
}
//@ impl VStr for String :: v_str_len
{ let s: &str = self.as_str(); proof { bytes_utf8(s@); } s.as_bytes().len() }
//@ impl VStr for String :: v_str_is_empty
{ let s: &str = self.as_str(); s.is_empty() }
//@ impl VStr for String :: v_to_string
{ let s: &str = self.as_str(); s.to_string() }
//@ impl VStr for String :: v_as_str
{ self.as_str() }
//@ impl VStr for String :: v_str_from
{ let s: &str = self.as_str(); let i = char_index(s, a); s.substring_char(i, s.unicode_len()) }
//@ impl VStr for String :: v_str_range
{
    let s: &str = self.as_str();
    let i = char_index(s, a);
    let j = char_index(s, b);
    proof { if i > j { bytes_mono(s@, j as int, i as int); } }
    s.substring_char(i, j)
}
//@ impl VString for String :: v_push
{ self.push(c) }
//@ impl VString for String :: v_push_str
{ self.push_str(s) }
//@ impl VString for String :: v_extend
{
    let mut it = c.v_into_iter();
    let ghost (old_s, s) = (self@, c.items());
    let ghost mut k = 0int;
    while it.v.len() > 0
        invariant 0 <= k <= s.len(), it@ == s.skip(k), self@ == old_s + s.take(k),
        decreases it.v@.len()
    {
        let x = it.v.remove(0);
        assert(x == s[k]);
        self.push(x);
        proof { k = k + 1; assert(it@ =~= s.skip(k)); assert(self@ =~= old_s + s.take(k)); }
    }
    assert(s.take(k) =~= s);
}
//@ impl VDefault for String :: v_dflt
{ String::new() }
//@ impl VChar for char :: v_is_ascii_digit
{ '0' <= *self && *self <= '9' }
//@ impl VChar for char :: v_char_to_string
{ v_string_from_char(*self) }
//@ v_string_from
{ s.v_to_string() }
//@ v_string_from_char
{ let mut r = String::new(); r.push(c); assert(r@ =~= seq![c]); r }
//@ v_string_from_iter
{
    let ghost q = s@;
    let mut me = s;
    let mut r = String::new();
    let ghost mut k = 0int;
    assert(q.take(0).map_values(|x: &str| x@) =~= Seq::empty());
    while me.v.len() > 0
        invariant 0 <= k <= q.len(), me@ == q.skip(k), r@ == q.take(k).map_values(|x: &str| x@).flatten(),
        decreases me.v@.len()
    {
        let x = me.v.remove(0);
        assert(x == q[k]);
        r.push_str(x);
        proof {
            assert(q.take(k + 1) =~= q.take(k).push(x));
            assert(q.take(k + 1).map_values(|x: &str| x@) =~= q.take(k).map_values(|x: &str| x@).push(x@));
            flat_last(q.take(k).map_values(|x: &str| x@), x@);
            k = k + 1;
            assert(me@ =~= q.skip(k));
        }
    }
    assert(q.take(k) =~= q);
    r
}
//@ v_str_eq
{ a.v_as_str() == b.v_as_str() }
//@ v_repeat
{ Repeat { x: c } }
//@ struct Repeat
pub struct Repeat { pub x: char }
//@ spec impl Repeat :: what
pub open spec fn what(&self) -> char { self.x }
//@ impl Repeat :: take
{
    let mut v: Vec<char> = Vec::new();
    let mut i = 0usize;
    while i < n
        invariant i <= n, v@ =~= times(self.x, i as int),
        decreases n - i
    { v.push(self.x); i += 1; }
    It { v }
}
//@ struct FmtError
pub struct FmtError { pub x: u8 }
//@ struct Formatter
pub struct Formatter { pub x: String }
//@ spec impl Formatter :: out
pub open spec fn out(&self) -> Seq<char> { self.x@ }
//@ impl Formatter :: write_str
{ self.x.push_str(s.v_as_str()); Ok(()) }
//@ impl Formatter :: write_char
{ self.x.push(c); Ok(()) }
//@ v_write_lit
{ s.push_str(l); Ok(()) }
//@ extra
pub open spec fn times(c: char, n: int) -> Seq<char> { if n <= 0 { Seq::empty() } else { Seq::new(n as nat, |i: int| c) } }
pub proof fn flat_last<T>(s: Seq<Seq<T>>, x: Seq<T>) ensures s.push(x).flatten() == s.flatten() + x {
    s.lemma_flatten_and_flatten_alt_are_equivalent();
    s.push(x).lemma_flatten_and_flatten_alt_are_equivalent();
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn flat_push<C: VIntoIter>(m: Seq<C>, c: C)
    ensures m.push(c).map_values(|u: C| u.items()).flatten() == m.map_values(|u: C| u.items()).flatten() + c.items()
{
    assert(m.push(c).map_values(|u: C| u.items()) =~= m.map_values(|u: C| u.items()).push(c.items()));
    flat_last(m.map_values(|u: C| u.items()), c.items());
}

pub proof fn bytes_utf8(s: Seq<char>) ensures vstd::utf8::encode_utf8(s).len() == bytes(s) decreases s.len()
{
    if s.len() > 0 {
        bytes_utf8(s.drop_last());
        assert(s =~= s.drop_last().push(s.last()));
        vstd::utf8::encode_utf8_push(s.drop_last(), s.last());
        vstd::utf8::char_is_scalar(s.last());
    }
}
pub proof fn bytes_mono(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures i < j ==> bytes(s.take(i)) < bytes(s.take(j)), i == j ==> bytes(s.take(i)) == bytes(s.take(j)) decreases j - i
{
    if i < j {
        bytes_mono(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
        assert(s.take(j).last() == s[j - 1]);
    }
}
pub fn char_index(s: &str, b: usize) -> (r: usize) requires boundary(s@, b as int) ensures r == byte_ix(s@, b as int), r <= s@.len()
{
    let n = s.unicode_len();
    let ghost w = byte_ix(s@, b as int);
    assert(0 <= w <= s@.len() && bytes(s@.take(w)) == b);
    let mut i = 0usize;
    let mut k = 0usize;
    while k < b
        invariant 0 <= i <= w <= s@.len(), n == s@.len(), k == bytes(s@.take(i as int)), bytes(s@.take(w)) == b,
        decreases w - i
    {
        proof { if i == w { } else { bytes_mono(s@, i + 1, w); assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); } }
        let c = s.get_char(i) as u32;
        k += if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 };
        i += 1;
    }
    proof { if i < w { bytes_mono(s@, i as int, w); } }
    i
}
