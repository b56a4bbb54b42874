// The vocabulary of the contracts: what the data structures stand for.

// ---------------------------------------------------------------- attribute stores
/// what inserting into a list of distinct values makes of it
pub open spec fn push_new<T>(s: Seq<T>, x: T) -> Seq<T> { if slice_has(s, &x) { s } else { s.push(x) } }

impl<T> TypeIdToMany<T> {
    pub open spec fn at(&self, t: TypeId) -> Seq<T> { if self.map@.dom().contains(t) { self.map@[t]@ } else { Seq::empty() } }
    pub open spec fn get_spec<U>(&self) -> Seq<T> { self.at(tid::<U>()) }
}
impl AnyAttribute {
    /// an attribute only ever holds a value of the type it reports, next to an empty list of that type
    pub open spec fn wf(&self) -> bool { self.0 == self.1.elem() && self.0 == self.2.ty() && self.1.vals().len() == 0 }
    pub open spec fn type_id_spec(&self) -> TypeId { self.0 }
}
impl TypeBucket {
    pub open spec fn wf(&self) -> bool { forall|t: TypeId| self.map@.dom().contains(t) ==> (#[trigger] self.map@[t]).elem() == t }
    pub open spec fn at(&self, t: TypeId) -> Seq<Val> { if self.map@.dom().contains(t) { self.map@[t].vals() } else { Seq::empty() } }
    pub open spec fn get_spec<T>(&self) -> Seq<T> { typed::<T>(self.at(tid::<T>())) }
    pub open spec fn get_debug_spec<T>(&self) -> Seq<String> { self.get_spec::<T>().map_values(|x: T| debug_string(x)) }
}

// ---------------------------------------------------------------- lines
/// (first token, last token)
pub type Rng = (usize, usize);
pub open spec fn starting(i: int) -> spec_fn(Rng) -> bool { |r: Rng| r.0 == i }
pub open spec fn ending(i: int) -> spec_fn(Rng) -> bool { |r: Rng| r.1 == i }
pub open spec fn single() -> spec_fn(Rng) -> bool { |r: Rng| r.0 == r.1 }
impl LLLineAttrs {
    /// the spans that carry values of a type, in order of first attachment
    pub open spec fn rng(&self, t: TypeId) -> Seq<Rng> { self.ranges.at(t) }
    pub open spec fn st(&self, i: int, t: TypeId) -> Seq<Rng> { self.starts_at@[i].at(t) }
    pub open spec fn en(&self, i: int, t: TypeId) -> Seq<Rng> { self.ends_at@[i].at(t) }
    /// the values of a type attached to a span
    pub open spec fn vals(&self, r: Rng, t: TypeId) -> Seq<Val> { if self.values@.dom().contains(r) { self.values@[r].at(t) } else { Seq::empty() } }
    /// the four indexes of a line of n tokens describe the same attachments
    pub open spec fn wf(&self, n: nat) -> bool {
        &&& n <= usize::MAX
        &&& self.starts_at@.len() == n
        &&& self.ends_at@.len() == n
        &&& forall|r: Rng| self.values@.dom().contains(r) ==> (#[trigger] self.values@[r]).wf()
        &&& forall|t: TypeId| (#[trigger] self.rng(t)).no_duplicates()
        &&& forall|t: TypeId, r: Rng| #[trigger] self.rng(t).contains(r) ==> r.0 <= r.1 < n && self.vals(r, t).len() > 0
        &&& forall|t: TypeId, i: int| 0 <= i < n ==> #[trigger] self.st(i, t) == self.rng(t).filter(starting(i))
        &&& forall|t: TypeId, i: int| 0 <= i < n ==> #[trigger] self.en(i, t) == self.rng(t).filter(ending(i))
        &&& forall|t: TypeId, r: Rng| (#[trigger] self.vals(r, t)).len() > 0 ==> self.rng(t).contains(r)
    }
}
impl LLLine {
    pub open spec fn wf(&self) -> bool { self.attrs.wf(self.ll_tokens@.len()) }
    pub open spec fn n(&self) -> nat { self.ll_tokens@.len() }
    /// the spans of type T that start (or end) at a token
    pub open spec fn touching<T>(&self, fwd: bool, i: usize) -> Seq<Rng> {
        if fwd { self.attrs.rng(tid::<T>()).filter(starting(i as int)) } else { self.attrs.rng(tid::<T>()).filter(ending(i as int)) }
    }
    pub open spec fn vals_of<T>(&self, r: Rng) -> Seq<T> { typed::<T>(self.attrs.vals(r, tid::<T>())) }
    pub open spec fn ll_tokens_spec(&self) -> Seq<LLToken> { self.ll_tokens@ }
}
/// the far end of a span, seen from the end that was matched
pub open spec fn far(fwd: bool, r: Rng) -> ToIdx { ToIdx(if fwd { r.1 } else { r.0 }) }
pub open spec fn attr_model<'l, T>(fwd: bool, i: usize, line: &'l LLLine) -> Seq<(&'l T, ToIdx)> {
    line.touching::<T>(fwd, i).map_values(|r: Rng| line.vals_of::<T>(r).map_values(|v: T| (&v, far(fwd, r)))).flatten()
}
pub open spec fn attr_eq_model<T>(fwd: bool, i: usize, x: T, line: &LLLine) -> Seq<((), ToIdx)> {
    line.touching::<T>(fwd, i).map_values(|r: Rng| line.vals_of::<T>(r).map_values(|v: T| if eqv(v, x) { seq![((), far(fwd, r))] } else { Seq::empty() }).flatten()).flatten()
}
pub open spec fn one_of_model<'l, T>(i: usize, set: Seq<T>, line: &'l LLLine) -> Seq<(&'l T, ToIdx)> {
    line.vals_of::<T>((i, i)).map_values(|v: T| if slice_has(set, &v) { seq![(&v, ToIdx(i))] } else { Seq::empty() }).flatten()
}
pub open spec fn text_model<'l>(i: usize, line: &'l LLLine) -> Seq<(&'l str, ToIdx)> {
    match line.ll_tokens@[i as int].token { LToken::Text(s, _) => seq![(string_str(&s), ToIdx(i))], LToken::Value => Seq::empty() }
}
/// the slice of a string
pub uninterp spec fn string_str<'l>(s: &'l String) -> &'l str;
pub broadcast axiom fn string_str_is(s: &String) ensures (#[trigger] string_str(s))@ == s@;
/// a str is nothing but its characters
pub axiom fn str_ext(a: &str, b: &str) requires a@ == b@ ensures a == b;
pub open spec fn is_text_model(r: Option<(&str, ToIdx)>, i: usize, line: &LLLine) -> bool {
    match line.ll_tokens@[i as int].token { LToken::Text(s, _) => r.is_some() && r.unwrap().0@ == s@ && r.unwrap().1 == ToIdx(i), LToken::Value => r.is_none() }
}
pub proof fn text_lemma(r: Option<(&str, ToIdx)>, i: usize, line: &LLLine)
    requires is_text_model(r, i, line) ensures opt_seq(r) == text_model(i, line)
{
    broadcast use string_str_is;
    match line.ll_tokens@[i as int].token { LToken::Text(s, _) => { str_ext(r.unwrap().0, string_str(&s)); }, LToken::Value => {} }
}
pub proof fn text_lemma2(s: Seq<(&str, ToIdx)>, i: usize, line: &LLLine)
    requires exists|r: Option<(&str, ToIdx)>| #[trigger] is_text_model(r, i, line) && s == opt_seq(r) ensures s == text_model(i, line)
{
    let r = choose|r: Option<(&str, ToIdx)>| #[trigger] is_text_model(r, i, line) && s == opt_seq(r);
    text_lemma(r, i, line);
}
/// the next position to match from, after a match that reached idx
pub open spec fn after_is(fwd: bool, idx: usize, n: nat, r: Option<(bool, usize)>) -> bool {
    match r {
        Some((f, at)) => f == fwd && at < n && at as int == (if fwd { idx + 1 } else { idx - 1 }),
        None => if fwd { idx + 1 == n } else { idx == 0 },
    }
}
/// a match from token i reaches x
pub open spec fn reach(fwd: bool, i: usize, n: nat, x: ToIdx) -> bool { if fwd { i <= x.0 < n } else { x.0 <= i } }
pub open spec fn all_reach<O>(fwd: bool, i: usize, line: &LLLine, s: Seq<(O, ToIdx)>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> reach(fwd, i, line.n(), (#[trigger] s[k]).1)
}
pub proof fn flatten_all<T>(s: Seq<Seq<T>>, p: spec_fn(T) -> bool)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() ==> p(#[trigger] s[i][j]),
    ensures forall|k: int| 0 <= k < s.flatten().len() ==> p(#[trigger] s.flatten()[k]),
    decreases s.len(),
{
    reveal(Seq::flatten);
    if s.len() > 0 {
        let d = s.drop_first();
        assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].len() implies p(#[trigger] d[i][j]) by { assert(d[i] == s[i + 1]); assert(p(s[i + 1][j])); }
        flatten_all(d, p);
        assert(s.flatten() =~= s.first() + d.flatten());
        assert forall|k: int| 0 <= k < s.flatten().len() implies p(#[trigger] s.flatten()[k]) by {
            if k < s.first().len() { assert(p(s[0][k])); } else { assert(p(d.flatten()[k - s.first().len()])); }
        }
    }
}
pub proof fn touching_lemma<T>(fwd: bool, i: usize, line: &LLLine, r: Rng)
    requires line.wf(), i < line.n(), line.touching::<T>(fwd, i).contains(r)
    ensures line.attrs.values@.dom().contains(r), line.attrs.values@[r].wf(), reach(fwd, i, line.n(), far(fwd, r)), line.attrs.rng(tid::<T>()).contains(r), if fwd { r.0 == i } else { r.1 == i }
{
    let s = line.attrs.rng(tid::<T>());
    filter_has(s, r, starting(i as int));
    filter_has(s, r, ending(i as int));
    assert(line.attrs.vals(r, tid::<T>()).len() > 0);
}
/// every span listed at a token has values
pub proof fn spans_lemma<T>(fwd: bool, i: usize, line: &LLLine)
    requires line.wf(), i < line.n()
    ensures (if fwd { line.attrs.st(i as int, tid::<T>()) } else { line.attrs.en(i as int, tid::<T>()) }) == line.touching::<T>(fwd, i),
        forall|r: Rng| #[trigger] line.touching::<T>(fwd, i).contains(r) ==> line.attrs.values@.dom().contains(r) && line.attrs.values@[r].wf(),
        forall|k: int| 0 <= k < line.touching::<T>(fwd, i).len() ==> line.attrs.values@.dom().contains(#[trigger] line.touching::<T>(fwd, i)[k]),
        line.attrs.values@.dom().contains((i, i)) ==> line.attrs.values@[(i, i)].wf(),
{
    assert forall|k: int| 0 <= k < line.touching::<T>(fwd, i).len() implies line.attrs.values@.dom().contains(#[trigger] line.touching::<T>(fwd, i)[k]) by {
        assert(line.touching::<T>(fwd, i).contains(line.touching::<T>(fwd, i)[k])); touching_lemma::<T>(fwd, i, line, line.touching::<T>(fwd, i)[k]);
    }
    assert forall|r: Rng| #[trigger] line.touching::<T>(fwd, i).contains(r) implies line.attrs.values@.dom().contains(r) && line.attrs.values@[r].wf() by { touching_lemma::<T>(fwd, i, line, r); }
}
pub proof fn attr_lemma<T>(fwd: bool, i: usize, line: &LLLine)
    requires line.wf(), i < line.n()
    ensures all_reach(fwd, i, line, attr_model::<T>(fwd, i, line))
{
    let s = line.touching::<T>(fwd, i).map_values(|r: Rng| line.vals_of::<T>(r).map_values(|v: T| (&v, far(fwd, r))));
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s[a].len() implies (|x: (&T, ToIdx)| reach(fwd, i, line.n(), x.1))(#[trigger] s[a][b]) by {
        let r = line.touching::<T>(fwd, i)[a];
        assert(line.touching::<T>(fwd, i).contains(r));
        touching_lemma::<T>(fwd, i, line, r);
    }
    flatten_all(s, |x: (&T, ToIdx)| reach(fwd, i, line.n(), x.1));
}
pub proof fn attr_eq_lemma<T>(fwd: bool, i: usize, x: T, line: &LLLine)
    requires line.wf(), i < line.n()
    ensures all_reach(fwd, i, line, attr_eq_model::<T>(fwd, i, x, line))
{
    let p = |y: ((), ToIdx)| reach(fwd, i, line.n(), y.1);
    let s = line.touching::<T>(fwd, i).map_values(|r: Rng| line.vals_of::<T>(r).map_values(|v: T| if eqv(v, x) { seq![((), far(fwd, r))] } else { Seq::empty() }).flatten());
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s[a].len() implies p(#[trigger] s[a][b]) by {
        let r = line.touching::<T>(fwd, i)[a];
        assert(line.touching::<T>(fwd, i).contains(r));
        touching_lemma::<T>(fwd, i, line, r);
        flatten_all(line.vals_of::<T>(r).map_values(|v: T| if eqv(v, x) { seq![((), far(fwd, r))] } else { Seq::empty() }), p);
    }
    flatten_all(s, p);
}
pub proof fn one_of_lemma<T>(i: usize, set: Seq<T>, line: &LLLine)
    requires line.wf(), i < line.n()
    ensures all_reach(true, i, line, one_of_model::<T>(i, set, line)), all_reach(false, i, line, one_of_model::<T>(i, set, line))
{
    flatten_all(line.vals_of::<T>((i, i)).map_values(|v: T| if slice_has(set, &v) { seq![(&v, ToIdx(i))] } else { Seq::empty() }), |y: (&T, ToIdx)| y.1 == ToIdx(i));
}
/// at most one span ends at a token and is no longer than it
pub proof fn one_of_bwd_lemma<T>(i: usize, set: Seq<T>, line: &LLLine)
    requires line.wf(), i < line.n()
    ensures line.touching::<T>(false, i).filter(single()) == (if line.attrs.rng(tid::<T>()).contains((i, i)) { seq![(i, i)] } else { Seq::empty() }),
{
    let s = line.touching::<T>(false, i);
    let f = s.filter(single());
    let all = line.attrs.rng(tid::<T>());
    filter_distinct(all, ending(i as int));
    filter_distinct(s, single());
    assert forall|r: Rng| f.contains(r) == (r == (i, i) && all.contains(r)) by {
        filter_has(all, r, ending(i as int));
        filter_has(s, r, single());
    }
    if all.contains((i, i)) {
        assert(f.contains((i, i)));
        let k = choose|k: int| 0 <= k < f.len() && f[k] == (i, i);
        assert forall|j: int| 0 <= j < f.len() implies #[trigger] f[j] == (i, i) by { assert(f.contains(f[j])); }
        assert(f.len() == 1) by { if f.len() > 1 { assert(f[0] == f[1]); } }
        assert(f =~= seq![(i, i)]);
    } else {
        if f.len() > 0 { assert(f.contains(f[0])); }
        assert(f =~= Seq::empty());
    }
}
pub proof fn filter_distinct<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    requires s.no_duplicates() ensures s.filter(f).no_duplicates()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let p = s.drop_last();
        filter_distinct(p, f);
        assert(!p.contains(s.last())) by { if p.contains(s.last()) { let i = choose|i: int| 0 <= i < p.len() && p[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
        filter_has(p, s.last(), f);
        assert forall|i: int, j: int| 0 <= i < s.filter(f).len() && 0 <= j < s.filter(f).len() && i != j implies s.filter(f)[i] != s.filter(f)[j] by {
            let q = p.filter(f);
            if f(s.last()) { assert(s.filter(f) =~= q.push(s.last())); if i < q.len() { assert(q.contains(q[i])); } if j < q.len() { assert(q.contains(q[j])); } }
        }
    }
}

// ---------------------------------------------------------------- selections
pub open spec fn sel(line: Rc<LLLine>, a: int, b: int) -> LLSelection { LLSelection { ll_line: line, start_idx: a as usize, end_idx: b as usize } }
impl LLSelection {
    /// never empty, inside the line
    pub open spec fn wf(&self) -> bool { self.ll_line.wf() && self.start_idx <= self.end_idx < self.ll_line.n() }
    pub open spec fn holds(&self, t: int) -> bool { self.start_idx <= t <= self.end_idx }
}
/// a line seen through its handle
pub open spec fn line_of<'a>(l: Rc<LLLine>) -> &'a LLLine { &*l }
/// every selection found is valid, of the same line
pub open spec fn all_wf<O>(s: Seq<(LLSelection, O)>, line: Rc<LLLine>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0.wf() && s[k].0.ll_line == line
}
pub open spec fn forwards_from<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, from: int, start: int) -> Seq<(LLSelection, M::Out)> {
    m.go_spec(&XForwards { from_idx: from as usize }, &line).map_values(|p: (M::Out, ToIdx)| (sel(line, start, p.1.0 as int), p.0))
}
pub open spec fn backwards_from<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, from: int, end: int) -> Seq<(LLSelection, M::Out)> {
    m.go_spec(&XBackwards { from_idx: from as usize }, &line).map_values(|p: (M::Out, ToIdx)| (sel(line, p.1.0 as int, end), p.0))
}
/// all matches that start in the tokens a..=b, by starting token
pub open spec fn find_model<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, a: int, b: int) -> Seq<(LLSelection, M::Out)> {
    Seq::new((b - a + 1) as nat, |k: int| forwards_from(m, line, a + k, a + k)).flatten()
}
pub open spec fn two_way_model<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, a: int, b: int) -> Seq<(LLSelection, M::Out)> {
    Seq::new((b - a + 1) as nat, |k: int| forwards_from(m, line, a + k, a + k) + backwards_from(m, line, a + k, a + k)).flatten()
}
pub open spec fn clamp(s: &LLSelection, a: int, b: int) -> Option<LLSelection> {
    let lo = if a >= s.start_idx { a } else { s.start_idx as int };
    let hi = if b <= s.end_idx { b } else { s.end_idx as int };
    if lo <= hi { Some(sel(s.ll_line, lo, hi)) } else { None }
}
pub open spec fn trim_model<'a, M: XMatch<'a>>(m: &M, s: &LLSelection, from_start: bool, from_end: bool) -> Option<LLSelection> {
    let f = m.go_spec(&XForwards { from_idx: s.start_idx }, &s.ll_line);
    let b = m.go_spec(&XBackwards { from_idx: s.end_idx }, &s.ll_line);
    let lo = if from_start && f.len() > 0 { f[0].1.0 + 1 } else { s.start_idx as int };
    let hi = if from_end && b.len() > 0 { b[0].1.0 - 1 } else { s.end_idx as int };
    if lo <= hi { Some(sel(s.ll_line, lo, hi)) } else { None }
}
pub proof fn forwards_wf<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, from: int, start: int)
    requires line.wf(), 0 <= start <= from < line.n()
    ensures all_wf(forwards_from(m, line, from, start), line)
{ m.go_reach(&XForwards { from_idx: from as usize }, line_of(line)); }
pub proof fn backwards_wf<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, from: int, end: int)
    requires line.wf(), 0 <= from <= end < line.n()
    ensures all_wf(backwards_from(m, line, from, end), line)
{ m.go_reach(&XBackwards { from_idx: from as usize }, line_of(line)); }
pub proof fn find_wf<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, a: int, b: int)
    requires line.wf(), 0 <= a <= b < line.n()
    ensures all_wf(find_model(m, line, a, b), line)
{
    let s = Seq::new((b - a + 1) as nat, |k: int| forwards_from(m, line, a + k, a + k));
    let p = |x: (LLSelection, M::Out)| x.0.wf() && x.0.ll_line == line;
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() implies p(#[trigger] s[i][j]) by { forwards_wf(m, line, a + i, a + i); }
    flatten_all(s, p);
    assert forall|k: int| 0 <= k < find_model(m, line, a, b).len() implies (#[trigger] find_model(m, line, a, b)[k]).0.wf() && find_model(m, line, a, b)[k].0.ll_line == line by { assert(p(s.flatten()[k])); }
}
pub proof fn two_way_wf<'a, M: XMatch<'a>>(m: &M, line: Rc<LLLine>, a: int, b: int)
    requires line.wf(), 0 <= a <= b < line.n()
    ensures all_wf(two_way_model(m, line, a, b), line)
{
    let s = Seq::new((b - a + 1) as nat, |k: int| forwards_from(m, line, a + k, a + k) + backwards_from(m, line, a + k, a + k));
    let p = |x: (LLSelection, M::Out)| x.0.wf() && x.0.ll_line == line;
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() implies p(#[trigger] s[i][j]) by {
        forwards_wf(m, line, a + i, a + i); backwards_wf(m, line, a + i, a + i);
        let f = forwards_from(m, line, a + i, a + i);
        if j < f.len() { assert(s[i][j] == f[j]); } else { assert(s[i][j] == backwards_from(m, line, a + i, a + i)[j - f.len()]); }
    }
    flatten_all(s, p);
    assert forall|k: int| 0 <= k < two_way_model(m, line, a, b).len() implies (#[trigger] two_way_model(m, line, a, b)[k]).0.wf() && two_way_model(m, line, a, b)[k].0.ll_line == line by { assert(p(s.flatten()[k])); }
}
impl LLSelection {
    pub open spec fn finish_with_attr_spec<A>(&self, value: A) -> LLCursorAssignment<A> { LLCursorAssignment { start_idx: self.start_idx, end_idx: self.end_idx, value: value } }
    pub open spec fn selection_from_spec(&self, start_idx: usize, end_idx: usize) -> Option<LLSelection> { clamp(self, start_idx as int, end_idx as int) }
}

// ---------------------------------------------------------------- splitting
/// a match covers a token
pub open spec fn covered<O>(m: Seq<(LLSelection, O)>, t: int) -> bool { exists|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0.holds(t) }
/// how far the matches up to i reach
pub open spec fn furthest<O>(m: Seq<(LLSelection, O)>, i: int) -> int decreases i {
    if i <= 0 { m[0].0.end_idx as int } else if furthest(m, i - 1) >= m[i].0.end_idx { furthest(m, i - 1) } else { m[i].0.end_idx as int }
}
pub open spec fn gap<O>(s: &LLSelection, m: Seq<(LLSelection, O)>, i: int) -> Option<LLSelection> {
    clamp(s, if i == 0 { s.start_idx as int } else { furthest(m, i - 1) + 1 }, if i == m.len() { s.end_idx as int } else { m[i].0.start_idx - 1 })
}
pub open spec fn gaps<O>(s: &LLSelection, m: Seq<(LLSelection, O)>, upto: int) -> Seq<LLSelection> decreases upto {
    if upto <= 0 { Seq::empty() } else { gaps(s, m, upto - 1) + opt_seq(gap(s, m, upto - 1)) }
}
/// matches found in a selection, by starting token
pub open spec fn found_in<O>(s: &LLSelection, m: Seq<(LLSelection, O)>) -> bool {
    &&& forall|j: int| 0 <= j < m.len() ==> s.start_idx <= (#[trigger] m[j]).0.start_idx <= s.end_idx && m[j].0.start_idx <= m[j].0.end_idx < s.ll_line.n() && m[j].0.ll_line == s.ll_line
    &&& forall|i: int, j: int| 0 <= i <= j < m.len() ==> (#[trigger] m[i]).0.start_idx <= (#[trigger] m[j]).0.start_idx
}
pub open spec fn pieces_inside(s: &LLSelection, r: Seq<LLSelection>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).wf() && r[k].ll_line == s.ll_line && s.start_idx <= r[k].start_idx && r[k].end_idx <= s.end_idx
}
pub open spec fn pieces_apart(r: Seq<LLSelection>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).end_idx + 1 < (#[trigger] r[j]).start_idx }
pub open spec fn pieces_clean<O>(m: Seq<(LLSelection, O)>, r: Seq<LLSelection>) -> bool { forall|k: int, t: int| 0 <= k < r.len() && #[trigger] r[k].holds(t) ==> !covered(m, t) }
pub open spec fn in_piece(r: Seq<LLSelection>, t: int) -> bool { exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).holds(t) }
/// r is the maximal stretches of s without a token covered by m, from left to right
pub open spec fn is_split<O>(s: &LLSelection, m: Seq<(LLSelection, O)>, r: Seq<LLSelection>) -> bool {
    &&& pieces_inside(s, r)
    &&& pieces_apart(r)
    &&& pieces_clean(m, r)
    &&& forall|t: int| s.start_idx <= t <= s.end_idx && !covered(m, t) ==> #[trigger] in_piece(r, t)
}
pub proof fn furthest_lemma<O>(m: Seq<(LLSelection, O)>, i: int)
    requires 0 <= i < m.len()
    ensures forall|j: int| 0 <= j <= i ==> (#[trigger] m[j]).0.end_idx <= furthest(m, i), exists|j: int| 0 <= j <= i && (#[trigger] m[j]).0.end_idx == furthest(m, i),
        furthest(m, i) >= 0,
    decreases i
{
    if i > 0 {
        furthest_lemma(m, i - 1);
        assert forall|j: int| 0 <= j <= i implies (#[trigger] m[j]).0.end_idx <= furthest(m, i) by {}
        let w = choose|j: int| 0 <= j <= i - 1 && (#[trigger] m[j]).0.end_idx == furthest(m, i - 1);
        if furthest(m, i - 1) >= m[i].0.end_idx { assert(m[w].0.end_idx == furthest(m, i)); } else { assert(m[i].0.end_idx == furthest(m, i)); }
    } else { assert(m[0].0.end_idx == furthest(m, 0)); }
}
pub proof fn gaps_lemma<O>(s: &LLSelection, m: Seq<(LLSelection, O)>, upto: int)
    requires s.wf(), found_in(s, m), 1 <= upto <= m.len() + 1
    ensures
        pieces_inside(s, gaps(s, m, upto)), pieces_apart(gaps(s, m, upto)), pieces_clean(m, gaps(s, m, upto)),
        upto <= m.len() ==> forall|k: int| 0 <= k < gaps(s, m, upto).len() ==> (#[trigger] gaps(s, m, upto)[k]).end_idx < m[upto - 1].0.start_idx,
        forall|t: int| s.start_idx <= t <= s.end_idx && !covered(m, t) && (upto > m.len() || t < m[upto - 1].0.start_idx) ==> #[trigger] in_piece(gaps(s, m, upto), t),
    decreases upto
{
    let i = upto - 1;
    let g = gap(s, m, i);
    let old = gaps(s, m, upto - 1);
    let new = gaps(s, m, upto);
    if upto > 1 { gaps_lemma(s, m, upto - 1); furthest_lemma(m, i - 1); } else { assert(old.len() == 0); }
    assert(new =~= old + opt_seq(g));
    if g.is_some() {
        assert forall|t: int| #[trigger] g.unwrap().holds(t) implies !covered(m, t) by {
            if covered(m, t) {
                let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0.holds(t);
                if j < i { assert(m[j].0.end_idx <= furthest(m, i - 1)); } else { assert(m[i].0.start_idx <= m[j].0.start_idx); }
            }
        }
        assert(new =~= old.push(g.unwrap()));
        if upto > 1 {
            assert(m[i - 1].0.end_idx <= furthest(m, i - 1));
            assert(forall|k: int| 0 <= k < old.len() ==> (#[trigger] old[k]).end_idx + 1 < g.unwrap().start_idx);
        }
    } else { assert(new =~= old); }
    if upto > 1 && upto <= m.len() { assert(m[i - 1].0.start_idx <= m[i].0.start_idx); }
    assert forall|t: int| s.start_idx <= t <= s.end_idx && !covered(m, t) && (upto > m.len() || t < m[upto - 1].0.start_idx) implies #[trigger] in_piece(new, t) by {
        if upto > 1 && t < m[i - 1].0.start_idx {
            assert(in_piece(old, t));
            let k = choose|k: int| 0 <= k < old.len() && (#[trigger] old[k]).holds(t);
            assert(new[k].holds(t));
        } else {
            if upto > 1 && t <= furthest(m, i - 1) {
                let w = choose|j: int| 0 <= j <= i - 1 && (#[trigger] m[j]).0.end_idx == furthest(m, i - 1);
                assert(m[w].0.start_idx <= m[i - 1].0.start_idx);
                assert(m[w].0.holds(t));
            }
            assert(g.is_some());
            assert(new[old.len() as int].holds(t));
        }
    }
}
pub proof fn gaps_split<O>(s: &LLSelection, m: Seq<(LLSelection, O)>)
    requires s.wf(), found_in(s, m)
    ensures is_split(s, m, gaps(s, m, m.len() as int + 1))
{ gaps_lemma(s, m, m.len() as int + 1); }
/// what splitting needs to know of the matches
pub open spec fn inside<O>(s: &LLSelection, m: Seq<(LLSelection, O)>) -> bool {
    forall|j: int| 0 <= j < m.len() ==> s.start_idx <= (#[trigger] m[j]).0.start_idx <= s.end_idx && m[j].0.end_idx < s.ll_line.n()
}
pub proof fn split_setup<'a, M: XMatch<'a>>(m: &M, s: &LLSelection)
    requires s.wf()
    ensures ({ let f = find_model(m, s.ll_line, s.start_idx as int, s.end_idx as int); inside(s, f) && is_split(s, f, gaps(s, f, f.len() as int + 1))
        && forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] furthest(f, i) < s.ll_line.n() <= usize::MAX })
{
    let f = find_model(m, s.ll_line, s.start_idx as int, s.end_idx as int);
    found_lemma(m, s); furthest_bound(s, f); gaps_split(s, f);
}
pub proof fn flatten_by_key<T>(s: Seq<Seq<T>>, key: spec_fn(T) -> int, lo: int)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() ==> key(#[trigger] s[i][j]) == lo + i,
    ensures forall|k: int| 0 <= k < s.flatten().len() ==> lo <= key(#[trigger] s.flatten()[k]) < lo + s.len(),
        forall|k: int, l: int| 0 <= k <= l < s.flatten().len() ==> key(#[trigger] s.flatten()[k]) <= key(#[trigger] s.flatten()[l]),
    decreases s.len(),
{
    reveal(Seq::flatten);
    if s.len() > 0 {
        let d = s.drop_first();
        assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].len() implies key(#[trigger] d[i][j]) == lo + 1 + i by { assert(key(s[i + 1][j]) == lo + i + 1); }
        flatten_by_key(d, key, lo + 1);
        let f = s.flatten();
        assert(f =~= s.first() + d.flatten());
        let n = s.first().len();
        assert forall|k: int| 0 <= k < f.len() implies lo <= key(#[trigger] f[k]) < lo + s.len() by { if k < n { assert(key(s[0][k]) == lo); } else { assert(f[k] == d.flatten()[k - n]); } }
        assert forall|k: int, l: int| 0 <= k <= l < f.len() implies key(#[trigger] f[k]) <= key(#[trigger] f[l]) by {
            if l < n { assert(key(s[0][l]) == lo); assert(key(s[0][k]) == lo); }
            else if k < n { assert(key(s[0][k]) == lo); }
            else { assert(f[k] == d.flatten()[k - n]); assert(f[l] == d.flatten()[l - n]); }
        }
    }
}
pub proof fn found_lemma<'a, M: XMatch<'a>>(m: &M, s: &LLSelection)
    requires s.wf()
    ensures found_in(s, find_model(m, s.ll_line, s.start_idx as int, s.end_idx as int))
{
    let (a, b) = (s.start_idx as int, s.end_idx as int);
    find_wf(m, s.ll_line, a, b);
    let q = Seq::new((b - a + 1) as nat, |k: int| forwards_from(m, s.ll_line, a + k, a + k));
    flatten_by_key(q, |x: (LLSelection, M::Out)| x.0.start_idx as int, a);
    assert(forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q[i].len() ==> (#[trigger] q[i][j]).0.start_idx == a + i);
    let f = find_model(m, s.ll_line, a, b);
    let key = |x: (LLSelection, M::Out)| x.0.start_idx as int;
    assert forall|j: int| 0 <= j < f.len() implies s.start_idx <= (#[trigger] f[j]).0.start_idx <= s.end_idx && f[j].0.start_idx <= f[j].0.end_idx < s.ll_line.n() && f[j].0.ll_line == s.ll_line by { assert(key(q.flatten()[j]) >= a); }
    assert forall|i: int, j: int| 0 <= i <= j < f.len() implies (#[trigger] f[i]).0.start_idx <= (#[trigger] f[j]).0.start_idx by { assert(key(q.flatten()[i]) <= key(q.flatten()[j])); }
}
/// gaps from the pieces of the line: before the first match, between matches, after the last
pub proof fn gaps_middle<O>(s: &LLSelection, m: Seq<(LLSelection, O)>, mid: Seq<Option<LLSelection>>)
    requires m.len() >= 1, mid.len() == m.len() - 1, forall|i: int| 0 <= i < mid.len() ==> #[trigger] mid[i] == gap(s, m, i + 1),
    ensures gaps(s, m, m.len() as int) == opt_seq(gap(s, m, 0)) + flatten_opts(mid)
{ gaps_mid(s, m, mid, mid.len() as int); assert(mid.take(mid.len() as int) =~= mid); }
pub proof fn gaps_mid<O>(s: &LLSelection, m: Seq<(LLSelection, O)>, mid: Seq<Option<LLSelection>>, k: int)
    requires 0 <= k <= mid.len() < m.len(), forall|i: int| 0 <= i < mid.len() ==> #[trigger] mid[i] == gap(s, m, i + 1),
    ensures gaps(s, m, k + 1) == opt_seq(gap(s, m, 0)) + flatten_opts(mid.take(k))
    decreases k
{
    reveal_with_fuel(gaps, 2);
    let o = |x: Option<LLSelection>| opt_seq(x);
    if k == 0 {
        assert(mid.take(0).map_values(o) =~= Seq::empty());
        reveal(Seq::flatten);
        assert(flatten_opts(mid.take(0)) =~= Seq::empty());
        assert(gaps(s, m, 1) =~= opt_seq(gap(s, m, 0)) + flatten_opts(mid.take(0)));
    } else {
        gaps_mid(s, m, mid, k - 1);
        assert(mid.take(k).map_values(o) =~= mid.take(k - 1).map_values(o).push(opt_seq(mid[k - 1])));
        flatten_push(mid.take(k - 1).map_values(o), opt_seq(mid[k - 1]));
        assert(gaps(s, m, k + 1) =~= opt_seq(gap(s, m, 0)) + flatten_opts(mid.take(k)));
    }
}
pub proof fn flatten_push<T>(s: Seq<Seq<T>>, x: Seq<T>)
    ensures s.push(x).flatten() == s.flatten() + x
{ s.lemma_flatten_push(x); }
pub proof fn furthest_bound<O>(s: &LLSelection, m: Seq<(LLSelection, O)>)
    requires found_in(s, m), s.wf()
    ensures forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] furthest(m, i) < s.ll_line.n() <= usize::MAX
{
    assert forall|i: int| 0 <= i < m.len() implies 0 <= #[trigger] furthest(m, i) < s.ll_line.n() by { furthest_lemma(m, i); }
}

// ---------------------------------------------------------------- what is attached to a line, as a history
/// a value of a type, attached to the tokens of a span
pub type Att = (Rng, TypeId, Val);
pub open spec fn rng_step(s: Seq<Rng>, e: Att, t: TypeId) -> Seq<Rng> { if e.1 == t && !s.contains(e.0) { s.push(e.0) } else { s } }
pub open spec fn vals_step(s: Seq<Val>, e: Att, r: Rng, t: TypeId) -> Seq<Val> { if e.1 == t && e.0 == r { s.push(e.2) } else { s } }
/// the spans that carry a type, in order of first attachment, after a history
pub open spec fn rng_after(s: Seq<Rng>, h: Seq<Att>, t: TypeId) -> Seq<Rng> decreases h.len() {
    if h.len() == 0 { s } else { rng_step(rng_after(s, h.drop_last(), t), h.last(), t) }
}
/// the values of a type attached to a span, in order of attachment, after a history
pub open spec fn vals_after(s: Seq<Val>, h: Seq<Att>, r: Rng, t: TypeId) -> Seq<Val> decreases h.len() {
    if h.len() == 0 { s } else { vals_step(vals_after(s, h.drop_last(), r, t), h.last(), r, t) }
}
/// b is a with exactly the attachments of h added, in that order
pub open spec fn follows(a: LLLineAttrs, h: Seq<Att>, b: LLLineAttrs) -> bool {
    &&& forall|t: TypeId| #[trigger] b.rng(t) == rng_after(a.rng(t), h, t)
    &&& forall|r: Rng, t: TypeId| #[trigger] b.vals(r, t) == vals_after(a.vals(r, t), h, r, t)
}
/// exactly the attachments of h, in that order
pub open spec fn made_of(h: Seq<Att>, b: LLLineAttrs) -> bool {
    &&& forall|t: TypeId| #[trigger] b.rng(t) == rng_after(Seq::empty(), h, t)
    &&& forall|r: Rng, t: TypeId| #[trigger] b.vals(r, t) == vals_after(Seq::empty(), h, r, t)
}
pub proof fn after_concat(s: Seq<Rng>, v: Seq<Val>, g: Seq<Att>, h: Seq<Att>, r: Rng, t: TypeId)
    ensures rng_after(s, g + h, t) == rng_after(rng_after(s, g, t), h, t), vals_after(v, g + h, r, t) == vals_after(vals_after(v, g, r, t), h, r, t)
    decreases h.len()
{
    if h.len() == 0 { assert(g + h =~= g); } else { assert((g + h).drop_last() =~= g + h.drop_last()); after_concat(s, v, g, h.drop_last(), r, t); }
}
pub proof fn follows_trans(a: LLLineAttrs, g: Seq<Att>, b: LLLineAttrs, h: Seq<Att>, c: LLLineAttrs)
    requires follows(a, g, b), follows(b, h, c) ensures follows(a, g + h, c)
{
    assert forall|t: TypeId| #[trigger] c.rng(t) == rng_after(a.rng(t), g + h, t) by { after_concat(a.rng(t), Seq::empty(), g, h, (0, 0), t); assert(b.rng(t) == rng_after(a.rng(t), g, t)); }
    assert forall|r: Rng, t: TypeId| #[trigger] c.vals(r, t) == vals_after(a.vals(r, t), g + h, r, t) by { after_concat(Seq::empty(), a.vals(r, t), g, h, r, t); assert(b.vals(r, t) == vals_after(a.vals(r, t), g, r, t)); }
}
pub proof fn made_trans(g: Seq<Att>, b: LLLineAttrs, h: Seq<Att>, c: LLLineAttrs)
    requires made_of(g, b), follows(b, h, c) ensures made_of(g + h, c)
{
    assert forall|t: TypeId| #[trigger] c.rng(t) == rng_after(Seq::empty(), g + h, t) by { after_concat(Seq::empty(), Seq::empty(), g, h, (0, 0), t); assert(b.rng(t) == rng_after(Seq::empty(), g, t)); }
    assert forall|r: Rng, t: TypeId| #[trigger] c.vals(r, t) == vals_after(Seq::empty(), g + h, r, t) by { after_concat(Seq::empty(), Seq::empty(), g, h, r, t); assert(b.vals(r, t) == vals_after(Seq::empty(), g, r, t)); }
}
pub proof fn follows_none(a: LLLineAttrs) ensures follows(a, Seq::empty(), a) {}
/// one attachment
pub proof fn follows_one(a: LLLineAttrs, e: Att, b: LLLineAttrs)
    requires
        forall|t: TypeId| #[trigger] b.rng(t) == rng_step(a.rng(t), e, t),
        forall|r: Rng, t: TypeId| #[trigger] b.vals(r, t) == vals_step(a.vals(r, t), e, r, t),
    ensures follows(a, seq![e], b)
{
    reveal_with_fuel(rng_after, 2);
    reveal_with_fuel(vals_after, 2);
    assert(seq![e].drop_last() =~= Seq::empty());
}
/// a later attachment never hides an earlier one
pub proof fn after_extends(s: Seq<Rng>, v: Seq<Val>, h: Seq<Att>, r: Rng, t: TypeId)
    ensures s.is_prefix_of(rng_after(s, h, t)), v.is_prefix_of(vals_after(v, h, r, t))
    decreases h.len()
{ if h.len() > 0 { after_extends(s, v, h.drop_last(), r, t); } }
/// the four indexes still agree after one attachment
pub open spec fn stepped(a: LLLineAttrs, e: Att, b: LLLineAttrs) -> bool {
    &&& b.starts_at@.len() == a.starts_at@.len()
    &&& b.ends_at@.len() == a.ends_at@.len()
    &&& forall|t: TypeId| #[trigger] b.rng(t) == (if t == e.1 { push_new(a.rng(t), e.0) } else { a.rng(t) })
    &&& forall|t: TypeId, i: int| 0 <= i < a.starts_at@.len() ==> #[trigger] b.st(i, t) == (if t == e.1 && i == e.0.0 { push_new(a.st(i, t), e.0) } else { a.st(i, t) })
    &&& forall|t: TypeId, i: int| 0 <= i < a.ends_at@.len() ==> #[trigger] b.en(i, t) == (if t == e.1 && i == e.0.1 { push_new(a.en(i, t), e.0) } else { a.en(i, t) })
    &&& forall|r: Rng, t: TypeId| #[trigger] b.vals(r, t) == vals_step(a.vals(r, t), e, r, t)
    &&& forall|r: Rng| b.values@.dom().contains(r) ==> (#[trigger] b.values@[r]).wf()
}
pub proof fn slice_has_rng(s: Seq<Rng>, x: Rng)
    ensures slice_has(s, &x) == s.contains(x)
{
    broadcast use eqv_lrange;
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(eqv(s[i], x)); }
}
pub proof fn step_wf(a: LLLineAttrs, e: Att, b: LLLineAttrs, n: nat)
    requires a.wf(n), e.0.0 <= e.0.1 < n, stepped(a, e, b)
    ensures b.wf(n), follows(a, seq![e], b)
{
    assert forall|t: TypeId| #[trigger] b.rng(t) == rng_step(a.rng(t), e, t) by { slice_has_rng(a.rng(t), e.0); }
    follows_one(a, e, b);
    assert forall|t: TypeId| (#[trigger] b.rng(t)).no_duplicates() by {
        let s = a.rng(t);
        assert(s.no_duplicates());
        if t == e.1 && !s.contains(e.0) {
            assert forall|i: int, j: int| 0 <= i < b.rng(t).len() && 0 <= j < b.rng(t).len() && i != j implies b.rng(t)[i] != b.rng(t)[j] by {
                if i == s.len() { assert(s.contains(s[j])); } else if j == s.len() { assert(s.contains(s[i])); }
            }
        }
    }
    assert forall|t: TypeId, r: Rng| #[trigger] b.rng(t).contains(r) implies r.0 <= r.1 < n && b.vals(r, t).len() > 0 by {
        contains_push(a.rng(t), e.0, r);
        if a.rng(t).contains(r) { assert(a.vals(r, t).len() > 0); }
    }
    assert forall|t: TypeId, i: int| 0 <= i < n implies #[trigger] b.st(i, t) == b.rng(t).filter(starting(i)) by {
        let s = a.rng(t);
        assert(a.st(i, t) == s.filter(starting(i)));
        filter_push(s, e.0, starting(i));
        filter_has(s, e.0, starting(i));
        slice_has_rng(a.st(i, t), e.0);
    }
    assert forall|t: TypeId, i: int| 0 <= i < n implies #[trigger] b.en(i, t) == b.rng(t).filter(ending(i)) by {
        let s = a.rng(t);
        assert(a.en(i, t) == s.filter(ending(i)));
        filter_push(s, e.0, ending(i));
        filter_has(s, e.0, ending(i));
        slice_has_rng(a.en(i, t), e.0);
    }
    assert forall|t: TypeId, r: Rng| (#[trigger] b.vals(r, t)).len() > 0 implies b.rng(t).contains(r) by {
        contains_push(a.rng(t), e.0, r);
        if a.vals(r, t).len() > 0 { assert(a.rng(t).contains(r)); }
    }
}
/// attributes with their values, attached to one span
pub open spec fn any_hist(r: Rng, attrs: Seq<AnyAttribute>) -> Seq<Att> { attrs.map_values(|a: AnyAttribute| (r, a.0, a.2.val())) }
/// what a new token carries: its character if it is just one, and its tag
pub open spec fn auto_of(i: usize, t: LLToken) -> Seq<Att> {
    match t.token {
        LToken::Text(s, tag) => (if s@.len() == 1 { seq![((i, i), tid::<char>(), erase::<char>(s@[0]))] } else { Seq::empty() }) + seq![((i, i), tid::<TextTag>(), erase::<TextTag>(tag))],
        LToken::Value => Seq::empty(),
    }
}
pub open spec fn auto_hist(tokens: Seq<LLToken>, n: int) -> Seq<Att> decreases n { if n <= 0 { Seq::empty() } else { auto_hist(tokens, n - 1) + auto_of((n - 1) as usize, tokens[n - 1]) } }
/// what the assignments of a resolver attach
pub open spec fn given<A>(s: Seq<LLCursorAssignment<A>>) -> Seq<Att> { s.map_values(|a: LLCursorAssignment<A>| ((a.start_idx, a.end_idx), tid::<A>(), erase::<A>(a.value))) }
pub open spec fn given_inside<A>(s: Seq<LLCursorAssignment<A>>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start_idx <= s[i].end_idx < n }
pub open spec fn token_str(t: LLToken) -> Seq<char> { match t.token { LToken::Text(s, _) => s@, LToken::Value => Seq::empty() } }
/// the text of the tokens a..=b
pub open spec fn text_of(tokens: Seq<LLToken>, r: Rng) -> Seq<char> { tokens.subrange(r.0 as int, r.1 + 1).map_values(|t: LLToken| token_str(t)).flatten() }
/// the ghost of a line without attachments
pub open spec fn no_attrs(a: LLLineAttrs, n: nat) -> bool { a.wf(n) && made_of(Seq::empty(), a) }
pub proof fn follows_push(a: LLLineAttrs, e: Att, b: LLLineAttrs)
    requires follows(a, seq![e], b)
    ensures
        forall|x: LLLineAttrs, h: Seq<Att>| #[trigger] follows(x, h, a) ==> follows(x, h.push(e), b),
        forall|h: Seq<Att>| #[trigger] made_of(h, a) ==> made_of(h.push(e), b),
{
    assert forall|x: LLLineAttrs, h: Seq<Att>| #[trigger] follows(x, h, a) implies follows(x, h.push(e), b) by { follows_trans(x, h, a, seq![e], b); assert(h.push(e) =~= h + seq![e]); }
    assert forall|h: Seq<Att>| #[trigger] made_of(h, a) implies made_of(h.push(e), b) by { made_trans(h, a, seq![e], b); assert(h.push(e) =~= h + seq![e]); }
}
pub proof fn fresh_lemma(a: LLLineAttrs, n: nat)
    requires n <= usize::MAX, a.starts_at@.len() == n, a.ends_at@.len() == n, dflt(a.ranges), dflt(a.values),
        forall|i: int| 0 <= i < n ==> dflt(#[trigger] a.starts_at@[i]), forall|i: int| 0 <= i < n ==> dflt(#[trigger] a.ends_at@[i]),
    ensures no_attrs(a, n)
{
    assert forall|t: TypeId| (#[trigger] a.rng(t)) =~= Seq::<Rng>::empty() by {}
    assert forall|r: Rng, t: TypeId| (#[trigger] a.vals(r, t)) =~= Seq::<Val>::empty() by {}
    reveal(Seq::filter);
    assert forall|t: TypeId, i: int| 0 <= i < n implies #[trigger] a.st(i, t) == a.rng(t).filter(starting(i)) by { assert(dflt(a.starts_at@[i])); assert(a.st(i, t) =~= Seq::<Rng>::empty()); }
    assert forall|t: TypeId, i: int| 0 <= i < n implies #[trigger] a.en(i, t) == a.rng(t).filter(ending(i)) by { assert(dflt(a.ends_at@[i])); assert(a.en(i, t) =~= Seq::<Rng>::empty()); }
}
/// every span of a type lies inside of the line and has values
pub proof fn line_spans_lemma<T>(line: &LLLine)
    requires line.wf()
    ensures forall|r: Rng| #[trigger] line.attrs.ranges.at(tid::<T>()).contains(r) ==> r.0 <= r.1 < line.n() && line.attrs.values@.dom().contains(r) && line.attrs.values@[r].wf()
{
    assert forall|r: Rng| #[trigger] line.attrs.ranges.at(tid::<T>()).contains(r) implies r.0 <= r.1 < line.n() && line.attrs.values@.dom().contains(r) && line.attrs.values@[r].wf() by {
        assert(line.attrs.rng(tid::<T>()).contains(r));
        assert(line.attrs.vals(r, tid::<T>()).len() > 0);
    }
}

// ---------------------------------------------------------------- finding in a line
/// every match of a line, by starting token, with the positions of its first and last token
pub open spec fn line_find_model<'l, M: XMatch<'l>>(m: &M, line: &'l LLLine) -> Seq<LLLineFind<'l, M::Out>> {
    Seq::new(line.n(), |i: int| m.go_spec(&XForwards { from_idx: i as usize }, line).map_values(|p: (M::Out, ToIdx)| LLLineFind {
        start_pos_at: line.ll_tokens@[i].pos_starts_at, end_pos_at: line.ll_tokens@[p.1.0 as int].pos_ends_at, found: p.0, _phantom: PhantomData })).flatten()
}

// ---------------------------------------------------------------- tokens
pub open spec fn all_white(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_white(#[trigger] s[i]) }
pub open spec fn all_letters(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_alpha(#[trigger] s[i]) }
pub open spec fn in_word(c: char) -> bool { c_alpha(c) || c == '\'' || c == '-' || c == '\u{2013}' }
/// starts with a letter and goes on with letters, apostrophes and dashes
pub open spec fn word_like(s: Seq<char>) -> bool { s.len() > 0 && c_alpha(s[0]) && forall|i: int| 1 <= i < s.len() ==> in_word(#[trigger] s[i]) }
pub broadcast proof fn word_like_rest(s: Seq<char>)
    ensures #[trigger] word_like(s) == (s.len() > 0 && c_alpha(s[0]) && forall|i: int| 0 <= i < s.drop_first().len() ==> in_word(#[trigger] s.drop_first()[i]))
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() && word_like(s) implies in_word(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        if forall|i: int| 0 <= i < s.drop_first().len() ==> in_word(#[trigger] s.drop_first()[i]) {
            assert forall|i: int| 1 <= i < s.len() implies in_word(#[trigger] s[i]) by { assert(s.drop_first()[i - 1] == s[i]); }
        }
    }
}
pub open spec fn plain_tag(s: Seq<char>) -> TextTag {
    if all_white(s) { TextTag::SPACE } else if s.len() == 1 && c_punc(s[0]) { TextTag::PUNC } else if word_like(s) { TextTag::WORD } else { TextTag::SYMB }
}
/// the documented tag of a text
pub open spec fn tag_of(s: Seq<char>) -> TextTag { if all_digits(s) { TextTag::NATN } else { plain_tag(s) } }
pub open spec fn ltoken_str(t: LToken) -> Seq<char> { match t { LToken::Text(s, _) => s@, LToken::Value => Seq::empty() } }
/// the texts of a token list, one after the other
pub open spec fn cut_texts(s: Seq<(LToken, usize)>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cut_texts(s.drop_last()) + ltoken_str(s.last().0) } }
/// a text token: not empty, with the tag of its text
pub open spec fn good_text(t: LToken) -> bool { match t { LToken::Text(s, tag) => s@.len() > 0 && tag == tag_of(s@), LToken::Value => false } }
pub open spec fn cut_ok(s: Seq<(LToken, usize)>) -> bool { forall|i: int| 0 <= i < s.len() ==> good_text((#[trigger] s[i]).0) }
/// n is the size that the caller's function gives to a text
pub open spec fn sized<F: Fn(&str) -> usize>(f: F, text: Seq<char>, n: usize) -> bool { exists|s: &str| s@ == text && #[trigger] call_ensures(f, (s,), n) }
pub open spec fn cut_sized<F: Fn(&str) -> usize>(s: Seq<(LToken, usize)>, f: F) -> bool { forall|i: int| 0 <= i < s.len() ==> sized(f, ltoken_str((#[trigger] s[i]).0), s[i].1) }
pub broadcast proof fn cut_push(s: Seq<(LToken, usize)>, x: (LToken, usize))
    ensures #[trigger] cut_texts(s.push(x)) == cut_texts(s) + ltoken_str(x.0)
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn tag_letters(s: Seq<char>)
    requires all_letters(s), s.len() > 0
    ensures #[trigger] tag_of(s) == TextTag::WORD
{ broadcast use char_classes; assert(c_alpha(s[0])); }
pub broadcast proof fn tag_other(s: Seq<char>)
    requires s.len() > 0, !c_digit(s[0])
    ensures #[trigger] tag_of(s) == plain_tag(s)
{ }
pub broadcast proof fn add_none<T>(a: Seq<T>, b: Seq<T>) requires b.len() == 0 ensures #[trigger] (a + b) == a { assert(a + b =~= a); }
pub broadcast proof fn add_push<T>(a: Seq<T>, b: Seq<T>, c: T) ensures #[trigger] (a + b.push(c)) == (a + b).push(c) { assert(a + b.push(c) =~= (a + b).push(c)); }
pub broadcast group group_text { add_none, add_push, cut_push, cut_words_push, push_drop, push_first, tag_letters, tag_other }
/// ASCII digit, letter, or anything else
pub open spec fn kind_of(c: char) -> int { if c_digit(c) { 0 } else if c_alpha(c) { 1 } else { 2 } }
/// the runs of digits, the runs of letters and the single other characters of a word
pub open spec fn runs(w: Seq<char>) -> Seq<Seq<char>> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else {
        let p = runs(w.drop_last());
        if p.len() > 0 && kind_of(w.last()) != 2 && kind_of(w[w.len() - 2]) == kind_of(w.last()) { p.drop_last().push(p.last().push(w.last())) } else { p.push(seq![w.last()]) }
    }
}
/// a word that starts with an ASCII digit is cut into its runs, any other word is one token
pub open spec fn word_cut(w: Seq<char>) -> Seq<Seq<char>> { if w.len() > 0 && c_digit(w[0]) { runs(w) } else { seq![w] } }
pub open spec fn words_cut(w: Seq<Seq<char>>) -> Seq<Seq<char>> decreases w.len() { if w.len() == 0 { Seq::empty() } else { words_cut(w.drop_last()) + word_cut(w.last()) } }
/// the texts of the tokens of a text
pub open spec fn text_cut(s: Seq<char>) -> Seq<Seq<char>> { words_cut(word_bounds(s)) }
pub open spec fn cut_words(s: Seq<(LToken, usize)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| ltoken_str(s[i].0)) }
/// the tokens so far and the run that is not closed yet
pub open spec fn with_run(t: Seq<Seq<char>>, s: Seq<char>) -> Seq<Seq<char>> { if s.len() == 0 { t } else { t.push(s) } }
pub proof fn runs_some(w: Seq<char>) ensures (w.len() > 0) == (runs(w).len() > 0) { }
/// one more character of a word
pub proof fn runs_step(t: Seq<Seq<char>>, w: Seq<char>, k: int)
    requires 0 < k <= w.len()
    ensures ({ let p = t + runs(w.take(k - 1)); let c = w[k - 1]; t + runs(w.take(k)) == if k > 1 && kind_of(c) != 2 && kind_of(w[k - 2]) == kind_of(c) { p.drop_last().push(p.last().push(c)) } else { p.push(seq![c]) } })
{
    assert(w.take(k).drop_last() =~= w.take(k - 1)); runs_some(w.take(k - 1));
    let p = runs(w.take(k - 1)); let c = w[k - 1];
    if k > 1 && kind_of(c) != 2 && kind_of(w[k - 2]) == kind_of(c) { assert(t + p.drop_last().push(p.last().push(c)) =~= (t + p).drop_last().push((t + p).last().push(c))); }
    else { assert(t + p.push(seq![c]) =~= (t + p).push(seq![c])); }
}
pub broadcast proof fn push_drop<T>(t: Seq<T>, x: T) ensures #[trigger] t.push(x).drop_last() == t { assert(t.push(x).drop_last() =~= t); }
pub broadcast proof fn push_first(s: Seq<char>, c: char) requires s.len() == 0 ensures #[trigger] s.push(c) == seq![c] { assert(s.push(c) =~= seq![c]); }
pub proof fn words_push(w: Seq<Seq<char>>, x: Seq<char>) ensures words_cut(w.push(x)) == words_cut(w) + word_cut(x) { assert(w.push(x).drop_last() =~= w); }
pub broadcast proof fn cut_words_push(s: Seq<(LToken, usize)>, x: (LToken, usize))
    ensures #[trigger] cut_words(s.push(x)) == cut_words(s).push(ltoken_str(x.0))
{ assert(cut_words(s.push(x)) =~= cut_words(s).push(ltoken_str(x.0))); }
/// an input token the library accepts: its text is not empty, its attributes carry values of their type
pub open spec fn good_input(t: InputToken) -> bool {
    match t { InputToken::Text { text, attrs } => text@.len() > 0 && any_wf(attrs@), InputToken::Custom { size, attrs } => any_wf(attrs@) }
}
pub open spec fn any_wf(a: Seq<AnyAttribute>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).wf() }
pub open spec fn attrs_of(t: InputToken) -> Seq<AnyAttribute> { match t { InputToken::Text { text, attrs } => attrs@, InputToken::Custom { size, attrs } => attrs@ } }
/// the tokens c are what one input token becomes
pub open spec fn cut_from<F: Fn(&str) -> usize>(t: InputToken, c: Seq<(LToken, usize)>, f: F) -> bool {
    match t {
        InputToken::Text { text, attrs } => c.len() > 0 && cut_texts(c) == text@ && cut_words(c) == text_cut(text@) && cut_ok(c) && cut_sized(c, f),
        InputToken::Custom { size, attrs } => c == seq![(LToken::Value, size)],
    }
}
pub open spec fn cuts_from<F: Fn(&str) -> usize>(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, f: F) -> bool {
    cuts.len() <= input.len() && forall|i: int| 0 <= i < cuts.len() ==> cut_from(input[i], #[trigger] cuts[i], f)
}
pub open spec fn total(s: Seq<(LToken, usize)>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().1 as nat } }
/// assumption of C02: positions fit the machine word
pub open spec fn fits<F: Fn(&str) -> usize>(input: Seq<InputToken>, f: F) -> bool {
    forall|cuts: Seq<Seq<(LToken, usize)>>| #[trigger] cuts_from(input, cuts, f) ==> total(cuts.flatten()) <= usize::MAX
}
/// the tokens t, one after the other, at the positions their sizes add up to
pub open spec fn laid(tokens: Seq<LLToken>, t: Seq<(LToken, usize)>) -> bool {
    tokens.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> (#[trigger] tokens[k]).token == t[k].0 && tokens[k].token_idx == k
        && tokens[k].pos_starts_at == total(t.take(k)) && tokens[k].pos_ends_at == total(t.take(k + 1))
}
pub open spec fn tiled(t: Seq<LLToken>) -> bool {
    &&& t.len() > 0 ==> t[0].pos_starts_at == 0
    &&& forall|k: int| 0 < k < t.len() ==> (#[trigger] t[k]).pos_starts_at == t[k - 1].pos_ends_at
    &&& forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).pos_starts_at <= t[k].pos_ends_at
}
pub open spec fn right_tag(t: LToken) -> bool { match t { LToken::Text(s, tag) => s@.len() > 0 && tag == tag_of(s@), LToken::Value => true } }
/// the text of a line
pub open spec fn line_text(t: Seq<LLToken>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else { line_text(t.drop_last()) + token_str(t.last()) } }
pub open spec fn input_str(t: InputToken) -> Seq<char> { match t { InputToken::Text { text, attrs } => text@, InputToken::Custom { size, attrs } => Seq::empty() } }
pub open spec fn input_text(t: Seq<InputToken>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { input_text(t, n - 1) + input_str(t[n - 1]) } }
/// the tokens an input token became
pub open spec fn span_at(cuts: Seq<Seq<(LToken, usize)>>, i: int) -> Rng { (cuts.take(i).flatten().len() as usize, (cuts.take(i + 1).flatten().len() - 1) as usize) }
/// the attributes of the input tokens, each on all tokens of its input token
pub open spec fn given_hist(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, n: int) -> Seq<Att> decreases n {
    if n <= 0 { Seq::empty() } else { given_hist(input, cuts, n - 1) + any_hist(span_at(cuts, n - 1), attrs_of(input[n - 1])) }
}
pub open spec fn noted(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, v: Seq<(usize, usize, Vec<AnyAttribute>)>) -> bool {
    v.len() == cuts.len() && forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]).0, v[i].1) == span_at(cuts, i) && v[i].2@ == attrs_of(input[i])
}
pub proof fn total_le(s: Seq<(LToken, usize)>, k: int)
    requires 0 <= k <= s.len() ensures total(s.take(k)) <= total(s)
    decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); } else { total_le(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
}
pub broadcast proof fn total_push(s: Seq<(LToken, usize)>, x: (LToken, usize))
    ensures #[trigger] total(s.push(x)) == total(s) + x.1
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn laid_push(tokens: Seq<LLToken>, t: Seq<(LToken, usize)>, k: LLToken, x: (LToken, usize))
    requires laid(tokens, t), k.token == x.0, k.token_idx == t.len(), k.pos_starts_at == total(t), k.pos_ends_at == total(t) + x.1
    ensures laid(tokens.push(k), t.push(x))
{
    total_push(t, x);
    assert(t.push(x).take(t.len() as int) =~= t);
    assert(t.push(x).take(t.len() as int + 1) =~= t.push(x));
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] tokens.push(k)[i]).token == t[i].0 && t.push(x).take(i) == t.take(i) && t.push(x).take(i + 1) == t.take(i + 1) by { assert(t.push(x).take(i) =~= t.take(i)); assert(t.push(x).take(i + 1) =~= t.take(i + 1)); }
}
pub proof fn noted_push(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, c: Seq<(LToken, usize)>, v: Seq<(usize, usize, Vec<AnyAttribute>)>)
    requires v.len() == cuts.len() + 1, noted(input, cuts, v.drop_last()), v.last().2@ == attrs_of(input[cuts.len() as int]),
        v.last().0 == cuts.flatten().len(), v.last().1 == cuts.flatten().len() + c.len() - 1,
    ensures noted(input, cuts.push(c), v)
{
    flatten_push(cuts, c);
    assert(cuts.push(c).take(cuts.len() as int) =~= cuts);
    assert(cuts.push(c).take(cuts.len() as int + 1) =~= cuts.push(c));
    assert forall|i: int| 0 <= i < cuts.len() implies ((#[trigger] v[i]).0, v[i].1) == span_at(cuts.push(c), i) && v[i].2@ == attrs_of(input[i]) by {
        assert(cuts.push(c).take(i) =~= cuts.take(i)); assert(cuts.push(c).take(i + 1) =~= cuts.take(i + 1)); assert(v.drop_last()[i] == v[i]);
    }
}
pub proof fn span_inside(cuts: Seq<Seq<(LToken, usize)>>, i: int)
    requires 0 <= i < cuts.len(), cuts[i].len() > 0, cuts.flatten().len() <= usize::MAX
    ensures span_at(cuts, i).0 <= span_at(cuts, i).1 < cuts.flatten().len()
{
    assert(cuts.take(i + 1) =~= cuts.take(i).push(cuts[i]));
    flatten_push(cuts.take(i), cuts[i]);
    flat_take(cuts, i + 1);
}
pub proof fn flat_take(cuts: Seq<Seq<(LToken, usize)>>, i: int)
    requires 0 <= i <= cuts.len()
    ensures cuts.take(i).flatten().len() <= cuts.flatten().len()
    decreases cuts.len()
{
    if i < cuts.len() {
        flat_take(cuts.drop_last(), i);
        assert(cuts.drop_last().take(i) =~= cuts.take(i));
        assert(cuts =~= cuts.drop_last().push(cuts.last()));
        flatten_push(cuts.drop_last(), cuts.last());
    } else { assert(cuts.take(i) =~= cuts); }
}
pub proof fn cut_texts_add(a: Seq<(LToken, usize)>, b: Seq<(LToken, usize)>)
    ensures cut_texts(a + b) == cut_texts(a) + cut_texts(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(cut_texts(a) + cut_texts(b) =~= cut_texts(a)); } else {
        cut_texts_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(cut_texts(a + b) =~= cut_texts(a) + cut_texts(b));
    }
}
pub proof fn texts_lemma<F: Fn(&str) -> usize>(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, f: F)
    requires cuts_from(input, cuts, f)
    ensures cut_texts(cuts.flatten()) == input_text(input, cuts.len() as int),
        forall|k: int| 0 <= k < cuts.flatten().len() ==> right_tag((#[trigger] cuts.flatten()[k]).0),
    decreases cuts.len()
{
    if cuts.len() == 0 { assert(cuts.flatten() =~= Seq::empty()); } else {
        let (d, c) = (cuts.drop_last(), cuts.last());
        texts_lemma(input, d, f);
        assert(cuts =~= d.push(c));
        flatten_push(d, c);
        cut_texts_add(d.flatten(), c);
        assert(cut_from(input[cuts.len() - 1], c, f));
        match input[cuts.len() - 1] {
            InputToken::Custom { size, attrs } => { assert(c.drop_last() =~= Seq::empty()); assert(cut_texts(c) =~= Seq::empty()) by { reveal_with_fuel(cut_texts, 2); } },
            _ => {},
        }
        assert forall|k: int| 0 <= k < cuts.flatten().len() implies right_tag((#[trigger] cuts.flatten()[k]).0) by {
            if k < d.flatten().len() { assert(cuts.flatten()[k] == d.flatten()[k]); } else { assert(cuts.flatten()[k] == c[k - d.flatten().len()]); }
        }
    }
}
pub proof fn laid_text(tokens: Seq<LLToken>, t: Seq<(LToken, usize)>)
    requires tokens.len() == t.len(), forall|k: int| 0 <= k < t.len() ==> (#[trigger] tokens[k]).token == t[k].0
    ensures line_text(tokens) == cut_texts(t)
    decreases t.len()
{ if t.len() > 0 { laid_text(tokens.drop_last(), t.drop_last()); } }
pub proof fn made_lemma<F: Fn(&str) -> usize>(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, f: F, tokens: Seq<LLToken>)
    requires cuts_from(input, cuts, f), cuts.len() == input.len(), laid(tokens, cuts.flatten())
    ensures line_text(tokens) == input_text(input, input.len() as int), tiled(tokens), forall|i: int| 0 <= i < tokens.len() ==> right_tag((#[trigger] tokens[i]).token)
{
    let t = cuts.flatten();
    texts_lemma(input, cuts, f);
    laid_text(tokens, t);
    assert(t.take(0) =~= Seq::empty());
    assert forall|k: int| 0 <= k < tokens.len() implies (#[trigger] tokens[k]).pos_starts_at <= tokens[k].pos_ends_at by { total_le(t.take(k + 1), k); assert(t.take(k + 1).take(k) =~= t.take(k)); }
}
/// the texts of the tokens an input token becomes; a custom token has none
pub open spec fn input_cut(t: InputToken) -> Seq<Seq<char>> { match t { InputToken::Text { text, attrs } => text_cut(text@), InputToken::Custom { size, attrs } => seq![Seq::empty()] } }
pub open spec fn input_cuts(t: Seq<InputToken>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else { input_cuts(t, n - 1) + input_cut(t[n - 1]) } }
pub open spec fn line_words(t: Seq<LLToken>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| token_str(t[i])) }
pub proof fn words_lemma<F: Fn(&str) -> usize>(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, f: F, n: int)
    requires cuts_from(input, cuts, f), 0 <= n <= cuts.len()
    ensures cut_words(cuts.take(n).flatten()) == input_cuts(input, n)
    decreases n
{
    if n == 0 { assert(cuts.take(0).flatten() =~= Seq::empty()); assert(cut_words(cuts.take(n).flatten()) =~= input_cuts(input, n)); } else {
        words_lemma(input, cuts, f, n - 1);
        assert(cuts.take(n) =~= cuts.take(n - 1).push(cuts[n - 1]));
        flatten_push(cuts.take(n - 1), cuts[n - 1]);
        assert(cut_from(input[n - 1], cuts[n - 1], f));
        assert(cut_words(cuts[n - 1]) =~= input_cut(input[n - 1]));
        assert(cut_words(cuts.take(n).flatten()) =~= cut_words(cuts.take(n - 1).flatten()) + cut_words(cuts[n - 1]));
    }
}
pub proof fn line_words_lemma<F: Fn(&str) -> usize>(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, f: F, tokens: Seq<LLToken>)
    requires cuts_from(input, cuts, f), cuts.len() == input.len(), laid(tokens, cuts.flatten())
    ensures line_words(tokens) == input_cuts(input, input.len() as int)
{
    words_lemma(input, cuts, f, cuts.len() as int);
    assert(cuts.take(cuts.len() as int) =~= cuts);
    assert(line_words(tokens) =~= cut_words(cuts.flatten()));
}
/// the line is made of the input tokens: each cut into tokens of its own, laid one after the other, with the attributes
/// every token has by itself and then those of the input tokens, on exactly the tokens of each
pub open spec fn line_made<F: Fn(&str) -> usize>(input: Seq<InputToken>, f: F, r: LLLine) -> bool {
    exists|cuts: Seq<Seq<(LToken, usize)>>| #[trigger] cuts_from(input, cuts, f) && cuts.len() == input.len() && laid(r.ll_tokens@, cuts.flatten())
        && made_of(auto_hist(r.ll_tokens@, r.ll_tokens@.len() as int) + given_hist(input, cuts, cuts.len() as int), r.attrs)
}
/// one assignment for each match: its selection, and what f gives for it
pub open spec fn finished<T, Attr, F: Fn(T) -> Attr>(s: Seq<(LLSelection, T)>, f: F, r: Seq<LLCursorAssignment<Attr>>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).start_idx == s[i].0.start_idx && r[i].end_idx == s[i].0.end_idx && call_ensures(f, (s[i].1,), r[i].value)
}

/// sizes are bytes of UTF-8
pub open spec fn counts_bytes<F: Fn(&str) -> usize>(f: F) -> bool { forall|s: &str, n: usize| #[trigger] call_ensures(f, (s,), n) ==> n == str_len(s@) }
pub proof fn bytes_add(a: Seq<char>, b: Seq<char>) ensures bytes(a + b) == bytes(a) + bytes(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { bytes_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn bytes_total<F: Fn(&str) -> usize>(c: Seq<(LToken, usize)>, f: F)
    requires counts_bytes(f), cut_sized(c, f), bytes(cut_texts(c)) <= usize::MAX
    ensures total(c) == bytes(cut_texts(c)), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1 == bytes(ltoken_str(c[i].0))
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        bytes_add(cut_texts(d), ltoken_str(c.last().0));
        assert forall|i: int| 0 <= i < d.len() implies sized(f, ltoken_str((#[trigger] d[i]).0), d[i].1) by { assert(d[i] == c[i]); }
        bytes_total(d, f);
        assert(sized(f, ltoken_str(c[c.len() - 1].0), c[c.len() - 1].1));
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).1 == bytes(ltoken_str(c[i].0)) by { if i < d.len() { assert(d[i] == c[i]); } }
    }
}
/// a single text (as long as texts can be), measured in bytes
pub open spec fn in_bytes<F: Fn(&str) -> usize>(input: Seq<InputToken>, f: F) -> bool { input.len() == 1 && input[0] is Text && bytes(input_str(input[0])) <= usize::MAX && counts_bytes(f) }
pub proof fn one_fits<F: Fn(&str) -> usize>(input: Seq<InputToken>, f: F)
    requires in_bytes(input, f)
    ensures fits(input, f)
{
    assert forall|cuts: Seq<Seq<(LToken, usize)>>| #[trigger] cuts_from(input, cuts, f) implies total(cuts.flatten()) <= usize::MAX by { one_cut(input, cuts, f); }
}
pub proof fn one_cut<F: Fn(&str) -> usize>(input: Seq<InputToken>, cuts: Seq<Seq<(LToken, usize)>>, f: F)
    requires in_bytes(input, f), cuts_from(input, cuts, f)
    ensures total(cuts.flatten()) <= usize::MAX, cuts.len() == 1 ==> forall|i: int| 0 <= i < cuts.flatten().len() ==> (#[trigger] cuts.flatten()[i]).1 == bytes(ltoken_str(cuts.flatten()[i].0))
{
    if cuts.len() == 0 { assert(cuts.flatten() =~= Seq::empty()); } else {
        assert(cuts =~= Seq::<Seq<(LToken, usize)>>::empty().push(cuts[0]));
        flatten_push(Seq::<Seq<(LToken, usize)>>::empty(), cuts[0]);
        assert(Seq::<Seq<(LToken, usize)>>::empty().flatten() =~= Seq::empty());
        assert(cuts.flatten() =~= cuts[0]);
        assert(cut_from(input[0], cuts[0], f));
        bytes_total(cuts[0], f);
    }
}
pub open spec fn byte_sized(t: Seq<LLToken>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).pos_ends_at == t[i].pos_starts_at + bytes(token_str(t[i])) }
pub proof fn one_made<F: Fn(&str) -> usize>(input: Seq<InputToken>, f: F, r: LLLine)
    requires in_bytes(input, f), line_made(input, f, r)
    ensures byte_sized(r.ll_tokens@), input_text(input, input.len() as int) == input_str(input[0]), input_cuts(input, input.len() as int) == text_cut(input_str(input[0]))
{
    let cuts = choose|cuts: Seq<Seq<(LToken, usize)>>| #[trigger] cuts_from(input, cuts, f) && cuts.len() == input.len() && laid(r.ll_tokens@, cuts.flatten())
        && made_of(auto_hist(r.ll_tokens@, r.ll_tokens@.len() as int) + given_hist(input, cuts, cuts.len() as int), r.attrs);
    one_cut(input, cuts, f);
    let c = cuts.flatten(); let t = r.ll_tokens@;
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).pos_ends_at == t[i].pos_starts_at + bytes(token_str(t[i])) by {
        assert(c.take(i + 1) =~= c.take(i).push(c[i]));
        total_push(c.take(i), c[i]);
    }
    reveal_with_fuel(input_text, 2);
    reveal_with_fuel(input_cuts, 2);
    assert(input_cuts(input, 1) =~= input_cut(input[0]));
    assert(input_text(input, 1) =~= input_str(input[0]));
}

// ---------------------------------------------------------------- rendering
pub type Row = (Rng, Seq<char>);
pub open spec fn noted_rows(s: Seq<(Rng, String)>) -> Seq<Row> { s.map_values(|x: (Rng, String)| (x.0, x.1@)) }
/// newest value first
pub open spec fn rows_at<T>(line: &LLLine, r: Rng) -> Seq<Row> { let v = line.vals_of::<T>(r); Seq::new(v.len(), |i: int| (r, debug_text(v[v.len() - 1 - i]))) }
/// the values of a type on the first n spans that carry any, span by span
pub open spec fn rows_of<T>(line: &LLLine, n: int) -> Seq<Row> decreases n { if n <= 0 { Seq::empty() } else { rows_of::<T>(line, n - 1) + rows_at::<T>(line, line.attrs.rng(tid::<T>())[n - 1]) } }
pub open spec fn shown(t: LLToken) -> Seq<char> { match t.token { LToken::Text(s, _) => s@, LToken::Value => seq!['<', '>'] } }
/// the first n tokens, separated by two spaces
pub open spec fn top(t: Seq<LLToken>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else if n == 1 { shown(t[0]) } else { top(t, n - 1) + seq![' ', ' '] + shown(t[n - 1]) } }
/// what is left of token i
pub open spec fn before(t: Seq<LLToken>, i: int) -> Seq<char> { if i <= 0 { Seq::empty() } else { top(t, i) + seq![' ', ' '] } }
pub open spec fn times(c: char, n: int) -> Seq<char> { if n <= 0 { Seq::empty() } else { Seq::new(n as nat, |i: int| c) } }
/// from the column where the first token starts to the column where the last token ends, one column at least
pub open spec fn marker(t: Seq<LLToken>, r: Rng) -> Seq<char> {
    let a = width(before(t, r.0 as int));
    let w = width(top(t, r.1 + 1)) - a;
    seq!['\n'] + times(' ', a as int) + seq!['╰'] + (if w > 1 { times('─', w - 2) + seq!['╯'] } else { Seq::empty() })
}
pub open spec fn rows_text(t: Seq<LLToken>, s: Seq<Row>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { rows_text(t, s, n - 1) + marker(t, s[n - 1].0) + s[n - 1].1 } }
pub open spec fn drawn(t: Seq<LLToken>, s: Seq<Row>) -> Seq<char> { top(t, t.len() as int) + rows_text(t, s, s.len() as int) }
pub proof fn cols_mono(t: Seq<LLToken>, a: int, b: int)
    requires 0 <= a <= b < t.len() ensures width(before(t, a)) <= width(top(t, b + 1))
    decreases b
{
    assert(top(t, a + 1) =~= before(t, a) + shown(t[a]));
    assert(top(t, b + 1) =~= before(t, b) + shown(t[b]));
    if a > 0 { assert(before(t, a).last() == ' '); }
    if a == b { width_space(before(t, a), shown(t[a])); } else {
        cols_mono(t, a, b - 1);
        assert(before(t, b) =~= top(t, b).push(' ').push(' '));
        width_push_space(top(t, b)); width_push_space(top(t, b).push(' '));
        width_space(before(t, b), shown(t[b]));
    }
}
pub open spec fn left_cols(v: Seq<usize>, t: Seq<LLToken>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) == width(before(t, i)) && v[i] < usize::MAX }
pub open spec fn right_cols(v: Seq<usize>, t: Seq<LLToken>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) == width(top(t, i + 1)) }
pub open spec fn rows_inside(s: Seq<Row>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.0 <= s[i].0.1 < n }
impl<'a> LLLineDisplay<'a> {
    pub open spec fn wf(&self) -> bool { self.ll_line.wf() && rows_inside(noted_rows(self.include_attrs@), self.ll_line.n()) }
}
pub proof fn rows_inside_of<T>(line: &LLLine, n: int)
    requires line.wf(), 0 <= n <= line.attrs.rng(tid::<T>()).len() ensures rows_inside(rows_of::<T>(line, n), line.n())
    decreases n
{
    if n > 0 { rows_inside_of::<T>(line, n - 1); assert(line.attrs.rng(tid::<T>()).contains(line.attrs.rng(tid::<T>())[n - 1])); }
}

// ---------------------------------------------------------------- resolvers
pub open spec fn on_token<A>(i: int, v: Seq<A>) -> Seq<LLCursorAssignment<A>> { v.map_values(|x: A| LLCursorAssignment { start_idx: i as usize, end_idx: i as usize, value: x }) }
/// what is assigned to each token of a selection by itself, token by token
pub open spec fn per_token<A>(s: LLSelection, f: spec_fn(LLToken) -> Seq<A>) -> Seq<LLCursorAssignment<A>> {
    Seq::new((s.end_idx - s.start_idx + 1) as nat, |k: int| on_token(s.start_idx + k, f(s.ll_line.ll_tokens@[s.start_idx + k]))).flatten()
}
pub open spec fn keyword(k: &ClauseKeywordResolver, t: LLToken) -> Seq<ClauseKeyword> {
    match t.token { LToken::Text(s, _) => keyword_of(k, s@), LToken::Value => Seq::empty() }
}
pub open spec fn keyword_of(k: &ClauseKeywordResolver, s: Seq<char>) -> Seq<ClauseKeyword> {
    if str_in(k.cond_start@, lower(s)) { seq![ClauseKeyword::ConditionStart] }
    else if str_in(k.then@, lower(s)) { seq![ClauseKeyword::Then] }
    else if str_in(k.and@, lower(s)) { seq![ClauseKeyword::And] }
    else { Seq::empty() }
}
pub proof fn flatten_add<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>) ensures (a + b).flatten() == a.flatten() + b.flatten() decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(b.flatten() =~= Seq::empty()) by { reveal(Seq::flatten); } } else {
        let d = b.drop_last();
        flatten_add(a, d);
        assert(a + b =~= (a + d).push(b.last()));
        assert(b =~= d.push(b.last()));
        flatten_push(a + d, b.last());
        flatten_push(d, b.last());
        assert((a + b).flatten() =~= a.flatten() + b.flatten());
    }
}
pub proof fn flat_flat<X, B>(s: Seq<Seq<X>>, g: spec_fn(X) -> Seq<B>)
    ensures s.flatten().map_values(g).flatten() == s.map_values(|q: Seq<X>| q.map_values(g).flatten()).flatten()
    decreases s.len()
{
    let h = |q: Seq<X>| q.map_values(g).flatten();
    if s.len() == 0 {
        reveal(Seq::flatten);
        assert(s.flatten() =~= Seq::empty()); assert(s.flatten().map_values(g) =~= Seq::empty()); assert(s.map_values(h) =~= Seq::empty());
    } else {
        let (d, c) = (s.drop_last(), s.last());
        flat_flat(d, g);
        assert(s =~= d.push(c));
        flatten_push(d, c);
        assert(s.flatten().map_values(g) =~= d.flatten().map_values(g) + c.map_values(g));
        flatten_add(d.flatten().map_values(g), c.map_values(g));
        assert(s.map_values(h) =~= d.map_values(h).push(h(c)));
        flatten_push(d.map_values(h), h(c));
    }
}
/// each text token of a selection, matched by itself
pub open spec fn texts_in<'a>(s: LLSelection) -> Seq<(LLSelection, &'a str)> { find_model(&TokenText(()), s.ll_line, s.start_idx as int, s.end_idx as int) }
pub proof fn token_lemma<'a, A>(s: LLSelection, g: spec_fn((LLSelection, &'a str)) -> Seq<LLCursorAssignment<A>>, f: spec_fn(LLToken) -> Seq<A>)
    requires s.wf(),
        forall|i: int, t: &'a str| s.start_idx <= i <= s.end_idx && s.ll_line.ll_tokens@[i].token is Text && t@ == token_str(s.ll_line.ll_tokens@[i]) ==> #[trigger] g((sel(s.ll_line, i, i), t)) == on_token(i, f(s.ll_line.ll_tokens@[i])),
        forall|i: int| s.start_idx <= i <= s.end_idx && !(s.ll_line.ll_tokens@[i].token is Text) ==> f(#[trigger] s.ll_line.ll_tokens@[i]).len() == 0,
    ensures texts_in::<'a>(s).map_values(g).flatten() == per_token(s, f),
{
    broadcast use string_str_is;
    let (a, n) = (s.start_idx as int, (s.end_idx - s.start_idx + 1) as nat);
    let parts = Seq::new(n, |k: int| forwards_from(&TokenText(()), s.ll_line, a + k, a + k));
    flat_flat(parts, g);
    let x = parts.map_values(|q: Seq<(LLSelection, &'a str)>| q.map_values(g).flatten());
    let y = Seq::new(n, |k: int| on_token(a + k, f(s.ll_line.ll_tokens@[a + k])));
    assert forall|k: int| 0 <= k < n implies #[trigger] x[k] == y[k] by {
        let t = s.ll_line.ll_tokens@[a + k];
        let q = parts[k];
        flatten_one(q.map_values(g));
        match t.token {
            LToken::Text(w, _) => {
                assert(q =~= seq![(sel(s.ll_line, a + k, a + k), string_str(&w))]);
                assert(g(q[0]) == on_token(a + k, f(t)));
                assert(q.map_values(g) =~= seq![on_token(a + k, f(t))]);
            },
            LToken::Value => { assert(q.len() == 0); assert(q.map_values(g).len() == 0); assert(on_token(a + k, f(t)) =~= Seq::empty()); },
        }
    }
    assert(x =~= y);
}
pub proof fn per_token_inside<A>(s: LLSelection, f: spec_fn(LLToken) -> Seq<A>)
    requires s.wf() ensures given_inside(per_token(s, f), s.ll_line.n())
{
    let y = Seq::new((s.end_idx - s.start_idx + 1) as nat, |k: int| on_token(s.start_idx + k, f(s.ll_line.ll_tokens@[s.start_idx + k])));
    let p = |x: LLCursorAssignment<A>| x.start_idx <= x.end_idx && x.end_idx < s.ll_line.n();
    flatten_all(y, p);
    assert forall|k: int| 0 <= k < y.flatten().len() implies p(#[trigger] y.flatten()[k]) by {}
}
pub open spec fn keyword_found<'a>(k: &ClauseKeywordResolver, p: (LLSelection, &'a str)) -> Seq<LLCursorAssignment<ClauseKeyword>> {
    keyword_of(k, p.1@).map_values(|x: ClauseKeyword| LLCursorAssignment { start_idx: p.0.start_idx, end_idx: p.0.end_idx, value: x })
}
pub proof fn keyword_lemma<'a>(k: &ClauseKeywordResolver, s: LLSelection)
    requires s.wf() ensures texts_in::<'a>(s).map_values(|p: (LLSelection, &'a str)| keyword_found(k, p)).flatten() == per_token(s, |t: LLToken| keyword(k, t)), given_inside(per_token(s, |t: LLToken| keyword(k, t)), s.ll_line.n())
{
    let g = |p: (LLSelection, &'a str)| keyword_found(k, p);
    let f = |t: LLToken| keyword(k, t);
    assert forall|i: int, t: &'a str| s.start_idx <= i <= s.end_idx && s.ll_line.ll_tokens@[i].token is Text && t@ == token_str(s.ll_line.ll_tokens@[i]) implies #[trigger] g((sel(s.ll_line, i, i), t)) == on_token(i, f(s.ll_line.ll_tokens@[i])) by {
        assert(g((sel(s.ll_line, i, i), t)) =~= on_token(i, f(s.ll_line.ll_tokens@[i])));
    }
    token_lemma(s, g, f);
    per_token_inside(s, f);
}
pub open spec fn in_map<T>(m: Map<Seq<char>, Vec<T>>, k: Seq<char>) -> Seq<T> { if m.dom().contains(k) { m[k]@ } else { Seq::empty() } }
impl<T> TextMatchAssignResolver<T> {
    /// what is configured for a key
    pub open spec fn at(&self, k: Seq<char>) -> Seq<T> { in_map(self.lookup@, k) }
    pub open spec fn for_text(&self, s: Seq<char>) -> Seq<T> { self.at(if self.case_sensitive { s } else { lower(s) }) }
}
pub open spec fn looked_up<T>(m: &TextMatchAssignResolver<T>, t: LLToken) -> Seq<T> { match t.token { LToken::Text(s, _) => m.for_text(s@), LToken::Value => Seq::empty() } }
/// all values of all entries whose key is k when lower-cased, entry by entry
pub open spec fn merged<T>(s: Seq<(String, Vec<T>)>, k: Seq<char>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { merged(s.drop_last(), k) + (if lower(s.last().0@) == k { s.last().1@ } else { Seq::empty() }) }
}
pub open spec fn merged_pairs<T>(s: Seq<(&str, T)>, k: Seq<char>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { merged_pairs(s.drop_last(), k) + (if lower(s.last().0@) == k { seq![s.last().1] } else { Seq::empty() }) }
}
pub broadcast proof fn flat_flat_b<X, B>(s: Seq<Seq<X>>, g: spec_fn(X) -> Seq<B>)
    ensures #[trigger] s.flatten().map_values(g).flatten() == s.map_values(|q: Seq<X>| q.map_values(g).flatten()).flatten()
{ flat_flat(s, g); }
pub open spec fn text_found<'a, T>(m: &TextMatchAssignResolver<T>, p: (LLSelection, &'a str)) -> Seq<LLCursorAssignment<T>> {
    m.for_text(p.1@).map_values(|x: T| LLCursorAssignment { start_idx: p.0.start_idx, end_idx: p.0.end_idx, value: x })
}
pub proof fn text_match_lemma<'a, T>(m: &TextMatchAssignResolver<T>, s: LLSelection)
    requires s.wf() ensures texts_in::<'a>(s).map_values(|p: (LLSelection, &'a str)| text_found(m, p)).flatten() == per_token(s, |t: LLToken| looked_up(m, t)), given_inside(per_token(s, |t: LLToken| looked_up(m, t)), s.ll_line.n())
{
    let g = |p: (LLSelection, &'a str)| text_found(m, p);
    let f = |t: LLToken| looked_up(m, t);
    assert forall|i: int, t: &'a str| s.start_idx <= i <= s.end_idx && s.ll_line.ll_tokens@[i].token is Text && t@ == token_str(s.ll_line.ll_tokens@[i]) implies #[trigger] g((sel(s.ll_line, i, i), t)) == on_token(i, f(s.ll_line.ll_tokens@[i])) by {
        assert(g((sel(s.ll_line, i, i), t)) =~= on_token(i, f(s.ll_line.ll_tokens@[i])));
    }
    token_lemma(s, g, f);
    per_token_inside(s, f);
}
pub proof fn flatten_none<T>(s: Seq<Seq<T>>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == 0 ensures s.flatten() == Seq::<T>::empty() decreases s.len()
{
    reveal(Seq::flatten);
    if s.len() > 0 { flatten_none(s.drop_first()); }
    assert(s.flatten() =~= Seq::<T>::empty());
}
pub proof fn flatten_only<T>(s: Seq<Seq<T>>, j: int) requires 0 <= j < s.len(), forall|i: int| 0 <= i < s.len() && i != j ==> (#[trigger] s[i]).len() == 0 ensures s.flatten() == s[j]
{
    let (a, b) = (s.take(j), s.skip(j + 1));
    flatten_none(a); flatten_none(b);
    assert(s =~= a.push(s[j]) + b);
    flatten_push(a, s[j]); flatten_add(a.push(s[j]), b);
    assert(s.flatten() =~= s[j]);
}
/// the values of a token by itself which equal x
pub open spec fn own<T>(line: &LLLine, i: int, x: T) -> Seq<T> { line.vals_of::<T>((i as usize, i as usize)).filter(|v: T| eqv(v, x)) }
/// what is found by asking a token for an attribute of its own and its text
pub open spec fn tagged_model<'l, T>(line: &'l LLLine, i: usize, x: T) -> Seq<(((), &'l str), ToIdx)> {
    match line.ll_tokens@[i as int].token {
        LToken::Text(s, _) => line.vals_of::<T>((i, i)).map_values(|v: T| if eqv(v, x) { seq![(((), string_str(&s)), ToIdx(i))] } else { Seq::empty() }).flatten(),
        LToken::Value => Seq::empty(),
    }
}
pub proof fn tagged_lemma<'l, T: 'static>(line: &'l LLLine, i: usize, x: &'l T)
    requires line.wf(), i < line.n()
    ensures All2(AttrEq { attr: x }, TokenText(())).go_spec(&XForwards { from_idx: i }, line) == tagged_model(line, i, *x)
{
    let m = All2(AttrEq { attr: x }, TokenText(()));
    let g = m.go_spec(&XForwards { from_idx: i }, line);
    let t = text_model(i, line);
    let ae = attr_eq_model::<T>(true, i, *x, line);
    let h = |p: ((), ToIdx)| t.map_values(|q: (&'l str, ToIdx)| if p.1 == q.1 { seq![((p.0, q.0), p.1)] } else { Seq::empty() }).flatten();
    assert(ae.map_values(h) =~= ae.map_values(|p: ((), ToIdx)| m.1.go_spec(&XForwards { from_idx: i }, line).map_values(|q: (&'l str, ToIdx)| if p.1 == q.1 { seq![((p.0, q.0), p.1)] } else { Seq::empty() }).flatten()));
    assert(g == ae.map_values(h).flatten());
    match line.ll_tokens@[i as int].token {
        LToken::Value => {
            assert forall|k: int| 0 <= k < ae.map_values(h).len() implies (#[trigger] ae.map_values(h)[k]).len() == 0 by { assert(t.len() == 0); let p = ae[k]; flatten_none(t.map_values(|q: (&'l str, ToIdx)| if p.1 == q.1 { seq![((p.0, q.0), p.1)] } else { Seq::empty() })); }
            flatten_none(ae.map_values(h));
        },
        LToken::Text(s, _) => {
            let w = string_str(&s);
            assert forall|p: ((), ToIdx)| #[trigger] h(p) == (if p.1 == ToIdx(i) { seq![(((), w), ToIdx(i))] } else { Seq::empty() }) by {
                let u = t.map_values(|q: (&'l str, ToIdx)| if p.1 == q.1 { seq![((p.0, q.0), p.1)] } else { Seq::empty() });
                flatten_one(u);
                assert(u.len() == 1);
                assert(h(p) == u[0]);
                if p.1 == ToIdx(i) { assert(u[0] =~= seq![(((), w), ToIdx(i))]); }
            }
            let rs = line.touching::<T>(true, i);
            let inner = |r: Rng| line.vals_of::<T>(r).map_values(|v: T| if eqv(v, *x) { seq![((), far(true, r))] } else { Seq::empty() }).flatten();
            let hh = |q: Seq<((), ToIdx)>| q.map_values(h).flatten();
            let ms = rs.map_values(inner);
            assert(ae == ms.flatten());
            flat_flat(ms, h);
            let z = ms.map_values(hh);
            assert(g == z.flatten());
            // spans which reach further
            assert forall|k: int| 0 <= k < z.len() && rs[k] != (i, i) implies (#[trigger] z[k]).len() == 0 by {
                let r = rs[k];
                assert(rs.contains(r));
                touching_lemma::<T>(true, i, line, r);
                assert(r.1 != i);
                let vs = line.vals_of::<T>(r).map_values(|v: T| if eqv(v, *x) { seq![((), far(true, r))] } else { Seq::empty() });
                flatten_all(vs, |y: ((), ToIdx)| y.1 == far(true, r));
                let q = ms[k];
                assert(q == vs.flatten());
                assert forall|b: int| 0 <= b < q.map_values(h).len() implies (#[trigger] q.map_values(h)[b]).len() == 0 by { assert(q[b].1 == far(true, r)); assert(h(q[b]).len() == 0); }
                flatten_none(q.map_values(h));
            }
            let all = line.attrs.rng(tid::<T>());
            let vi = line.vals_of::<T>((i, i));
            let e = |v: T| if eqv(v, *x) { seq![((), far(true, (i, i)))] } else { Seq::empty() };
            let f = |v: T| if eqv(v, *x) { seq![(((), w), ToIdx(i))] } else { Seq::empty() };
            filter_has(all, (i, i), starting(i as int));
            filter_distinct(all, starting(i as int));
            if rs.contains((i, i)) {
                let j = choose|j: int| 0 <= j < rs.len() && rs[j] == (i, i);
                flatten_only(z, j);
                let q = vi.map_values(e);
                flat_flat(q, h);
                assert(z[j] == q.flatten().map_values(h).flatten());
                let y = q.map_values(hh);
                assert forall|b: int| 0 <= b < y.len() implies #[trigger] y[b] == vi.map_values(f)[b] by {
                    flatten_one(q[b].map_values(h));
                    if eqv(vi[b], *x) { assert(q[b].len() == 1); assert(q[b][0] == ((), ToIdx(i))); assert(h(((), ToIdx(i))) == seq![(((), w), ToIdx(i))]); assert(q[b].map_values(h).len() == 1); assert(q[b].map_values(h)[0] == h(q[b][0])); } else { assert(q[b].map_values(h).len() == 0); }
                }
                assert(y =~= vi.map_values(f));
            } else {
                assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).len() == 0 by { assert(rs.contains(rs[k])); }
                flatten_none(z);
                assert(vi.len() == 0);
                flatten_none(vi.map_values(f));
            }
        },
    }
}
pub proof fn flat_filter<T, C>(v: Seq<T>, p: spec_fn(T) -> bool, c: C)
    ensures v.map_values(|x: T| if p(x) { seq![c] } else { Seq::empty() }).flatten() == Seq::new(v.filter(p).len(), |i: int| c)
    decreases v.len()
{
    let f = |x: T| if p(x) { seq![c] } else { Seq::empty() };
    if v.len() == 0 { reveal(Seq::filter); flatten_none(v.map_values(f)); assert(v.map_values(f).flatten() =~= Seq::new(v.filter(p).len(), |i: int| c)); } else {
        let d = v.drop_last();
        flat_filter(d, p, c);
        assert(v =~= d.push(v.last()));
        filter_push(d, v.last(), p);
        assert(v.map_values(f) =~= d.map_values(f).push(f(v.last())));
        flatten_push(d.map_values(f), f(v.last()));
        assert(v.map_values(f).flatten() =~= Seq::new(v.filter(p).len(), |i: int| c));
    }
}
/// what is assigned to each token of a selection by itself
pub open spec fn per_index<A>(s: LLSelection, f: spec_fn(int) -> Seq<A>) -> Seq<LLCursorAssignment<A>> {
    Seq::new((s.end_idx - s.start_idx + 1) as nat, |k: int| on_token(s.start_idx + k, f(s.start_idx + k))).flatten()
}
/// the dictionary's tags for a word, noun if it is not known
pub open spec fn pos_tags(w: Seq<char>) -> Seq<Tag> { match dictionary(lower(w)) { Some(t) => t.list(), None => seq![Tag::Noun] } }
pub open spec fn pos_at(line: &LLLine, i: int) -> Seq<Tag> {
    match line.ll_tokens@[i].token { LToken::Text(s, _) => if own(line, i, TextTag::WORD).len() > 0 { pos_tags(s@) } else { Seq::empty() }, LToken::Value => Seq::empty() }
}
/// no token is tagged as a word more than once
pub open spec fn tagged_once(s: LLSelection) -> bool { forall|i: int| s.start_idx <= i <= s.end_idx ==> (#[trigger] own(&s.ll_line, i, TextTag::WORD)).len() <= 1 }
pub open spec fn words_in<'a>(s: LLSelection) -> Seq<(LLSelection, ((), &'a str))> { find_model(&All2(AttrEq { attr: &TextTag::WORD }, TokenText(())), s.ll_line, s.start_idx as int, s.end_idx as int) }
pub open spec fn pos_found<'a>(p: (LLSelection, ((), &'a str))) -> Seq<LLCursorAssignment<Tag>> {
    pos_tags(p.1.1@).map_values(|x: Tag| LLCursorAssignment { start_idx: p.0.start_idx, end_idx: p.0.end_idx, value: x })
}
pub proof fn found_inside<P, A>(m: Seq<(LLSelection, P)>, line: Rc<LLLine>, g: spec_fn((LLSelection, P)) -> Seq<LLCursorAssignment<A>>)
    requires all_wf(m, line), forall|p: (LLSelection, P), i: int| 0 <= i < g(p).len() ==> (#[trigger] g(p)[i]).start_idx == p.0.start_idx && g(p)[i].end_idx == p.0.end_idx
    ensures given_inside(m.map_values(g).flatten(), line.n())
{
    let p = |x: LLCursorAssignment<A>| x.start_idx <= x.end_idx && x.end_idx < line.n();
    let s = m.map_values(g);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() implies p(#[trigger] s[i][j]) by { assert(m[i].0.wf()); assert(s[i][j] == g(m[i])[j]); }
    flatten_all(s, p);
    assert forall|k: int| 0 <= k < s.flatten().len() implies p(#[trigger] s.flatten()[k]) by {}
}
pub proof fn pos_lemma<'a>(s: LLSelection)
    requires s.wf() ensures tagged_once(s) ==> words_in::<'a>(s).map_values(|p: (LLSelection, ((), &'a str))| pos_found(p)).flatten() == per_index(s, |i: int| pos_at(&s.ll_line, i))
{
    broadcast use string_str_is;
    if tagged_once(s) {
        let m = All2(AttrEq { attr: &TextTag::WORD }, TokenText(()));
        let g = |p: (LLSelection, ((), &'a str))| pos_found(p);
        let (a, n) = (s.start_idx as int, (s.end_idx - s.start_idx + 1) as nat);
        let parts = Seq::new(n, |k: int| forwards_from(&m, s.ll_line, a + k, a + k));
        flat_flat(parts, g);
        let x = parts.map_values(|q: Seq<(LLSelection, ((), &'a str))>| q.map_values(g).flatten());
        let y = Seq::new(n, |k: int| on_token(a + k, pos_at(&s.ll_line, a + k)));
        assert forall|k: int| 0 <= k < n implies #[trigger] x[k] == y[k] by {
            let i = (a + k) as usize;
            let q = parts[k];
            tagged_lemma(&*s.ll_line, i, &TextTag::WORD);
            let o = own(&s.ll_line, a + k, TextTag::WORD);
            match s.ll_line.ll_tokens@[a + k].token {
                LToken::Text(w, _) => {
                    let v = s.ll_line.vals_of::<TextTag>((i, i));
                    let p = |v: TextTag| eqv(v, TextTag::WORD);
                    let c = (((), string_str(&w)), ToIdx(i));
                    flat_filter(v, p, c);
                    assert(v.map_values(|x: TextTag| if p(x) { seq![c] } else { Seq::empty() }) =~= v.map_values(|v: TextTag| if eqv(v, TextTag::WORD) { seq![(((), string_str(&w)), ToIdx(i))] } else { Seq::empty() }));
                    assert(o == v.filter(p));
                    flatten_one(q.map_values(g));
                    if o.len() == 0 {
                        assert(q.len() == 0);
                        assert(x[k] =~= y[k]);
                    } else {
                        assert(o.len() == 1);
                        assert(q.len() == 1);
                        assert(q[0] == (sel(s.ll_line, a + k, a + k), ((), string_str(&w))));
                        assert(q.map_values(g).len() == 1);
                        assert(x[k] =~= y[k]);
                    }
                },
                LToken::Value => { assert(q.len() == 0); flatten_one(q.map_values(g)); assert(x[k] =~= y[k]); },
            }
        }
        assert(x =~= y);
        let f = |i: int| pos_at(&s.ll_line, i);
        assert(y =~= Seq::new(n, |k: int| on_token(a + k, f(a + k))));
        assert(words_in::<'a>(s) == parts.flatten());
        assert(per_index(s, f) == y.flatten());
    }
}
pub proof fn word_has_tag(w: Seq<char>) ensures pos_tags(w).len() > 0 { broadcast use dictionary_law; }
/// what separates clauses: keywords and punctuation
pub open spec fn clause_marks<'a>() -> AnyOf2Matcher<Attr<ClauseKeyword>, AttrEq<'a, TextTag>> { AnyOf2Matcher(Attr(PhantomData), AttrEq { attr: &TextTag::PUNC }) }
pub open spec fn stretches(s: LLSelection, p: Seq<LLSelection>) -> bool { is_split(&s, find_model(&clause_marks(), s.ll_line, s.start_idx as int, s.end_idx as int), p) }
pub open spec fn trimmed(p: LLSelection) -> Option<LLSelection> { trim_model(&AttrEq { attr: &TextTag::SPACE }, &p, true, true) }
/// the keyword directly before a stretch
pub open spec fn keyword_before(p: LLSelection) -> Option<ClauseKeyword> {
    if p.start_idx == 0 { None } else {
        let f = attr_model::<ClauseKeyword>(false, (p.start_idx - 1) as usize, &p.ll_line);
        if f.len() == 0 { None } else { Some(*f[0].0) }
    }
}
pub open spec fn is_condition(p: LLSelection) -> bool { trimmed(p).is_some() && keyword_before(p) == Some(ClauseKeyword::ConditionStart) }
pub open spec fn condition_in(ps: Seq<LLSelection>, n: int) -> bool { exists|j: int| 0 <= j < n && is_condition(#[trigger] ps[j]) }
pub open spec fn clause_label(p: LLSelection, alone: bool, after_condition: bool) -> Clause {
    if keyword_before(p) == Some(ClauseKeyword::ConditionStart) { Clause::Condition }
    else if alone { Clause::Independent }
    else if keyword_before(p) == Some(ClauseKeyword::Then) || after_condition { Clause::TrailingEffect }
    else { Clause::LeadingEffect }
}
/// the clauses of the first n stretches
pub open spec fn clauses_upto(ps: Seq<LLSelection>, n: int) -> Seq<LLCursorAssignment<Clause>> decreases n {
    if n <= 0 { Seq::empty() } else {
        clauses_upto(ps, n - 1) + (match trimmed(ps[n - 1]) {
            Some(t) => seq![LLCursorAssignment { start_idx: t.start_idx, end_idx: t.end_idx, value: clause_label(ps[n - 1], ps.len() == 1, condition_in(ps, n - 1)) }],
            None => Seq::empty(),
        })
    }
}
pub proof fn clauses_inside(s: LLSelection, ps: Seq<LLSelection>, n: int)
    requires pieces_inside(&s, ps), s.wf(), 0 <= n <= ps.len() ensures given_inside(clauses_upto(ps, n), s.ll_line.n())
    decreases n
{
    if n > 0 {
        clauses_inside(s, ps, n - 1);
        let p = ps[n - 1];
        let m = AttrEq { attr: &TextTag::SPACE };
        m.go_reach(&XForwards { from_idx: p.start_idx }, line_of(p.ll_line));
        m.go_reach(&XBackwards { from_idx: p.end_idx }, line_of(p.ll_line));
    }
}
pub broadcast proof fn phantom_same<A>(a: Attr<A>, b: Attr<A>) ensures #[trigger] same(a, b) {}
pub proof fn condition_step(ps: Seq<LLSelection>, n: int) requires 0 < n <= ps.len() ensures condition_in(ps, n) == (condition_in(ps, n - 1) || is_condition(ps[n - 1]))
{
    if condition_in(ps, n) { let j = choose|j: int| 0 <= j < n && is_condition(#[trigger] ps[j]); if j < n - 1 { assert(condition_in(ps, n - 1)); } }
    if condition_in(ps, n - 1) { let j = choose|j: int| 0 <= j < n - 1 && is_condition(#[trigger] ps[j]); assert(is_condition(ps[j])); }
}

// ---------------------------------------------------------------- amounts
/// the text of a token which has the tag x by itself
pub open spec fn tagged_at(line: &LLLine, i: int, x: TextTag) -> Option<Seq<char>> {
    match line.ll_tokens@[i].token { LToken::Text(s, _) => if own(line, i, x).len() > 0 { Some(s@) } else { None }, LToken::Value => None }
}
pub open spec fn nat_at(line: &LLLine, i: int) -> Option<Seq<char>> { if 0 <= i < line.n() { tagged_at(line, i, TextTag::NATN) } else { None } }
/// a token is one of these characters
pub open spec fn mark_at(line: &LLLine, i: int, set: Seq<char>) -> bool { 0 <= i < line.n() && exists|k: int| 0 <= k < line.vals_of::<char>((i as usize, i as usize)).len() && set.contains(#[trigger] line.vals_of::<char>((i as usize, i as usize))[k]) }
/// the last token of the digits and delimiters which go on after digits at e
pub open spec fn groups_end(line: &LLLine, c: &AmountResolver, e: int) -> int decreases line.n() - e {
    if 0 <= e && e + 2 < line.n() && mark_at(line, e + 1, c.delimiters@) && nat_at(line, e + 2).is_some() { groups_end(line, c, e + 2) } else { e }
}
pub open spec fn groups_text(line: &LLLine, c: &AmountResolver, e: int) -> Seq<char> decreases line.n() - e {
    if 0 <= e && e + 2 < line.n() && mark_at(line, e + 1, c.delimiters@) && nat_at(line, e + 2).is_some() { nat_at(line, e + 2).unwrap() + groups_text(line, c, e + 2) } else { Seq::empty() }
}
pub open spec fn has_fraction(line: &LLLine, c: &AmountResolver, e: int) -> bool { mark_at(line, e + 1, seq![c.decimal]) && nat_at(line, e + 2).is_some() }
pub open spec fn whole_text(line: &LLLine, c: &AmountResolver, i: int) -> Seq<char> { nat_at(line, i).unwrap() + groups_text(line, c, i) }
/// the number which starts with the digits at i: its last token, and how it is written
pub open spec fn number_end(line: &LLLine, c: &AmountResolver, i: int) -> int {
    let e = groups_end(line, c, i);
    if has_fraction(line, c, e) { e + 2 } else { e }
}
pub open spec fn number_text(line: &LLLine, c: &AmountResolver, i: int) -> Seq<char> {
    let e = groups_end(line, c, i);
    if has_fraction(line, c, e) { whole_text(line, c, i).push('.') + nat_at(line, e + 2).unwrap() } else { whole_text(line, c, i) }
}
/// the amounts of all numbers which start at a or right of it, up to b
pub open spec fn amounts_from(line: &LLLine, c: &AmountResolver, a: int, b: int) -> Seq<LLCursorAssignment<Amount>> decreases (if a <= b { b - a + 1 } else { 0 }) {
    if a > b { Seq::empty() } else if nat_at(line, a).is_none() { amounts_from(line, c, a + 1, b) } else {
        let e = number_end(line, c, a);
        let rest = amounts_from(line, c, (if e >= a { e } else { a }) + 1, b);
        match decimal_of(number_text(line, c, a)) { Some(d) => seq![LLCursorAssignment { start_idx: a as usize, end_idx: e as usize, value: Amount(d) }] + rest, None => rest }
    }
}
/// tokens tagged as numbers are digits, and neither delimiter nor decimal mark is a number
pub open spec fn plain_numbers(line: &LLLine, c: &AmountResolver) -> bool {
    forall|i: int| (#[trigger] nat_at(line, i)).is_some() ==> nat_at(line, i).unwrap().len() > 0 && all_digits(nat_at(line, i).unwrap()) && !mark_at(line, i, c.delimiters@) && !mark_at(line, i, seq![c.decimal])
}
pub proof fn groups_lemma(line: &LLLine, c: &AmountResolver, e: int)
    requires 0 <= e < line.n() ensures e <= groups_end(line, c, e) < line.n(), plain_numbers(line, c) ==> all_digits(groups_text(line, c, e)),
        !(mark_at(line, groups_end(line, c, e) + 1, c.delimiters@) && nat_at(line, groups_end(line, c, e) + 2).is_some()),
    decreases line.n() - e
{
    if e + 2 < line.n() && mark_at(line, e + 1, c.delimiters@) && nat_at(line, e + 2).is_some() { groups_lemma(line, c, e + 2); }
}
pub proof fn amounts_skip(line: &LLLine, c: &AmountResolver, a: int, i: int, b: int)
    requires a <= i <= b + 1, forall|j: int| a <= j < i ==> (#[trigger] nat_at(line, j)).is_none()
    ensures amounts_from(line, c, a, b) == amounts_from(line, c, i, b)
    decreases i - a
{ if a < i { assert(nat_at(line, a).is_none()); amounts_skip(line, c, a + 1, i, b); } }
/// everything about the number at i that the scanner relies on
pub proof fn number_lemma(line: &LLLine, c: &AmountResolver, i: int, b: int)
    requires line.wf(), 0 <= i <= b, b < line.n(), nat_at(line, i).is_some()
    ensures
        i <= groups_end(line, c, i) <= number_end(line, c, i) < line.n(),
        plain_numbers(line, c) ==> decimal_of(whole_text(line, c, i).push('.')) == decimal_of(whole_text(line, c, i)),
        plain_numbers(line, c) && (mark_at(line, number_end(line, c, i) + 1, c.delimiters@) || mark_at(line, number_end(line, c, i) + 1, seq![c.decimal])) ==>
            amounts_from(line, c, number_end(line, c, i) + 1, b) == amounts_from(line, c, number_end(line, c, i) + 2, b),
        number_end(line, c, i) >= b ==> amounts_from(line, c, number_end(line, c, i) + 1, b) == Seq::<LLCursorAssignment<Amount>>::empty(),
        number_end(line, c, i) + 1 >= b ==> amounts_from(line, c, number_end(line, c, i) + 2, b) == Seq::<LLCursorAssignment<Amount>>::empty(),
{
    groups_lemma(line, c, i);
    if plain_numbers(line, c) {
        assert(nat_at(line, i).unwrap().len() > 0 && all_digits(nat_at(line, i).unwrap()));
        decimal_point_at_end(whole_text(line, c, i));
        let e = number_end(line, c, i);
        if mark_at(line, e + 1, c.delimiters@) || mark_at(line, e + 1, seq![c.decimal]) {
            assert(nat_at(line, e + 1).is_none());
            if e + 1 <= b { amounts_skip(line, c, e + 1, e + 2, b); }
        }
    }
}
pub proof fn flat_first<T>(s: Seq<Seq<T>>)
    ensures match seq_first(s.flatten()) {
        Some(x) => exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].len() > 0 && x == s[i][0] && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).len() == 0,
        None => forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() == 0,
    }
    decreases s.len()
{
    reveal(Seq::flatten);
    if s.len() > 0 {
        let d = s.drop_first();
        flat_first(d);
        assert(s.flatten() == s[0] + d.flatten());
        if s[0].len() > 0 { assert(s.flatten()[0] == s[0][0]); } else {
            assert(s.flatten() =~= d.flatten());
            if s.flatten().len() > 0 {
                let i = choose|i: int| #![trigger d[i]] 0 <= i < d.len() && d[i].len() > 0 && d.flatten()[0] == d[i][0] && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]).len() == 0;
                assert(s[i + 1] == d[i]);
                assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] s[j]).len() == 0 by { if j > 0 { assert(d[j - 1].len() == 0); } }
            } else {
                assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).len() == 0 by { if j > 0 { assert(d[j - 1].len() == 0); } }
            }
        }
    }
}
/// the first of what is found by asking a token for a tag of its own and its text
pub open spec fn is_first_tagged<'a>(line: Rc<LLLine>, i: int, start: int, x: TextTag, r: Option<(LLSelection, ((), &'a str))>) -> bool {
    match tagged_at(&line, i, x) { Some(t) => r.is_some() && r.unwrap().0 == sel(line, start, i) && r.unwrap().1.1@ == t, None => r.is_none() }
}
pub proof fn tagged_first_lemma<'a>(m: &All2<AttrEq<'a, TextTag>, TokenText>, line: Rc<LLLine>, i: int, start: int)
    requires line.wf(), 0 <= i < line.n()
    ensures is_first_tagged(line, i, start, *m.0.attr, seq_first(forwards_from(m, line, i, start)))
{
    broadcast use string_str_is;
    let k = i as usize;
    let x = *m.0.attr;
    tagged_lemma(&*line, k, m.0.attr);
    assert(*m == All2(AttrEq { attr: m.0.attr }, TokenText(())));
    let o = own(&line, i, x);
    match line.ll_tokens@[i].token {
        LToken::Text(w, _) => {
            let v = line.vals_of::<TextTag>((k, k));
            let p = |v: TextTag| eqv(v, x);
            let c = (((), string_str(&w)), ToIdx(k));
            flat_filter(v, p, c);
            assert(v.map_values(|y: TextTag| if p(y) { seq![c] } else { Seq::empty() }) =~= v.map_values(|v: TextTag| if eqv(v, x) { seq![(((), string_str(&w)), ToIdx(k))] } else { Seq::empty() }));
            assert(o == v.filter(p));
        },
        LToken::Value => {},
    }
}
pub broadcast proof fn tagged_first<'a>(m: &All2<AttrEq<'a, TextTag>, TokenText>, line: Rc<LLLine>, i: int, start: int)
    ensures line.wf() && 0 <= i < line.n() ==> is_first_tagged(line, i, start, *m.0.attr, seq_first(#[trigger] forwards_from(m, line, i, start)))
{ if line.wf() && 0 <= i < line.n() { tagged_first_lemma(m, line, i, start); } }
/// the first token from a to b which has a tag
pub open spec fn is_next_tagged<'a>(line: Rc<LLLine>, a: int, b: int, x: TextTag, r: Option<(LLSelection, ((), &'a str))>) -> bool {
    match r {
        Some(p) => a <= p.0.start_idx <= b && p.0 == sel(line, p.0.start_idx as int, p.0.start_idx as int) && tagged_at(&line, p.0.start_idx as int, x) == Some(p.1.1@) && forall|j: int| a <= j < p.0.start_idx ==> (#[trigger] tagged_at(&line, j, x)).is_none(),
        None => forall|j: int| a <= j <= b ==> (#[trigger] tagged_at(&line, j, x)).is_none(),
    }
}
pub proof fn tagged_next_lemma<'a>(m: &All2<AttrEq<'a, TextTag>, TokenText>, line: Rc<LLLine>, a: int, b: int)
    requires line.wf(), 0 <= a <= b < line.n()
    ensures is_next_tagged(line, a, b, *m.0.attr, seq_first(find_model(m, line, a, b)))
{
    let s = Seq::new((b - a + 1) as nat, |k: int| forwards_from(m, line, a + k, a + k));
    flat_first(s);
    assert forall|j: int| a <= j <= b implies is_first_tagged(line, j, j, *m.0.attr, seq_first(#[trigger] s[j - a])) by { tagged_first_lemma(m, line, j, j); }
    assert forall|j: int| a <= j <= b && s[j - a].len() == 0 implies (#[trigger] tagged_at(&line, j, *m.0.attr)).is_none() by { assert(is_first_tagged(line, j, j, *m.0.attr, seq_first(s[j - a]))); }
    let f = s.flatten();
    assert(f == find_model(m, line, a, b));
    if f.len() > 0 {
        let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].len() > 0 && f[0] == s[i][0] && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).len() == 0;
        assert(is_first_tagged(line, a + i, a + i, *m.0.attr, seq_first(s[a + i - a])));
        assert forall|j: int| a <= j < a + i implies (#[trigger] tagged_at(&line, j, *m.0.attr)).is_none() by { assert(s[j - a].len() == 0); }
    } else {
        assert forall|j: int| a <= j <= b implies (#[trigger] tagged_at(&line, j, *m.0.attr)).is_none() by { assert(s[j - a].len() == 0); }
    }
}
pub broadcast proof fn tagged_next<'a>(m: &All2<AttrEq<'a, TextTag>, TokenText>, line: Rc<LLLine>, a: int, b: int)
    ensures line.wf() && 0 <= a <= b < line.n() ==> is_next_tagged(line, a, b, *m.0.attr, seq_first(#[trigger] find_model(m, line, a, b)))
{ if line.wf() && 0 <= a <= b < line.n() { tagged_next_lemma(m, line, a, b); } }
pub open spec fn is_first_mark<O>(line: Rc<LLLine>, i: int, start: int, set: Seq<char>, r: Option<(LLSelection, O)>) -> bool {
    r.is_some() == mark_at(&line, i, set) && (r.is_some() ==> r.unwrap().0 == sel(line, start, i))
}
pub broadcast proof fn mark_first<'a>(m: &TokenHasAny<'a, char>, line: Rc<LLLine>, i: int, start: int)
    ensures line.wf() && 0 <= i < line.n() ==> is_first_mark(line, i, start, m.one_of@, seq_first(#[trigger] forwards_from(m, line, i, start)))
{
    broadcast use eqv_char;
    if line.wf() && 0 <= i < line.n() {
        let k = i as usize;
        let v = line.vals_of::<char>((k, k));
        let set = m.one_of@;
        let f = |v: char| if slice_has(set, &v) { seq![(&v, ToIdx(k))] } else { Seq::empty() };
        let s = v.map_values(f);
        assert(one_of_model::<char>(k, set, &line) == s.flatten());
        flat_first(s);
        assert forall|c: char| slice_has(set, &c) == #[trigger] set.contains(c) by {
            if set.contains(c) { let j = choose|j: int| 0 <= j < set.len() && set[j] == c; assert(eqv(set[j], c)); }
        }
        if s.flatten().len() > 0 {
            let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].len() > 0 && s.flatten()[0] == s[j][0] && forall|l: int| 0 <= l < j ==> (#[trigger] s[l]).len() == 0;
            assert(s[j] == f(v[j]));
            assert(set.contains(v[j]));
        } else if mark_at(&line, i, set) {
            let j = choose|j: int| 0 <= j < v.len() && set.contains(#[trigger] v[j]);
            assert(s[j] == f(v[j]));
            assert(s[j].len() == 1);
        }
    }
}
pub broadcast proof fn push_then<T>(a: Seq<T>, x: T, f: Seq<T>) ensures #[trigger] (a.push(x) + f) == a + (seq![x] + f) { assert(a.push(x) + f =~= a + (seq![x] + f)); }
pub broadcast proof fn then_nothing<T>(a: Seq<T>, f: Seq<T>) ensures f.len() == 0 ==> #[trigger] (a + f) == a { if f.len() == 0 { assert(a + f =~= a); } }
pub broadcast proof fn add_add<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast group group_amounts { tagged_first, tagged_next, mark_first, push_then, then_nothing, add_add }
