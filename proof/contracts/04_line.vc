@fn LLLine::ll_tokens
@props C01 C02 C03 C21
@ensures
r@ == self.ll_tokens@,

@fn LLLineAttrs::insert
@props C04 C05
@requires
old(self).wf(old(self).starts_at@.len()),
${range|p0}.0 <= ${range|p0}.1,
${range|p0}.1 < old(self).starts_at@.len(),
@ensures
final(self).starts_at@.len() == old(self).starts_at@.len(),
final(self).wf(old(self).starts_at@.len()),
follows(*old(self), seq![(${range|p0}, tid::<T>(), erase::<T>(${value|p1}))], *final(self)),
forall|a: LLLineAttrs, h: Seq<Att>| #[trigger] follows(a, h, *old(self)) ==> follows(a, h.push((${range|p0}, tid::<T>(), erase::<T>(${value|p1}))), *final(self)),
forall|h: Seq<Att>| #[trigger] made_of(h, *old(self)) ==> made_of(h.push((${range|p0}, tid::<T>(), erase::<T>(${value|p1}))), *final(self)),
@end
assert(stepped(*old(self), (${range|p0}, tid::<T>(), erase::<T>(${value|p1})), *self));
step_wf(*old(self), (${range|p0}, tid::<T>(), erase::<T>(${value|p1})), *self, old(self).starts_at@.len());
follows_push(*old(self), (${range|p0}, tid::<T>(), erase::<T>(${value|p1})), *self);

@fn LLLine::add_any_attrs
@props C04 C20
@requires
old(self).wf(),
${start_idx|p0} <= ${end_idx|p1},
${end_idx|p1} < old(self).n(),
forall|i: int| 0 <= i < ${attrs|p2}@.len() ==> (#[trigger] ${attrs|p2}@[i]).wf(),
@ensures
final(self).wf(),
final(self).ll_tokens@ == old(self).ll_tokens@,
follows(old(self).attrs, any_hist((${start_idx|p0}, ${end_idx|p1}), ${attrs|p2}@), final(self).attrs),
@ghost
let ghost gv_all = ${attrs|p2}@; let ghost gv_span = (${start_idx|p0}, ${end_idx|p1});
@loop 0
@loop_before
assert(any_hist(gv_span, gv_all.take(0)) =~= Seq::empty());
@invariant
lg0 == gv_all,
gv_span == (${start_idx|p0}, ${end_idx|p1}),
gv_span.0 <= gv_span.1,
gv_span.1 < self.n(),
self.wf(),
self.ll_tokens@ == old(self).ll_tokens@,
forall|i: int| 0 <= i < gv_all.len() ==> (#[trigger] gv_all[i]).wf(),
follows(old(self).attrs, any_hist(gv_span, gv_all.take(lk0)), self.attrs),
@loop_ghost
let ghost gv_before = self.attrs;
@loop_end
let e = (gv_span, lx0.0, lx0.2.val());
assert(stepped(gv_before, e, self.attrs));
step_wf(gv_before, e, self.attrs, self.n());
follows_trans(old(self).attrs, any_hist(gv_span, gv_all.take(lk0 - 1)), gv_before, seq![e], self.attrs);
assert(any_hist(gv_span, gv_all.take(lk0)) =~= any_hist(gv_span, gv_all.take(lk0 - 1)) + seq![e]);
@loop_after
assert(gv_all.take(lk0) =~= gv_all);

@fn LLLine::new
@props C03 C04 C20
@ensures
r.wf(),
r.ll_tokens@ == ${ll_tokens|p0}@,
made_of(auto_hist(${ll_tokens|p0}@, ${ll_tokens|p0}@.len() as int), r.attrs),
@loop 0
@loop_before
fresh_lemma(${attrs|0}, ${ll_tokens|p0}@.len());
@invariant
lg0 == enumerated(refs(${ll_tokens|p0}@)),
${attrs|0}.wf(${ll_tokens|p0}@.len()),
made_of(auto_hist(${ll_tokens|p0}@, lk0), ${attrs|0}),
@loop_end
let i = lk0 - 1;
let h = auto_hist(${ll_tokens|p0}@, i);
match ${ll_tokens|p0}@[i].token {
    LToken::Text(s, tag) => {
        let e = ((i as usize, i as usize), tid::<TextTag>(), erase::<TextTag>(tag));
        if s@.len() == 1 { assert(auto_hist(${ll_tokens|p0}@, lk0) =~= h.push(((i as usize, i as usize), tid::<char>(), erase::<char>(s@[0]))).push(e)); } else { assert(auto_hist(${ll_tokens|p0}@, lk0) =~= h.push(e)); }
    },
    LToken::Value => { assert(auto_hist(${ll_tokens|p0}@, lk0) =~= h); },
}

@fn LLLine::query
@props C04
@begin
line_spans_lemma::<T>(self); reveal_strlit("");
@end
assert forall|i: int| 0 <= i < r@.len() implies (#[trigger] r@[i]).1@ == text_of(self.ll_tokens@, r@[i].0) && r@[i].2@ == refs(self.vals_of::<T>(r@[i].0)) by { assert(self.attrs.ranges.at(tid::<T>()).contains(r@[i].0)); }
@requires
self.wf(),
@ensures
r@.len() == self.attrs.rng(tid::<T>()).len(),
forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self.attrs.rng(tid::<T>())[i] && r@[i].1@ == text_of(self.ll_tokens@, r@[i].0) && r@[i].2@ == refs(self.vals_of::<T>(r@[i].0)),

@extra trait Resolver
    /// what this resolver may assign in a selection
    spec fn went(&self, selection: LLSelection, r: Seq<LLCursorAssignment<Self::Attr>>) -> bool;

@fn Resolver::go
@props C05
@requires
${selection|p0}.wf(),
@ensures
self.went(${selection|p0}, r@),
given_inside(r@, ${selection|p0}.ll_line.n()),

@fn LLLine::run
@props C05
@requires
self.wf(),
@ensures
r.wf(),
r.ll_tokens@ == self.ll_tokens@,
self.n() == 0 ==> r == self,
self.n() > 0 ==> exists|s: Seq<LLCursorAssignment<R::Attr>>| #[trigger] ${recognizer|p0}.went(sel(Rc::new(self), 0, self.n() - 1), s) && follows(self.attrs, given(s), r.attrs),
@loop 0
@loop_before
assert(given(lg0.take(0)) =~= Seq::empty());
assert(self.n() > 0 ==> ${recognizer|p0}.went(sel(Rc::new(self), 0, self.n() - 1), lg0));
@invariant
self.n() == 0 ==> lg0.len() == 0 && self_m == self,
self_m.wf(),
self_m.ll_tokens@ == self.ll_tokens@,
given_inside(lg0, self.n()),
follows(self.attrs, given(lg0.take(lk0)), self_m.attrs),
@loop_end
assert(given(lg0.take(lk0)) =~= given(lg0.take(lk0 - 1)).push(((lx0.start_idx, lx0.end_idx), tid::<R::Attr>(), erase::<R::Attr>(lx0.value))));
@loop_after
assert(lg0.take(lk0) =~= lg0);

@fn LLLine::find
@props C09 C02
@requires
self.wf(),
@ensures
r@ == line_find_model(${matcher|p0}, self),
@begin
assert forall|i: int| 0 <= i < self.n() implies all_reach(true, i as usize, self, #[trigger] ${matcher|p0}.go_spec(&XForwards { from_idx: i as usize }, self)) by { ${matcher|p0}.go_reach(&XForwards { from_idx: i as usize }, self); }

@fn LLLineFind::range
@props C02 C09
@ensures
r == (self.start_pos_at, self.end_pos_at),

@fn LLLineFind::attr
@props C09
@ensures
*r == self.found,
