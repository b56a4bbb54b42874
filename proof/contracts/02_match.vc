@extra trait XDirection
    spec fn fwd(&self) -> bool;
    spec fn at(&self) -> usize;
    spec fn after_spec(&self, idx: usize, ll_line: &'l LLLine) -> Option<Self>;
    proof fn after_law(&self, idx: usize, ll_line: &'l LLLine)
        requires idx < ll_line.ll_tokens@.len(), ll_line.wf()
        ensures after_is(self.fwd(), idx, ll_line.n(), match self.after_spec(idx, ll_line) { Some(d) => Some((d.fwd(), d.at())), None => None });

@fn XDirection::attr
@props C06
@requires
${ll_line|p0}.wf(),
self.at() < ${ll_line|p0}.ll_tokens@.len(),
@ensures
r@ == attr_model::<T>(self.fwd(), self.at(), ${ll_line|p0}),
all_reach(self.fwd(), self.at(), ${ll_line|p0}, r@),

@fn XDirection::attr_eq
@props C06
@requires
${ll_line|p1}.wf(),
self.at() < ${ll_line|p1}.ll_tokens@.len(),
@ensures
r@ == attr_eq_model::<T>(self.fwd(), self.at(), *${equals|p0}, ${ll_line|p1}),
all_reach(self.fwd(), self.at(), ${ll_line|p1}, r@),

@fn XDirection::token_attr_one_of
@props C06
@requires
${ll_line|p1}.wf(),
self.at() < ${ll_line|p1}.ll_tokens@.len(),
@ensures
r@ == one_of_model::<T>(self.at(), ${set|p0}@, ${ll_line|p1}),
all_reach(self.fwd(), self.at(), ${ll_line|p1}, r@),

@fn XDirection::text_token
@props C06
@requires
${ll_line|p0}.wf(),
self.at() < ${ll_line|p0}.ll_tokens@.len(),
@ensures
is_text_model(r, self.at(), ${ll_line|p0}),

@fn XDirection::after
@props C07
@spec
@requires
${idx|p0} < ${ll_line|p1}.ll_tokens@.len(),
@ensures
r == self.after_spec(${idx|p0}, ${ll_line|p1}),
after_is(self.fwd(), ${idx|p0}, ${ll_line|p1}.n(), match r { Some(d) => Some((d.fwd(), d.at())), None => None }),

@extra impl XDirection for XForwards
    open spec fn fwd(&self) -> bool { true }
    open spec fn at(&self) -> usize { self.from_idx }
    open spec fn after_spec(&self, idx: usize, ll_line: &'l LLLine) -> Option<Self> {
        if idx + 1 < ll_line.ll_tokens@.len() { Some(XForwards { from_idx: (idx + 1) as usize }) } else { None }
    }
    proof fn after_law(&self, idx: usize, ll_line: &'l LLLine) {}

@extra impl XDirection for XBackwards
    open spec fn fwd(&self) -> bool { false }
    open spec fn at(&self) -> usize { self.from_idx }
    open spec fn after_spec(&self, idx: usize, ll_line: &'l LLLine) -> Option<Self> {
        if idx > 0 { Some(XBackwards { from_idx: (idx - 1) as usize }) } else { None }
    }
    proof fn after_law(&self, idx: usize, ll_line: &'l LLLine) {}

@fn XDirection for XForwards::attr
@props C06
@begin
spans_lemma::<T>(true, self.from_idx, ${ll_line|p0});
@end
attr_lemma::<T>(true, self.from_idx, ${ll_line|p0});

@fn XDirection for XForwards::attr_eq
@props C06
@begin
spans_lemma::<T>(true, self.from_idx, ${ll_line|p1});
@end
attr_eq_lemma::<T>(true, self.from_idx, *${equals|p0}, ${ll_line|p1});

@fn XDirection for XForwards::token_attr_one_of
@props C06
@use group_filter
@begin
spans_lemma::<T>(true, self.from_idx, ${ll_line|p1});
@end
one_of_lemma::<T>(self.from_idx, ${set|p0}@, ${ll_line|p1});

@fn XDirection for XForwards::text_token
@props C06

@fn XDirection for XForwards::after
@props C07

@fn XDirection for XBackwards::attr
@props C06
@begin
spans_lemma::<T>(false, self.from_idx, ${ll_line|p0});
@end
attr_lemma::<T>(false, self.from_idx, ${ll_line|p0});

@fn XDirection for XBackwards::attr_eq
@props C06
@begin
spans_lemma::<T>(false, self.from_idx, ${ll_line|p1});
@end
attr_eq_lemma::<T>(false, self.from_idx, *${equals|p0}, ${ll_line|p1});

@fn XDirection for XBackwards::token_attr_one_of
@props C06
@use group_filter
@begin
spans_lemma::<T>(false, self.from_idx, ${ll_line|p1});
@end
one_of_lemma::<T>(self.from_idx, ${set|p0}@, ${ll_line|p1}); one_of_bwd_lemma::<T>(self.from_idx, ${set|p0}@, ${ll_line|p1});

@fn XDirection for XBackwards::text_token
@props C06

@fn XDirection for XBackwards::after
@props C07

@extra trait XMatch
    spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)>;
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine)
        requires ll_line.wf(), direction.at() < ll_line.ll_tokens@.len()
        ensures all_reach(direction.fwd(), direction.at(), ll_line, self.go_spec(direction, ll_line));

@fn XMatch::go
@props C07 C08
@spec
@requires
${ll_line|p1}.wf(),
${direction|p0}.at() < ${ll_line|p1}.ll_tokens@.len(),
@ensures
r@ == self.go_spec(${direction|p0}, ${ll_line|p1}),
all_reach(${direction|p0}.fwd(), ${direction|p0}.at(), ${ll_line|p1}, r@),

@extra impl XMatch for Attr
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        attr_model::<A>(direction.fwd(), direction.at(), ll_line)
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        attr_lemma::<A>(direction.fwd(), direction.at(), ll_line);
    }

@fn XMatch for Attr::go
@props C06
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for AttrEq
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        attr_eq_model::<Attr>(direction.fwd(), direction.at(), *self.attr, ll_line)
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        attr_eq_lemma::<Attr>(direction.fwd(), direction.at(), *self.attr, ll_line);
    }

@fn XMatch for AttrEq::go
@props C06
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for TokenHasAny
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        one_of_model::<Attr>(direction.at(), self.one_of@, ll_line)
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        one_of_lemma::<Attr>(direction.at(), self.one_of@, ll_line);
    }

@fn XMatch for TokenHasAny::go
@props C06
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for TokenText
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        text_model(direction.at(), ll_line)
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
    }

@fn XMatch for TokenText::go
@props C06
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});
@end
text_lemma2(r@, ${direction|p0}.at(), ${ll_line|p1});

@extra impl XMatch for Seq2
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        self.0.go_spec(direction, ll_line).map_values(|p: (A::Out, ToIdx)| match direction.after_spec(p.1.0, ll_line) {
            Some(d) => self.1.go_spec(&d, ll_line).map_values(|q: (B::Out, ToIdx)| ((p.0, q.0), q.1)),
            None => Seq::empty(),
        }).flatten()
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        let p = |x: (Self::Out, ToIdx)| reach(direction.fwd(), direction.at(), ll_line.n(), x.1);
        self.0.go_reach(direction, ll_line);
        let s = self.0.go_spec(direction, ll_line);
        let m = s.map_values(|p: (A::Out, ToIdx)| match direction.after_spec(p.1.0, ll_line) {
            Some(d) => self.1.go_spec(&d, ll_line).map_values(|q: (B::Out, ToIdx)| ((p.0, q.0), q.1)),
            None => Seq::empty(),
        });
        assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() implies p(#[trigger] m[i][j]) by {
            assert(reach(direction.fwd(), direction.at(), ll_line.n(), s[i].1));
            direction.after_law(s[i].1.0, ll_line);
            let d = direction.after_spec(s[i].1.0, ll_line).unwrap();
            self.1.go_reach(&d, ll_line);
            assert(reach(d.fwd(), d.at(), ll_line.n(), self.1.go_spec(&d, ll_line)[j].1));
        }
        flatten_all(m, p);
    }

@fn XMatch for Seq2::go
@props C07
@use only flatten_ext
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for Seq3
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        self.0.go_spec(direction, ll_line).map_values(|p: (A::Out, ToIdx)| match direction.after_spec(p.1.0, ll_line) {
            Some(d) => self.1.go_spec(&d, ll_line).map_values(|q: (B::Out, ToIdx)| match direction.after_spec(q.1.0, ll_line) {
                Some(e) => self.2.go_spec(&e, ll_line).map_values(|s: (C::Out, ToIdx)| ((p.0, q.0, s.0), s.1)),
                None => Seq::empty(),
            }).flatten(),
            None => Seq::empty(),
        }).flatten()
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        let p = |x: (Self::Out, ToIdx)| reach(direction.fwd(), direction.at(), ll_line.n(), x.1);
        self.0.go_reach(direction, ll_line);
        let s = self.0.go_spec(direction, ll_line);
        let m = s.map_values(|p: (A::Out, ToIdx)| match direction.after_spec(p.1.0, ll_line) {
            Some(d) => self.1.go_spec(&d, ll_line).map_values(|q: (B::Out, ToIdx)| match direction.after_spec(q.1.0, ll_line) {
                Some(e) => self.2.go_spec(&e, ll_line).map_values(|s: (C::Out, ToIdx)| ((p.0, q.0, s.0), s.1)),
                None => Seq::empty(),
            }).flatten(),
            None => Seq::empty(),
        });
        assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() implies p(#[trigger] m[i][j]) by {
            assert(reach(direction.fwd(), direction.at(), ll_line.n(), s[i].1));
            direction.after_law(s[i].1.0, ll_line);
            let d = direction.after_spec(s[i].1.0, ll_line).unwrap();
            self.1.go_reach(&d, ll_line);
            let s2 = self.1.go_spec(&d, ll_line);
            let a = s[i];
            let m2 = s2.map_values(|q: (B::Out, ToIdx)| match direction.after_spec(q.1.0, ll_line) {
                Some(e) => self.2.go_spec(&e, ll_line).map_values(|s: (C::Out, ToIdx)| ((a.0, q.0, s.0), s.1)),
                None => Seq::empty(),
            });
            assert forall|k: int, l: int| 0 <= k < m2.len() && 0 <= l < m2[k].len() implies p(#[trigger] m2[k][l]) by {
                assert(reach(d.fwd(), d.at(), ll_line.n(), s2[k].1));
                direction.after_law(s2[k].1.0, ll_line);
                let e = direction.after_spec(s2[k].1.0, ll_line).unwrap();
                self.2.go_reach(&e, ll_line);
                assert(reach(e.fwd(), e.at(), ll_line.n(), self.2.go_spec(&e, ll_line)[l].1));
            }
            flatten_all(m2, p);
            assert(m[i] == m2.flatten());
        }
        flatten_all(m, p);
    }

@fn XMatch for Seq3::go
@props C07
@use only flatten_ext
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for All2
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        self.0.go_spec(direction, ll_line).map_values(|p: (A::Out, ToIdx)|
            self.1.go_spec(direction, ll_line).map_values(|q: (B::Out, ToIdx)| if p.1 == q.1 { seq![((p.0, q.0), p.1)] } else { Seq::empty() }).flatten()
        ).flatten()
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        let p = |x: (Self::Out, ToIdx)| reach(direction.fwd(), direction.at(), ll_line.n(), x.1);
        self.0.go_reach(direction, ll_line);
        let s = self.0.go_spec(direction, ll_line);
        let m = s.map_values(|p: (A::Out, ToIdx)|
            self.1.go_spec(direction, ll_line).map_values(|q: (B::Out, ToIdx)| if p.1 == q.1 { seq![((p.0, q.0), p.1)] } else { Seq::empty() }).flatten()
        );
        assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() implies p(#[trigger] m[i][j]) by {
            assert(reach(direction.fwd(), direction.at(), ll_line.n(), s[i].1));
            let a = s[i];
            let m2 = self.1.go_spec(direction, ll_line).map_values(|q: (B::Out, ToIdx)| if a.1 == q.1 { seq![((a.0, q.0), a.1)] } else { Seq::empty() });
            flatten_all(m2, p);
            assert(m[i] == m2.flatten());
        }
        flatten_all(m, p);
    }

@fn XMatch for All2::go
@props C07
@use only flatten_ext filter_ext filter_flat
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for All3
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        self.0.go_spec(direction, ll_line).map_values(|p: (A::Out, ToIdx)|
            self.1.go_spec(direction, ll_line).map_values(|q: (B::Out, ToIdx)|
                self.2.go_spec(direction, ll_line).map_values(|s: (C::Out, ToIdx)| if p.1 == q.1 && p.1 == s.1 { seq![((p.0, q.0, s.0), p.1)] } else { Seq::empty() }).flatten()
            ).flatten()
        ).flatten()
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        let p = |x: (Self::Out, ToIdx)| reach(direction.fwd(), direction.at(), ll_line.n(), x.1);
        self.0.go_reach(direction, ll_line);
        let s = self.0.go_spec(direction, ll_line);
        let m = s.map_values(|p: (A::Out, ToIdx)|
            self.1.go_spec(direction, ll_line).map_values(|q: (B::Out, ToIdx)|
                self.2.go_spec(direction, ll_line).map_values(|s: (C::Out, ToIdx)| if p.1 == q.1 && p.1 == s.1 { seq![((p.0, q.0, s.0), p.1)] } else { Seq::empty() }).flatten()
            ).flatten()
        );
        assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() implies p(#[trigger] m[i][j]) by {
            assert(reach(direction.fwd(), direction.at(), ll_line.n(), s[i].1));
            let a = s[i];
            let s2 = self.1.go_spec(direction, ll_line);
            let m2 = s2.map_values(|q: (B::Out, ToIdx)|
                self.2.go_spec(direction, ll_line).map_values(|s: (C::Out, ToIdx)| if a.1 == q.1 && a.1 == s.1 { seq![((a.0, q.0, s.0), a.1)] } else { Seq::empty() }).flatten());
            assert forall|k: int, l: int| 0 <= k < m2.len() && 0 <= l < m2[k].len() implies p(#[trigger] m2[k][l]) by {
                let b = s2[k];
                let m3 = self.2.go_spec(direction, ll_line).map_values(|s: (C::Out, ToIdx)| if a.1 == b.1 && a.1 == s.1 { seq![((a.0, b.0, s.0), a.1)] } else { Seq::empty() });
                flatten_all(m3, p);
                assert(m2[k] == m3.flatten());
            }
            flatten_all(m2, p);
            assert(m[i] == m2.flatten());
        }
        flatten_all(m, p);
    }

@fn XMatch for All3::go
@props C07
@use only flatten_ext
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for AnyOf2Matcher
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        if self.0.go_spec(direction, ll_line).len() > 0 { self.0.go_spec(direction, ll_line).map_values(|p: (A::Out, ToIdx)| (AnyOf2::A(p.0), p.1)) }
        else { self.1.go_spec(direction, ll_line).map_values(|p: (B::Out, ToIdx)| (AnyOf2::B(p.0), p.1)) }
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        self.0.go_reach(direction, ll_line);
        self.1.go_reach(direction, ll_line);
        assert(forall|k: int| 0 <= k < self.0.go_spec(direction, ll_line).len() ==> reach(direction.fwd(), direction.at(), ll_line.n(), (#[trigger] self.0.go_spec(direction, ll_line)[k]).1));
        assert(forall|k: int| 0 <= k < self.1.go_spec(direction, ll_line).len() ==> reach(direction.fwd(), direction.at(), ll_line.n(), (#[trigger] self.1.go_spec(direction, ll_line)[k]).1));
    }

@fn XMatch for AnyOf2Matcher::go
@props C07
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});

@extra impl XMatch for AnyOf3Matcher
    open spec fn go_spec<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) -> Seq<(Self::Out, ToIdx)> {
        if self.0.go_spec(direction, ll_line).len() > 0 { self.0.go_spec(direction, ll_line).map_values(|p: (A::Out, ToIdx)| (AnyOf3::A(p.0), p.1)) }
        else if self.1.go_spec(direction, ll_line).len() > 0 { self.1.go_spec(direction, ll_line).map_values(|p: (B::Out, ToIdx)| (AnyOf3::B(p.0), p.1)) }
        else { self.2.go_spec(direction, ll_line).map_values(|p: (C::Out, ToIdx)| (AnyOf3::C(p.0), p.1)) }
    }
    proof fn go_reach<M: XDirection<'l>>(&self, direction: &M, ll_line: &'l LLLine) {
        self.0.go_reach(direction, ll_line);
        self.1.go_reach(direction, ll_line);
        self.2.go_reach(direction, ll_line);
    }

@fn XMatch for AnyOf3Matcher::go
@props C07
@begin
self.go_reach(${direction|p0}, ${ll_line|p1});
