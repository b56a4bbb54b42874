@fn LLSelection::from_line
@props C08
@requires
${ll_line|p0}.wf(),
@ensures
match r { Some(s) => s.wf() && s.ll_line == ${ll_line|p0} && s.start_idx == 0 && s.end_idx + 1 == ${ll_line|p0}.n(), None => ${ll_line|p0}.n() == 0 },

@fn PartialEq for LLSelection::eq
@props C22
@ensures
r == (self.ll_line == ${other|p0}.ll_line && self.start_idx == ${other|p0}.start_idx && self.end_idx == ${other|p0}.end_idx),

@fn LLSelection::find_by
@props C09 C08
@requires
self.wf(),
@ensures [C09]
r@ == find_model(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int),
@ensures [C08]
all_wf(r@, self.ll_line),
@begin
find_wf(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int);

@fn LLSelection::find_first_by
@props C09 C08
@requires
self.wf(),
@ensures [C09]
r == seq_first(find_model(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int)),
@ensures [C08]
r.is_some() ==> r.unwrap().0.wf() && r.unwrap().0.ll_line == self.ll_line,

@fn LLSelection::find_by_forwards_and_backwards
@props C09 C08
@requires
self.wf(),
@ensures [C09]
r@ == two_way_model(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int),
@ensures [C08]
all_wf(r@, self.ll_line),
@begin
two_way_wf(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int);

@fn LLSelection::match_forwards
@props C11 C08
@requires
self.wf(),
@ensures [C11]
r@ == (if self.end_idx + 1 == self.ll_line.n() { Seq::empty() } else { forwards_from(${matcher|p0}, self.ll_line, self.end_idx + 1, self.start_idx as int) }),
@ensures [C08]
all_wf(r@, self.ll_line),
@begin
if self.end_idx + 1 < self.ll_line.n() { forwards_wf(${matcher|p0}, self.ll_line, self.end_idx + 1, self.start_idx as int); }

@fn LLSelection::match_first_forwards
@props C11 C08
@requires
self.wf(),
@ensures [C11]
r == seq_first(if self.end_idx + 1 == self.ll_line.n() { Seq::empty() } else { forwards_from(${matcher|p0}, self.ll_line, self.end_idx + 1, self.start_idx as int) }),
@ensures [C08]
r.is_some() ==> r.unwrap().0.wf() && r.unwrap().0.ll_line == self.ll_line,

@fn LLSelection::match_backwards
@props C11 C08
@requires
self.wf(),
@ensures [C11]
r@ == (if self.start_idx == 0 { Seq::empty() } else { backwards_from(${matcher|p0}, self.ll_line, self.start_idx - 1, self.end_idx as int) }),
@ensures [C08]
all_wf(r@, self.ll_line),
@begin
if self.start_idx > 0 { backwards_wf(${matcher|p0}, self.ll_line, self.start_idx - 1, self.end_idx as int); }

@fn LLSelection::match_first_backwards
@props C11 C08
@requires
self.wf(),
@ensures [C11]
r == seq_first(if self.start_idx == 0 { Seq::empty() } else { backwards_from(${matcher|p0}, self.ll_line, self.start_idx - 1, self.end_idx as int) }),
@ensures [C08]
r.is_some() ==> r.unwrap().0.wf() && r.unwrap().0.ll_line == self.ll_line,

@fn LLSelection::after
@props C13 C08
@requires
self.wf(),
@ensures [C13 C08]
r == (if self.end_idx + 1 == self.ll_line.n() { None } else { Some(sel(self.ll_line, self.end_idx + 1, self.ll_line.n() - 1)) }),

@fn LLSelection::selection_from
@props C13 C10 C08
@spec
@requires
self.wf(),
@ensures
r == clamp(self, ${start_idx|p0} as int, ${end_idx|p1} as int),

@fn LLSelection::split_with
@props C13 C08
@requires
self.wf(),
${other_selection|p0}.wf(),
${other_selection|p0}.ll_line == self.ll_line,
@ensures [C13 C08]
r@[0] == clamp(self, self.start_idx as int, ${other_selection|p0}.start_idx - 1),
r@[1] == clamp(self, ${other_selection|p0}.end_idx + 1, self.end_idx as int),

@fn LLSelection::trim_selection
@props C12 C08
@requires
self.wf(),
@ensures [C12 C08]
r == trim_model(${matcher|p0}, self, ${from_start|p1}, ${from_end|p2}),
@begin
${matcher|p0}.go_reach(&XForwards { from_idx: self.start_idx }, line_of(self.ll_line));
${matcher|p0}.go_reach(&XBackwards { from_idx: self.end_idx }, line_of(self.ll_line));

@fn LLSelection::trim_start
@props C12 C08
@requires
self.wf(),
@ensures [C12 C08]
r == trim_model(${matcher|p0}, self, true, false),

@fn LLSelection::trim_end
@props C12 C08
@requires
self.wf(),
@ensures [C12 C08]
r == trim_model(${matcher|p0}, self, false, true),

@fn LLSelection::trim
@props C12 C08
@requires
self.wf(),
@ensures [C12 C08]
r == trim_model(${matcher|p0}, self, true, true),

@fn LLSelection::finish_with_attr
@props C05
@spec
@ensures
r == (LLCursorAssignment { start_idx: self.start_idx, end_idx: self.end_idx, value: ${value|p0} }),

@fn LLSelection::split_by
@props C10 C08
@use only flatten_ext
@requires
self.wf(),
@ensures [C08]
pieces_inside(self, r@),
@ensures [C10]
is_split(self, find_model(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int), r@),
@ghost
let ghost gv_found = find_model(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int);
@begin
split_setup(${matcher|p0}, self);
@loop 0
@invariant
gv_found == find_model(${matcher|p0}, self.ll_line, self.start_idx as int, self.end_idx as int),
lg0.len() == (if gv_found.len() >= 1 { gv_found.len() - 1 } else { 0 }),
forall|i: int| 0 <= i < lg0.len() ==> #[trigger] lg0[i] == i + 1,
${matches|0}@.len() == gv_found.len(),
forall|i: int| 0 <= i < gv_found.len() ==> (#[trigger] ${matches|0}@[i]).0.start_idx == gv_found[i].0.start_idx && ${matches|0}@[i].0.end_idx == (if i <= lk0 { furthest(gv_found, i) } else { gv_found[i].0.end_idx as int }),
@loop_after
assert(forall|i: int| 0 <= i < gv_found.len() ==> (#[trigger] ${matches|0}@[i]).0.end_idx == furthest(gv_found, i));
assert(forall|i: int| 0 <= i < gv_found.len() ==> (#[trigger] ${matches|0}@[i]).0.end_idx < usize::MAX);
@end
let n = gv_found.len() as int;
reveal_with_fuel(gaps, 3);
if n > 0 {
    let mid = Seq::new((n - 1) as nat, |i: int| gap(self, gv_found, i + 1));
    gaps_middle(self, gv_found, mid);
    assert(r@ =~= gaps(self, gv_found, n) + opt_seq(gap(self, gv_found, n)));
} else { assert(r@ =~= gaps(self, gv_found, 1)); }
