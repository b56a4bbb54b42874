## ------------------------------------------------------------ C15: amounts
@fn Amount::get_decimal
@props C15
@ensures
*r == self.0,
@fn Amount::new
@props C15
@ensures
r.0 == into_of::<T, Decimal>(${from|p0}),
@fn From for Amount::from
@props C15
@ensures
r.0 == ${dec|p0},
@fn AmountResolver::new
@props C15
@ensures
r.delimiters@ == ${delimiters|p0}@,
r.decimal == ${decimal|p1},
@fn AmountResolver::english
@props C15
@ensures
r.delimiters@ == seq![',', '\''],
r.decimal == '.',
@fn AmountResolver::french
@props C15
@ensures
r.delimiters@ == seq![' ', '.', '\''],
r.decimal == ',',

@extra impl Resolver for AmountResolver
    open spec fn went(&self, selection: LLSelection, r: Seq<LLCursorAssignment<Amount>>) -> bool { plain_numbers(&selection.ll_line, self) ==> r == amounts_from(&selection.ll_line, self, selection.start_idx as int, selection.end_idx as int) }
@fn Resolver for AmountResolver::go
@props C15
@use only group_amounts
@ghost
let ghost gv_given = ${search_range_sel|p0};
let ghost mut gv_i0: int = 0;
@loop 0
@invariant
gv_given.wf(),
${search_range_sel|p0}.wf(),
${search_range_sel|p0}.ll_line == gv_given.ll_line,
${search_range_sel|p0}.end_idx == gv_given.end_idx,
given_inside(${attrs|0}@, gv_given.ll_line.n()),
@loop_except_break
plain_numbers(&gv_given.ll_line, self) ==> ${attrs|0}@ + amounts_from(&gv_given.ll_line, self, ${search_range_sel|p0}.start_idx as int, gv_given.end_idx as int) == amounts_from(&gv_given.ll_line, self, gv_given.start_idx as int, gv_given.end_idx as int),
@loop_ensures
plain_numbers(&gv_given.ll_line, self) ==> ${attrs|0}@ == amounts_from(&gv_given.ll_line, self, gv_given.start_idx as int, gv_given.end_idx as int),
@loop_decreases
${search_range_sel|p0}.end_idx - ${search_range_sel|p0}.start_idx
@loop_begin
gv_i0 = ${selection|1}.start_idx as int;
assert forall|j: int| ${search_range_sel|p0}.start_idx <= j < gv_i0 implies (#[trigger] nat_at(&gv_given.ll_line, j)).is_none() by { assert(tagged_at(&gv_given.ll_line, j, TextTag::NATN).is_none()); }
amounts_skip(&gv_given.ll_line, self, ${search_range_sel|p0}.start_idx as int, gv_i0, gv_given.end_idx as int);
number_lemma(&gv_given.ll_line, self, gv_i0, gv_given.end_idx as int);
@loop_exit
assert forall|j: int| ${search_range_sel|p0}.start_idx <= j < gv_given.end_idx + 1 implies (#[trigger] nat_at(&gv_given.ll_line, j)).is_none() by { assert(tagged_at(&gv_given.ll_line, j, TextTag::NATN).is_none()); }
amounts_skip(&gv_given.ll_line, self, ${search_range_sel|p0}.start_idx as int, gv_given.end_idx + 1, gv_given.end_idx as int);
@loop 1
@invariant
gv_given.wf(),
nat_at(&gv_given.ll_line, gv_i0).is_some(),
${selection|1}.wf(),
${selection|1}.ll_line == gv_given.ll_line,
${selection|1}.start_idx == gv_i0,
@loop_except_break
${last_valid_selection|4}.is_none(),
groups_end(&gv_given.ll_line, self, ${selection|1}.end_idx as int) == groups_end(&gv_given.ll_line, self, gv_i0),
${number_string|3}@ + groups_text(&gv_given.ll_line, self, ${selection|1}.end_idx as int) == whole_text(&gv_given.ll_line, self, gv_i0),
@loop_ensures
${number_string|3}@ == whole_text(&gv_given.ll_line, self, gv_i0),
match ${last_valid_selection|4} { None => ${selection|1}.end_idx == groups_end(&gv_given.ll_line, self, gv_i0), Some(l) => l == sel(gv_given.ll_line, gv_i0, groups_end(&gv_given.ll_line, self, gv_i0)) && ${selection|1}.end_idx == groups_end(&gv_given.ll_line, self, gv_i0) + 1 && mark_at(&gv_given.ll_line, ${selection|1}.end_idx as int, self.delimiters@) },
@loop_decreases
gv_given.ll_line.n() - ${selection|1}.end_idx
@loop_after
groups_lemma(&gv_given.ll_line, self, gv_i0);
assert([self.decimal]@ =~= seq![self.decimal]);
assert(${last_valid_selection|4}.is_some() ==> number_end(&gv_given.ll_line, self, gv_i0) == groups_end(&gv_given.ll_line, self, gv_i0));
assert(${last_valid_selection|4}.is_some() ==> number_text(&gv_given.ll_line, self, gv_i0) == ${number_string|3}@);
