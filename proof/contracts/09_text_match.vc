## ------------------------------------------------------------ C18: text lookups
@fn TextMatchAssignResolver::new
@props C18
@ensures
r.case_sensitive,
r.lookup@ == ${lookup|p0}@,

@fn TextMatchAssignResolver::new_case_insensitive
@props C18
@ensures
!r.case_sensitive,
forall|k: Seq<char>| #[trigger] r.at(k) == merged(${lookup|p0}.entries(), k),
@loop 0
@invariant
forall|k: Seq<char>| #[trigger] in_map(${lookup|0}@, k) == merged(lg0.take(lk0), k),
@loop_ghost
let ghost gv_was = ${lookup|0}@;
@loop_end
assert(lg0.take(lk0).drop_last() =~= lg0.take(lk0 - 1));
assert forall|k: Seq<char>| #[trigger] in_map(${lookup|0}@, k) == merged(lg0.take(lk0), k) by {
    assert(in_map(gv_was, k) == merged(lg0.take(lk0 - 1), k));
    assert(in_map(${lookup|0}@, k) =~= merged(lg0.take(lk0), k));
}
@loop_after
assert(lg0.take(lk0) =~= lg0);

@fn TextMatchAssignResolver::new_case_insensitive_str_arr
@props C18
@ensures
!r.case_sensitive,
forall|k: Seq<char>| #[trigger] r.at(k) == merged_pairs(${lookup|p0}@, k),
@ghost
let ghost gv_given = ${lookup|p0}@;
@loop 0
@invariant
lg0 == refs(gv_given),
forall|k: Seq<char>| #[trigger] in_map(${lookup|0}@, k) == merged_pairs(gv_given.take(lk0), k),
@loop_ghost
let ghost gv_was = ${lookup|0}@;
@loop_end
assert(gv_given.take(lk0).drop_last() =~= gv_given.take(lk0 - 1));
assert forall|k: Seq<char>| #[trigger] in_map(${lookup|0}@, k) == merged_pairs(gv_given.take(lk0), k) by {
    assert(in_map(gv_was, k) == merged_pairs(gv_given.take(lk0 - 1), k));
    assert(in_map(${lookup|0}@, k) =~= merged_pairs(gv_given.take(lk0), k));
}
@loop_after
assert(gv_given.take(lk0) =~= gv_given);

@extra impl Resolver for TextMatchAssignResolver
    open spec fn went(&self, selection: LLSelection, r: Seq<LLCursorAssignment<T>>) -> bool { r == per_token(selection, |t: LLToken| looked_up(self, t)) }
@fn Resolver for TextMatchAssignResolver::go
@props C18
@begin
text_match_lemma(self, ${selection|p0});
@use flat_flat_b flatten_one
