## ------------------------------------------------------------ C17: clauses
@extra impl Resolver for ClauseResolver
    open spec fn went(&self, selection: LLSelection, r: Seq<LLCursorAssignment<Clause>>) -> bool { exists|p: Seq<LLSelection>| #[trigger] stretches(selection, p) && r == clauses_upto(p, p.len() as int) }
@fn Resolver for ClauseResolver::go
@props C17
@use only phantom_same
@loop 0
@invariant
stretches(${selection|p0}, lg0),
lg0.len() != 1,
lout0@ == clauses_upto(lg0, lk0),
${condition_clause_found|0} == condition_in(lg0, lk0),
@loop_end
condition_step(lg0, lk0);
@end
let ps = ${clauses|1}@;
assert(stretches(${selection|p0}, ps));
clauses_inside(${selection|p0}, ps, ps.len() as int);
reveal_with_fuel(clauses_upto, 3);
assert(r@ =~= clauses_upto(ps, ps.len() as int));
