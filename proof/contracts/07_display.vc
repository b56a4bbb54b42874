## ------------------------------------------------------------ C14: rendering
@fn LLLineDisplay::new
@props C14
@requires
${ll_line|p0}.wf(),
@ensures
*r.ll_line == *${ll_line|p0},
r.include_attrs@.len() == 0,
r.wf(),

@fn debug_line
@props C14
@requires
${ll_line|p0}.wf(),
@ensures
*r.ll_line == *${ll_line|p0},
r.include_attrs@.len() == 0,
r.wf(),

@fn LLLineDisplay::include
@props C14
@use flatten_one
@requires
old(self).wf(),
@ensures
final(self).wf(),
final(self).ll_line == old(self).ll_line,
noted_rows(final(self).include_attrs@) == noted_rows(old(self).include_attrs@) + rows_of::<T>(old(self).ll_line, old(self).ll_line.attrs.rng(tid::<T>()).len() as int),
@ghost
let ghost gv_was = noted_rows(self.include_attrs@); let ghost gv_line = self.ll_line;
@begin
line_spans_lemma::<T>(gv_line);
@end
rows_inside_of::<T>(gv_line, gv_line.attrs.rng(tid::<T>()).len() as int);
assert(rows_inside(gv_was + rows_of::<T>(gv_line, gv_line.attrs.rng(tid::<T>()).len() as int), gv_line.n()));
@loop 0
@loop_before
assert(gv_was + rows_of::<T>(gv_line, 0) =~= gv_was);
@invariant
self.ll_line == gv_line,
gv_line == old(self).ll_line,
gv_was == noted_rows(old(self).include_attrs@),
lg0 == refs(gv_line.attrs.rng(tid::<T>())),
noted_rows(self.include_attrs@) == gv_was + rows_of::<T>(gv_line, lk0),
@loop_ghost
let ghost gv_done = noted_rows(self.include_attrs@);
@loop_end
assert(noted_rows(self.include_attrs@) =~= gv_was + rows_of::<T>(gv_line, lk0));
@loop 1
@loop_before
assert(gv_line.attrs.rng(tid::<T>()).contains(*lx0));
assert(lg1 =~= gv_line.attrs.values@[*lx0].get_debug_spec::<T>().reverse());
assert(gv_done + rows_at::<T>(gv_line, *lx0).take(0) =~= gv_done);
@invariant
self.ll_line == gv_line,
lg1.len() == rows_at::<T>(gv_line, *lx0).len(),
forall|i: int| 0 <= i < lg1.len() ==> (#[trigger] lg1[i])@ == rows_at::<T>(gv_line, *lx0)[i].1,
noted_rows(self.include_attrs@) == gv_done + rows_at::<T>(gv_line, *lx0).take(lk1),
@loop_ghost
let ghost gv_prev = self.include_attrs@;
@loop_end
assert(noted_rows(self.include_attrs@) =~= noted_rows(gv_prev).push((*lx0, lx1@)));
assert(rows_at::<T>(gv_line, *lx0).take(lk1) =~= rows_at::<T>(gv_line, *lx0).take(lk1 - 1).push(rows_at::<T>(gv_line, *lx0)[lk1 - 1]));
assert(noted_rows(self.include_attrs@) =~= gv_done + rows_at::<T>(gv_line, *lx0).take(lk1));
@loop_after
assert(rows_at::<T>(gv_line, *lx0).take(lk1) =~= rows_at::<T>(gv_line, *lx0));

@fn LLLineDisplay::with
@props C14
@requires
self.wf(),
@ensures
r.wf(),
r.ll_line == self.ll_line,
noted_rows(r.include_attrs@) == noted_rows(self.include_attrs@) + rows_of::<T>(self.ll_line, self.ll_line.attrs.rng(tid::<T>()).len() as int),

@fn Display for LLLineDisplay::fmt
@props C14
@requires
self.wf(),
@ensures
r.is_ok() ==> final(${f|p0}).out() == old(${f|p0}).out() + drawn(self.ll_line.ll_tokens@, noted_rows(self.include_attrs@)),
@ghost
let ghost gv_t = self.ll_line.ll_tokens@; let ghost gv_rows = noted_rows(self.include_attrs@); let ghost gv_out0 = ${f|p0}.out();
@begin
reveal_strlit("<>"); reveal_strlit("  ");
assert(gv_out0 + drawn(gv_t, gv_rows) == gv_out0 + (top(gv_t, gv_t.len() as int) + rows_text(gv_t, gv_rows, gv_rows.len() as int)));
@end
assert(r.is_ok() ==> ${f|p0}.out() =~= gv_out0 + drawn(gv_t, gv_rows));
@loop 0
@invariant
lg0 == refs(gv_t),
${is_first|0} == (lk0 == 0),
${opening_line|0}@ == top(gv_t, lk0),
${token_idx_to_start_display_char_idx|0}@.len() == lk0,
${token_idx_to_end_display_char_idx|0}@.len() == lk0,
left_cols(${token_idx_to_start_display_char_idx|0}@, gv_t),
right_cols(${token_idx_to_end_display_char_idx|0}@, gv_t),
@loop_begin
assert(top(gv_t, lk0 - 1) + seq![' ', ' '] =~= top(gv_t, lk0 - 1).push(' ').push(' '));
assert(top(gv_t, lk0 - 1) + seq![' ', ' '] =~= top(gv_t, lk0 - 1) + times(' ', 2));
assert(top(gv_t, lk0 - 1) + seq![' ', ' '] =~= top(gv_t, lk0 - 1) + "  "@);
@loop_end
assert(${opening_line|0}@ =~= top(gv_t, lk0));
@loop 1
@loop_before
assert(${f|p0}.out() =~= gv_out0 + top(gv_t, gv_t.len() as int) + rows_text(gv_t, gv_rows, 0));
@invariant
lg1 == refs(self.include_attrs@),
${f|p0}.out() == gv_out0 + top(gv_t, gv_t.len() as int) + rows_text(gv_t, gv_rows, lk1),
@loop_begin
assert(rows_inside(gv_rows, self.ll_line.n()));
assert(lx1.0 == gv_rows[lk1 - 1].0 && lx1.1@ == gv_rows[lk1 - 1].1);
cols_mono(gv_t, lx1.0.0 as int, lx1.0.1 as int);
@loop_ghost
let ghost gv_base = ${f|p0}.out(); let ghost gv_at = width(before(gv_t, lx1.0.0 as int)) as int;
@loop_end
assert(${f|p0}.out() =~= gv_base + marker(gv_t, lx1.0) + lx1.1@);
assert(${f|p0}.out() =~= gv_out0 + top(gv_t, gv_t.len() as int) + rows_text(gv_t, gv_rows, lk1));
@loop 2
@invariant
lg2.len() == gv_at,
${f|p0}.out() =~= gv_base + seq!['\n'] + times(' ', lk2),
@loop 3
@invariant
lg3.len() == (if width(top(gv_t, lx1.0.1 + 1)) - gv_at > 2 { width(top(gv_t, lx1.0.1 + 1)) - gv_at - 2 } else { 0 }),
${f|p0}.out() =~= gv_base + seq!['\n'] + times(' ', gv_at) + seq!['╰'] + times('─', lk3),
