## ------------------------------------------------------------ C01, C02, C03: from text to tokens
@fn is_spaces
@props C03
@ensures
r == all_white(${input|p0}@),
@loop 0
@invariant
lg0 == ${input|p0}@,
forall|i: int| 0 <= i < lk0 ==> c_white(#[trigger] lg0[i]),

@fn is_word
@props C03
@use word_like_rest
@ensures
r == word_like(${input|p0}@),
@loop 0
@invariant
${input|p0}@.len() > 0,
c_alpha(${input|p0}@[0]),
lg0 == ${input|p0}@.drop_first(),
forall|i: int| 1 <= i < lk0 + 1 ==> in_word(#[trigger] ${input|p0}@[i]),

@fn get_unicode_word_tag
@props C03
@ensures
r == plain_tag(${word|p0}@),

@fn create_tokens_for_string
@props C01 C02 C03 C21
@use group_text
@requires
forall|s: &str| call_requires(${get_text_size|p1}, (s,)),
@ensures
cut_texts(r@) == ${input|p0}@,
cut_ok(r@),
cut_sized(r@, ${get_text_size|p1}),
${input|p0}@.len() > 0 ==> r@.len() > 0,
@ensures [C21]
cut_words(r@) =~= text_cut(${input|p0}@),
@ghost
let ghost gv_words = word_bounds(${input|p0}@);
@loop 0
@loop_before
assert(gv_words.take(0).flatten() =~= Seq::<char>::empty());
@invariant [C21]
cut_words(${ltokens|0}@) =~= words_cut(gv_words.take(lk0)),
@invariant
lg0.len() == gv_words.len(),
forall|i: int| 0 <= i < lg0.len() ==> (#[trigger] lg0[i])@ == gv_words[i],
forall|i: int| 0 <= i < gv_words.len() ==> (#[trigger] gv_words[i]).len() > 0,
forall|s: &str| call_requires(${get_text_size|p1}, (s,)),
cut_texts(${ltokens|0}@) =~= gv_words.take(lk0).flatten(),
cut_ok(${ltokens|0}@),
cut_sized(${ltokens|0}@, ${get_text_size|p1}),
@loop_ghost
let ghost gv_before = cut_texts(${ltokens|0}@); let ghost gv_word = lx0@; let ghost gv_before_words = cut_words(${ltokens|0}@);
@loop_end
assert(gv_words.take(lk0) =~= gv_words.take(lk0 - 1).push(gv_word));
flatten_push(gv_words.take(lk0 - 1), gv_word);
words_push(gv_words.take(lk0 - 1), gv_word);
assert(cut_words(${ltokens|0}@) =~~= gv_before_words + word_cut(gv_word));
@loop_after
assert(gv_words.take(lk0) =~= gv_words);
@loop 1
@loop_before
assert(gv_word.take(0) =~= Seq::<char>::empty());
assert(runs(gv_word.take(0)) =~= Seq::<Seq<char>>::empty());
@invariant [C21]
with_run(with_run(cut_words(${ltokens|0}@), ${collected_digits|0}@), ${collected_letters|0}@) == gv_before_words + runs(gv_word.take(lk1)),
lk1 > 0 ==> kind_of(gv_word[lk1 - 1]) == (if ${collected_digits|0}@.len() > 0 { 0int } else if ${collected_letters|0}@.len() > 0 { 1 } else { 2 }),
lk1 == 0 ==> ${collected_digits|0}@.len() == 0 && ${collected_letters|0}@.len() == 0,
@invariant
lg1 == gv_word,
forall|s: &str| call_requires(${get_text_size|p1}, (s,)),
cut_texts(${ltokens|0}@) + ${collected_digits|0}@ + ${collected_letters|0}@ =~= gv_before + gv_word.take(lk1),
all_digits(${collected_digits|0}@),
all_letters(${collected_letters|0}@),
${collected_digits|0}@.len() == 0 || ${collected_letters|0}@.len() == 0,
cut_ok(${ltokens|0}@),
cut_sized(${ltokens|0}@, ${get_text_size|p1}),
@loop_end
assert(gv_word.take(lk1) =~= gv_word.take(lk1 - 1).push(lx1));
runs_step(gv_before_words, gv_word, lk1);
@loop_after
assert(gv_word.take(lk1) =~= gv_word);

@fn create_line_from_input_tokens
@props C01 C02 C03 C20 C21
@use total_push
@requires
forall|s: &str| call_requires(${get_text_size|p1}, (s,)),
forall|i: int| 0 <= i < ${input|p0}@.len() ==> good_input(#[trigger] ${input|p0}@[i]),
fits(${input|p0}@, ${get_text_size|p1}) || in_bytes(${input|p0}@, ${get_text_size|p1}),
@ensures
r.wf(),
line_made(${input|p0}@, ${get_text_size|p1}, r),
@ensures [C01]
line_text(r.ll_tokens@) == input_text(${input|p0}@, ${input|p0}@.len() as int),
@ensures [C02]
tiled(r.ll_tokens@),
in_bytes(${input|p0}@, ${get_text_size|p1}) ==> byte_sized(r.ll_tokens@),
@ensures [C01]
in_bytes(${input|p0}@, ${get_text_size|p1}) ==> line_text(r.ll_tokens@) == input_str(${input|p0}@[0]),
@ensures [C21]
line_words(r.ll_tokens@) == input_cuts(${input|p0}@, ${input|p0}@.len() as int),
in_bytes(${input|p0}@, ${get_text_size|p1}) ==> line_words(r.ll_tokens@) == text_cut(input_str(${input|p0}@[0])),
@ensures [C03 C01]
forall|i: int| 0 <= i < r.ll_tokens@.len() ==> right_tag((#[trigger] r.ll_tokens@[i]).token),
@begin
if in_bytes(${input|p0}@, ${get_text_size|p1}) { one_fits(${input|p0}@, ${get_text_size|p1}); }
@ghost
let ghost mut gv_cuts: Seq<Seq<(LToken, usize)>> = Seq::empty();
@end
line_words_lemma(${input|p0}@, gv_cuts, ${get_text_size|p1}, r.ll_tokens@);
made_lemma(${input|p0}@, gv_cuts, ${get_text_size|p1}, r.ll_tokens@);
if in_bytes(${input|p0}@, ${get_text_size|p1}) { one_made(${input|p0}@, ${get_text_size|p1}, r); }
@loop 0
@loop_before
assert(gv_cuts.flatten() =~= Seq::empty());
@invariant
lg0 == ${input|p0}@,
gv_cuts.len() == lk0,
cuts_from(${input|p0}@, gv_cuts, ${get_text_size|p1}),
laid(${lltokens|0}@, gv_cuts.flatten()),
${current_size|0} == total(gv_cuts.flatten()),
noted(${input|p0}@, gv_cuts, ${start_idx_end_idx_attributes|0}@),
@loop_ghost
let ghost gv_cuts0 = gv_cuts;
@loop_end
noted_push(${input|p0}@, gv_cuts0, gv_cuts.last(), ${start_idx_end_idx_attributes|0}@);
@loop 1
@loop_before
assert(cut_from(${input|p0}@[lk0 - 1], lg1, ${get_text_size|p1}));
assert(cuts_from(${input|p0}@, gv_cuts.push(lg1), ${get_text_size|p1}));
flatten_push(gv_cuts, lg1);
@invariant
gv_cuts == gv_cuts0,
laid(${lltokens|0}@, gv_cuts.flatten() + lg1.take(lk1)),
${current_size|0} == total(gv_cuts.flatten() + lg1.take(lk1)),
@loop_begin
total_le(gv_cuts.flatten() + lg1, (gv_cuts.flatten().len() + lk1) as int);
assert((gv_cuts.flatten() + lg1).take(gv_cuts.flatten().len() + lk1) =~= (gv_cuts.flatten() + lg1.take(lk1 - 1)).push(lx1));
@loop_ghost
let ghost gv_toks0 = ${lltokens|0}@;
@loop_end
laid_push(gv_toks0, gv_cuts.flatten() + lg1.take(lk1 - 1), ${lltokens|0}@.last(), lx1);
assert(gv_cuts.flatten() + lg1.take(lk1) =~= (gv_cuts.flatten() + lg1.take(lk1 - 1)).push(lx1));
@loop_after
assert(lg1.take(lk1) =~= lg1);
gv_cuts = gv_cuts.push(lg1);
@loop 2
@loop_before
assert(auto_hist(${ll_line|0}.ll_tokens@, ${ll_line|0}.n() as int) + given_hist(${input|p0}@, gv_cuts, 0) =~= auto_hist(${ll_line|0}.ll_tokens@, ${ll_line|0}.n() as int));
@invariant
noted(${input|p0}@, gv_cuts, lg2),
${ll_line|0}.wf(),
laid(${ll_line|0}.ll_tokens@, gv_cuts.flatten()),
made_of(auto_hist(${ll_line|0}.ll_tokens@, ${ll_line|0}.n() as int) + given_hist(${input|p0}@, gv_cuts, lk2), ${ll_line|0}.attrs),
@loop_begin
span_inside(gv_cuts, lk2 - 1);
@loop_ghost
let ghost gv_attrs0 = ${ll_line|0}.attrs;
@loop_end
made_trans(auto_hist(${ll_line|0}.ll_tokens@, ${ll_line|0}.n() as int) + given_hist(${input|p0}@, gv_cuts, lk2 - 1), gv_attrs0, any_hist(span_at(gv_cuts, lk2 - 1), attrs_of(${input|p0}@[lk2 - 1])), ${ll_line|0}.attrs);
assert(auto_hist(${ll_line|0}.ll_tokens@, ${ll_line|0}.n() as int) + given_hist(${input|p0}@, gv_cuts, lk2) =~= auto_hist(${ll_line|0}.ll_tokens@, ${ll_line|0}.n() as int) + given_hist(${input|p0}@, gv_cuts, lk2 - 1) + any_hist(span_at(gv_cuts, lk2 - 1), attrs_of(${input|p0}@[lk2 - 1])));
