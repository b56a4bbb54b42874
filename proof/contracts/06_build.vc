## ------------------------------------------------------------ building matchers, input tokens and lines
@extra trait Seq
    spec fn seq_spec(self) -> Self::Out;
@extra impl Seq for (A,B)
    open spec fn seq_spec(self) -> Self::Out { Seq2(self.0, self.1) }
@extra impl Seq for (A,B,C)
    open spec fn seq_spec(self) -> Self::Out { Seq3(self.0, self.1, self.2) }
@fn Seq::into_seq
@props C07
@ensures
r == self.seq_spec(),
@fn Seq for (A,B)::into_seq
@props C07
@fn Seq for (A,B,C)::into_seq
@props C07
@fn seq
@props C07
@ensures
r == ${tuple|p0}.seq_spec(),

@extra trait All
    spec fn all_spec(self) -> Self::Out;
@extra impl All for (A,B)
    open spec fn all_spec(self) -> Self::Out { All2(self.0, self.1) }
@extra impl All for (A,B,C)
    open spec fn all_spec(self) -> Self::Out { All3(self.0, self.1, self.2) }
@fn All::into_all
@props C07
@ensures
r == self.all_spec(),
@fn All for (A,B)::into_all
@props C07
@fn All for (A,B,C)::into_all
@props C07
@fn all
@props C07
@ensures
r == ${tuple|p0}.all_spec(),

@extra trait AnyOf
    spec fn any_spec(self) -> Self::Out;
@extra impl AnyOf for (A,B)
    open spec fn any_spec(self) -> Self::Out { AnyOf2Matcher(self.0, self.1) }
@extra impl AnyOf for (A,B,C)
    open spec fn any_spec(self) -> Self::Out { AnyOf3Matcher(self.0, self.1, self.2) }
@fn AnyOf::into_any
@props C07
@ensures
r == self.any_spec(),
@fn AnyOf for (A,B)::into_any
@props C07
@fn AnyOf for (A,B,C)::into_any
@props C07
@fn any_of
@props C07
@ensures
r == ${tuple|p0}.any_spec(),

@fn attr_eq
@props C06
@ensures
r.attr == ${attr|p0},
@fn token_has_any
@props C06
@ensures
r.one_of@ == ${attrs|p0}@,
@fn whitespace
@props C06 C12
@ensures
*r.attr == TextTag::SPACE,
@fn LLToken::get_token
@props C01 C02
@ensures
*r == self.token,

@fn InputToken::text
@props C01 C20
@ensures
r == (InputToken::Text { text: ${text|p0}, attrs: ${attrs|p1} }),
@fn InputToken::custom
@props C02 C20
@ensures
r == (InputToken::Custom { size: ${size|p0}, attrs: ${attrs|p1} }),
@fn InputToken::add_attr
@props C20
@ensures
attrs_of(*final(self)).len() == attrs_of(*old(self)).len() + 1,
forall|i: int| 0 <= i < attrs_of(*old(self)).len() ==> attrs_of(*final(self))[i] == #[trigger] attrs_of(*old(self))[i],
attrs_of(*final(self)).last().wf(),
attrs_of(*final(self)).last().0 == tid::<T>(),
attrs_of(*final(self)).last().2.val() == erase::<T>(${value|p0}),
match (*old(self), *final(self)) { (InputToken::Text { text: a, .. }, InputToken::Text { text: b, .. }) => a == b, (InputToken::Custom { size: a, .. }, InputToken::Custom { size: b, .. }) => a == b, _ => false },

@fn create_tokens
@props C01 C02 C03 C20 C21
@requires
forall|s: &str| call_requires(${get_text_size|p1}, (s,)),
forall|i: int| 0 <= i < ${input|p0}@.len() ==> good_input(#[trigger] ${input|p0}@[i]),
fits(${input|p0}@, ${get_text_size|p1}) || in_bytes(${input|p0}@, ${get_text_size|p1}),
@ensures
r.wf(),
line_made(${input|p0}@, ${get_text_size|p1}, r),
@ensures [C01]
line_text(r.ll_tokens@) == input_text(${input|p0}@, ${input|p0}@.len() as int),
@ensures [C21]
line_words(r.ll_tokens@) == input_cuts(${input|p0}@, ${input|p0}@.len() as int),
@ensures [C02]
tiled(r.ll_tokens@),
in_bytes(${input|p0}@, ${get_text_size|p1}) ==> byte_sized(r.ll_tokens@),
@ensures [C01]
in_bytes(${input|p0}@, ${get_text_size|p1}) ==> line_text(r.ll_tokens@) == input_str(${input|p0}@[0]),
@ensures [C03 C01]
forall|i: int| 0 <= i < r.ll_tokens@.len() ==> right_tag((#[trigger] r.ll_tokens@[i]).token),

@fn create_line_from_string
@props C01 C02 C03 C21
@requires
${input_string|p0}.text().len() > 0,
@ensures
r.wf(),
@ensures [C01]
line_text(r.ll_tokens@) == ${input_string|p0}.text(),
@ensures [C21]
line_words(r.ll_tokens@) == text_cut(${input_string|p0}.text()),
@ensures [C02]
tiled(r.ll_tokens@),
byte_sized(r.ll_tokens@),
@ensures [C03 C01]
forall|i: int| 0 <= i < r.ll_tokens@.len() ==> right_tag((#[trigger] r.ll_tokens@[i]).token),

@extra trait FinishWith
    spec fn each(self) -> Seq<(LLSelection, T)>;
@extra impl FinishWith for I
    open spec fn each(self) -> Seq<(LLSelection, T)> { self.items() }
@fn FinishWith::finish_with
@props C05
@requires
forall|i: int| 0 <= i < self.each().len() ==> call_requires(${f|p0}, ((#[trigger] self.each()[i]).1,)),
@ensures
finished(self.each(), ${f|p0}, r@),
@fn FinishWith for I::finish_with
@props C05
@begin
assert(self.each() == self.items());
@closure 0
r.start_idx == $p.0.start_idx && r.end_idx == $p.0.end_idx && call_ensures(${f|p0}, ($p.1,), r.value)
@closure_requires 0
call_requires(${f|p0}, ($p.1,))

@fn attr
@props C06
@ensures
true,
