## ------------------------------------------------------------ C16: clause keywords
@fn token_text
@props C06
@ensures
true,
@fn ClauseKeywordResolver::new
@props C16
@ensures
r.cond_start@ == ${cond_start|p0}@,
r.and@ == ${and|p1}@,
r.then@ == ${then|p2}@,

@extra impl Resolver for ClauseKeywordResolver
    open spec fn went(&self, selection: LLSelection, r: Seq<LLCursorAssignment<ClauseKeyword>>) -> bool { r == per_token(selection, |t: LLToken| keyword(self, t)) }
@fn Resolver for ClauseKeywordResolver::go
@props C16
@begin
keyword_lemma(self, ${sel|p0});
