## ------------------------------------------------------------ C19: parts of speech
@extra impl Resolver for POSTagResolver
    open spec fn went(&self, selection: LLSelection, r: Seq<LLCursorAssignment<Tag>>) -> bool { tagged_once(selection) ==> r == per_index(selection, |i: int| pos_at(&selection.ll_line, i)) }
@fn Resolver for POSTagResolver::go
@props C19
@begin
pos_lemma(${selection|p0});
@end
found_inside(words_in(${selection|p0}), ${selection|p0}.ll_line, |p: (LLSelection, ((), &str))| pos_found(p));
