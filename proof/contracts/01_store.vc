@drop Entry -- never constructed by the crate (its constructor is commented out)
@drop OccupiedEntry -- never constructed by the crate (its constructor is commented out)
@drop VacantEntry -- never constructed by the crate (its constructor is commented out)
@drop Bucket::as_any -- returns itself as a trait object; assumed (DynBucket)
@drop Bucket::as_any_mut -- returns itself as a trait object; assumed (DynBucket)
@drop Bucket::debug -- prints for debugging
@drop Bucket::default -- never called
@drop Bucket for Vec::as_any -- returns itself as a trait object; assumed (DynBucket)
@drop Bucket for Vec::as_any_mut -- returns itself as a trait object; assumed (DynBucket)
@drop Bucket for Vec::debug -- prints for debugging

## what a bucket behind a trait object is assumed to do (DynBucket::insert_any) is proved for Vec
@extra trait Bucket
    spec fn takes(&self) -> TypeId;
    spec fn held(&self) -> Seq<Val>;
@extra impl Bucket for Vec
    open spec fn takes(&self) -> TypeId { tid::<T>() }
    open spec fn held(&self) -> Seq<Val> { erased::<T>(self@) }
@fn Bucket::insert_any
@props C04 C20
@requires
old(self).takes() == ${val|p0}.ty(),
@ensures
final(self).takes() == old(self).takes(),
final(self).held() == old(self).held().push(${val|p0}.val()),
@fn Bucket for Vec::insert_any
@props C04 C20
@end
assert(erased::<T>(self@) =~= erased::<T>(old(self)@).push(${val|p0}.val()));

@fn TypeIdToMany::insert_distinct
@props C04
@ensures
final(self).at(tid::<Type>()) == push_new(old(self).at(tid::<Type>()), ${value_to_add|p0}),
forall|t: TypeId| t != tid::<Type>() ==> #[trigger] final(self).at(t) == old(self).at(t),

@fn TypeIdToMany::insert_any_distinct
@props C04
@ensures
final(self).at(${type_id|p0}) == push_new(old(self).at(${type_id|p0}), ${value_to_add|p1}),
forall|t: TypeId| t != ${type_id|p0} ==> #[trigger] final(self).at(t) == old(self).at(t),

@fn TypeIdToMany::get
@props C04 C06
@spec
@ensures
r@ == self.at(tid::<Type>()),

@fn AnyAttribute::new
@props C20
@ensures
r.wf(),
r.0 == tid::<T>(),
r.2.val() == erase::<T>(${value|p0}),

@fn AnyAttribute::extract
@props C20
@requires
self.wf(),
@ensures
match r { Ok(v) => self.0 == tid::<T>() && v == unerase::<T>(self.2.val()) && erase::<T>(v) == self.2.val(), Err(e) => self.0 != tid::<T>() && e == self },

@fn AnyAttribute::type_id
@props C20
@spec
@ensures
r == self.0,

@fn TypeBucket::new
@props C04
@ensures
r.wf(),
forall|t: TypeId| (#[trigger] r.at(t)).len() == 0,

@fn TypeBucket::insert_any_attribute
@props C04 C20
@requires
old(self).wf(),
${arg1|p0}.wf(),
@ensures
final(self).wf(),
final(self).at(${arg1|p0}.0) == old(self).at(${arg1|p0}.0).push(${arg1|p0}.2.val()),
forall|t: TypeId| t != ${arg1|p0}.0 ==> #[trigger] final(self).at(t) == old(self).at(t),

@fn TypeBucket::insert
@props C04
@requires
old(self).wf(),
@ensures
final(self).wf(),
final(self).at(tid::<T>()) == old(self).at(tid::<T>()).push(erase::<T>(${val|p0})),
forall|t: TypeId| t != tid::<T>() ==> #[trigger] final(self).at(t) == old(self).at(t),

@fn TypeBucket::get
@props C04 C06
@spec
@requires
self.wf(),
@ensures
r@ == self.get_spec::<T>(),

@fn TypeBucket::get_debug
@props C14
@spec
@requires
self.wf(),
@ensures
r@ == self.get_debug_spec::<T>(),
@end
assert forall|i: int| 0 <= i < r@.len() implies #[trigger] r@[i] == self.get_debug_spec::<T>()[i] by { string_ext(r@[i], self.get_debug_spec::<T>()[i]); }
assert(r@ =~= self.get_debug_spec::<T>());

@fn TypeBucket::clear
@props C04
@ensures
final(self).wf(),
forall|t: TypeId| (#[trigger] final(self).at(t)).len() == 0,
