/// the number stands for an object of this kind
pub open spec fn is_a(m: Map<int, Any>, id: int, k: int) -> bool { m.dom().contains(id) && kind(m[id]) == k }

pub open spec fn plain_axis(m: Map<int, Any>, id: int, o: DVec3) -> bool {
    is_a(m, id, K_Axis3D) && at(m, m[id]->Axis3D_0.location, Any::Point3D(o)) && !(m[id]->Axis3D_0.local_x is Custom) && !(m[id]->Axis3D_0.local_z is Custom)
}
/// the item i shows the representation old, seen from o, by the operator t
pub open spec fn shows(m: Map<int, Any>, i: int, old: int, o: DVec3, t: int) -> bool {
    &&& is_a(m, i, K_MappedItem)
    &&& m[i]->MappedItem_0.target == t
    &&& m[i]->MappedItem_0.source is Id
    &&& is_a(m, m[i]->MappedItem_0.source->Id_0, K_RepresentationMap)
    &&& m[m[i]->MappedItem_0.source->Id_0]->RepresentationMap_0.representation is Id
    &&& m[m[i]->MappedItem_0.source->Id_0]->RepresentationMap_0.representation->Id_0 == old
    &&& m[m[i]->MappedItem_0.source->Id_0]->RepresentationMap_0.origin is Id
    &&& plain_axis(m, m[m[i]->MappedItem_0.source->Id_0]->RepresentationMap_0.origin->Id_0, o)
}
/// the representation n shows nothing but the representation old, under its name
pub open spec fn moved(m: Map<int, Any>, n: int, old: int, o: DVec3, t: int, ctx: int) -> bool {
    &&& is_a(m, n, K_ShapeRepresentation)
    &&& is_a(m, old, K_ShapeRepresentation)
    &&& m[n]->ShapeRepresentation_0.context_of_items == ctx
    &&& m[n]->ShapeRepresentation_0.representation_type is Custom
    &&& m[n]->ShapeRepresentation_0.representation_type->Custom_0 is MappedRepresentation
    &&& m[n]->ShapeRepresentation_0.representation_identifier is Custom
    &&& m[old]->ShapeRepresentation_0.representation_identifier is Custom
        ==> m[n]->ShapeRepresentation_0.representation_identifier->Custom_0 == m[old]->ShapeRepresentation_0.representation_identifier->Custom_0
    &&& m[n]->ShapeRepresentation_0.items.len() == 1
    &&& shows(m, m[n]->ShapeRepresentation_0.items[0], old, o, t)
}
pub open spec fn turned_to(m: Map<int, Any>, d: OptionalParameter_IdOr_Direction3D, v: DVec3) -> bool {
    d is Custom && d->Custom_0 is Id && at(m, d->Custom_0->Id_0, Any::Direction3D(DVec3_normalize(v)))
}
pub open spec fn unscaled(s: OptionalParameter_RealPrimitive) -> bool { s is Custom && s->Custom_0 == fl_1_0() }
/// the operator turns and moves as asked for, and keeps the size
pub open spec fn operates(m: Map<int, Any>, t: int, p: TransformParameter) -> bool {
    &&& is_a(m, t, K_CartesianTransformationOperator3DnonUniform)
    &&& turned_to(m, m[t]->CartesianTransformationOperator3DnonUniform_0.base.axis_x, p.x_rotation)
    &&& turned_to(m, m[t]->CartesianTransformationOperator3DnonUniform_0.base.axis_y, p.y_rotation)
    &&& turned_to(m, m[t]->CartesianTransformationOperator3DnonUniform_0.base.axis_z, p.z_rotation)
    &&& m[t]->CartesianTransformationOperator3DnonUniform_0.base.local_origin is Custom
    &&& m[t]->CartesianTransformationOperator3DnonUniform_0.base.local_origin->Custom_0 is Id
    &&& at(m, m[t]->CartesianTransformationOperator3DnonUniform_0.base.local_origin->Custom_0->Id_0, Any::Point3D(p.translation))
    &&& unscaled(m[t]->CartesianTransformationOperator3DnonUniform_0.base.scale)
    &&& unscaled(m[t]->CartesianTransformationOperator3DnonUniform_0.scale_y)
    &&& unscaled(m[t]->CartesianTransformationOperator3DnonUniform_0.scale_z)
}
pub open spec fn all_moved(m: Map<int, Any>, n: Seq<int>, old: Seq<int>, o: DVec3, t: int, ctx: int) -> bool {
    n.len() == old.len() && forall|i: int| 0 <= i < n.len() ==> moved(m, #[trigger] n[i], old[i], o, t, ctx)
}
/// everything but the object p is as it was
pub open spec fn kept(m: Map<int, Any>, m1: Map<int, Any>, p: int) -> bool {
    forall|k: int, x: Any| k != p && #[trigger] at(m, k, x) ==> at(m1, k, x)
}
/// the shape p of an object is moved
pub open spec fn shape_moved(m: Map<int, Any>, m1: Map<int, Any>, p: int, prm: TransformParameter, o: DVec3, ctx: int) -> bool {
    &&& is_a(m, p, K_ProductDefinitionShape)
    &&& is_a(m1, p, K_ProductDefinitionShape)
    &&& m1[p]->ProductDefinitionShape_0.name == m[p]->ProductDefinitionShape_0.name
    &&& m1[p]->ProductDefinitionShape_0.description == m[p]->ProductDefinitionShape_0.description
    &&& kept(m, m1, p)
    &&& exists|t: int| #[trigger] operates(m1, t, prm) && all_moved(m1, m1[p]->ProductDefinitionShape_0.representations, m[p]->ProductDefinitionShape_0.representations, o, t, ctx)
}

pub proof fn lem_back(m: Map<int, Any>, a: Any)
    ensures forall|k: int, x: Any| #[trigger] at(ins(m, a), k, x) ==> at(m, k, x) || (k == fresh(m) && x == a),
{
    reveal(ins);
}
pub proof fn lem_put(m: Map<int, Any>, p: int, a: Any)
    ensures at(upd(m, p, a), p, a), forall|k: int, x: Any| k != p && #[trigger] at(m, k, x) ==> at(upd(m, p, a), k, x),
{
    reveal(upd);
}
pub open spec fn grown(m: Map<int, Any>, m1: Map<int, Any>) -> bool {
    forall|k: int, x: Any| #[trigger] at(m, k, x) && kind(x) != K_ProductDefinitionShape ==> at(m1, k, x)
}
pub proof fn lem_moved(m: Map<int, Any>, m1: Map<int, Any>, n: int, old: int, o: DVec3, t: int, ctx: int)
    requires grown(m, m1), moved(m, n, old, o, t, ctx),
    ensures moved(m1, n, old, o, t, ctx),
{
    let i = m[n]->ShapeRepresentation_0.items[0];
    let s = m[i]->MappedItem_0.source->Id_0;
    let a = m[s]->RepresentationMap_0.origin->Id_0;
    assert(at(m, n, m[n]) && at(m, old, m[old]) && at(m, i, m[i]) && at(m, s, m[s]) && at(m, a, m[a]) && at(m, m[a]->Axis3D_0.location, Any::Point3D(o)));
    assert(at(m1, n, m[n]) && at(m1, old, m[old]) && at(m1, i, m[i]) && at(m1, s, m[s]) && at(m1, a, m[a]) && at(m1, m[a]->Axis3D_0.location, Any::Point3D(o)));
}
pub proof fn lem_all_moved(m: Map<int, Any>, m1: Map<int, Any>, n: Seq<int>, old: Seq<int>, o: DVec3, t: int, ctx: int)
    requires grown(m, m1), all_moved(m, n, old, o, t, ctx),
    ensures all_moved(m1, n, old, o, t, ctx),
{
    assert forall|i: int| 0 <= i < n.len() implies moved(m1, #[trigger] n[i], old[i], o, t, ctx) by { lem_moved(m, m1, n[i], old[i], o, t, ctx); }
}
pub proof fn lem_operates(m: Map<int, Any>, m1: Map<int, Any>, t: int, p: TransformParameter)
    requires grown(m, m1), operates(m, t, p),
    ensures operates(m1, t, p),
{
    let x = m[t]->CartesianTransformationOperator3DnonUniform_0.base;
    assert(at(m, t, m[t]));
    assert(at(m1, t, m[t]));
    assert(at(m1, x.axis_x->Custom_0->Id_0, Any::Direction3D(DVec3_normalize(p.x_rotation))));
    assert(at(m1, x.axis_y->Custom_0->Id_0, Any::Direction3D(DVec3_normalize(p.y_rotation))));
    assert(at(m1, x.axis_z->Custom_0->Id_0, Any::Direction3D(DVec3_normalize(p.z_rotation))));
}
/// the list new is the list before and, for each of s, a representation which shows it
pub open spec fn added(m: Map<int, Any>, new: Seq<int>, before: Seq<int>, s: Seq<int>, o: DVec3, t: int, ctx: int) -> bool {
    &&& new.len() == before.len() + s.len()
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] new[i] == before[i]
    &&& forall|i: int| 0 <= i < s.len() ==> moved(m, #[trigger] new[before.len() + i], s[i], o, t, ctx)
}
pub proof fn lem_added(m: Map<int, Any>, m1: Map<int, Any>, n: int, before: Seq<int>, s: Seq<int>, new: Seq<int>, o: DVec3, t: int, ctx: int)
    requires grown(m, m1), s.len() > 0, moved(m, n, s[0], o, t, ctx), added(m1, new, before + seq![n], s.drop_first(), o, t, ctx),
    ensures added(m1, new, before, s, o, t, ctx),
{
    lem_moved(m, m1, n, s[0], o, t, ctx);
    let b = before + seq![n];
    assert forall|i: int| 0 <= i < before.len() implies #[trigger] new[i] == before[i] by { assert(new[i] == b[i]); }
    assert forall|i: int| 0 <= i < s.len() implies moved(m1, #[trigger] new[before.len() + i], s[i], o, t, ctx) by {
        if i == 0 { assert(new[before.len() as int] == b[before.len() as int]); } else {
            assert(s[i] == s.drop_first()[i - 1]);
            assert(new[b.len() + (i - 1)] == new[before.len() + i]);
        }
    }
}
pub proof fn lem_from_none(m: Map<int, Any>, new: Seq<int>, before: Seq<int>, s: Seq<int>, o: DVec3, t: int, ctx: int)
    requires before.len() == 0, added(m, new, before, s, o, t, ctx),
    ensures all_moved(m, new, s, o, t, ctx),
{
    assert forall|i: int| 0 <= i < new.len() implies moved(m, #[trigger] new[i], s[i], o, t, ctx) by {
        assert(new[before.len() + i] == new[i]);
    }
}
