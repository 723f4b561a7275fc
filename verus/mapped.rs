/// the number stands for an object of this kind
pub open spec fn has(m: Map<int, Any>, id: int, k: int) -> bool { m.contains_key(id) && kind(m[id]) == k }

pub open spec fn p_axis2(v: Axis2D, m: Map<int, Any>) -> bool { has(m, v.location, K_Point2D) && (v.local_x is Custom ==> has(m, v.local_x->Custom_0, K_Direction2D)) }
pub open spec fn s_axis2(v: Axis2D, m: Map<int, Any>) -> MappedAxis2D {
    MappedAxis2D { location: m[v.location]->Point2D_0, local_x: if v.local_x is Custom { Some(m[v.local_x->Custom_0]->Direction2D_0) } else { None } }
}
pub open spec fn p_axis3(v: Axis3D, m: Map<int, Any>) -> bool {
    &&& has(m, v.location, K_Point3D)
    &&& v.local_x is Custom ==> has(m, v.local_x->Custom_0, K_Direction3D)
    &&& v.local_z is Custom ==> has(m, v.local_z->Custom_0, K_Direction3D)
}
pub open spec fn s_axis3(v: Axis3D, m: Map<int, Any>) -> MappedAxis3D {
    MappedAxis3D {
        location: m[v.location]->Point3D_0,
        local_z: if v.local_z is Custom { Some(m[v.local_z->Custom_0]->Direction3D_0) } else { None },
        local_x: if v.local_x is Custom { Some(m[v.local_x->Custom_0]->Direction3D_0) } else { None },
    }
}
/// a placement of either dimension
pub open spec fn p_axis(m: Map<int, Any>, id: int) -> bool {
    (has(m, id, K_Axis2D) && p_axis2(m[id]->Axis2D_0, m)) || (has(m, id, K_Axis3D) && p_axis3(m[id]->Axis3D_0, m))
}
pub open spec fn s_axis(m: Map<int, Any>, id: int) -> AxisMappings {
    if kind(m[id]) == K_Axis2D { AxisMappings::D2(s_axis2(m[id]->Axis2D_0, m)) } else { AxisMappings::D3(s_axis3(m[id]->Axis3D_0, m)) }
}

pub open spec fn p_rect(v: RectangleProfileDef, m: Map<int, Any>) -> bool { v.position is Custom ==> p_axis(m, v.position->Custom_0) }
pub open spec fn s_rect(v: RectangleProfileDef, m: Map<int, Any>) -> MappedRectangleProfileDef {
    MappedRectangleProfileDef { axis: if v.position is Custom { Some(s_axis(m, v.position->Custom_0)) } else { None }, x_dim: v.x_dim, y_dim: v.y_dim }
}

pub open spec fn all_are(s: Seq<int>, m: Map<int, Any>, k: int) -> bool { forall|i: int| 0 <= i < s.len() ==> has(m, #[trigger] s[i], k) }
pub open spec fn points2(s: Seq<int>, m: Map<int, Any>) -> Seq<DVec2> { Seq::new(s.len(), |i: int| m[s[i]]->Point2D_0) }
pub open spec fn points3(s: Seq<int>, m: Map<int, Any>) -> Seq<DVec3> { Seq::new(s.len(), |i: int| m[s[i]]->Point3D_0) }

/// at least one point, all of one dimension
pub open spec fn p_line(s: Seq<int>, m: Map<int, Any>) -> bool { s.len() > 0 && (all_are(s, m, K_Point2D) || all_are(s, m, K_Point3D)) }
pub open spec fn s_line(s: Seq<int>, m: Map<int, Any>) -> Points {
    if kind(m[s[0]]) == K_Point2D { Points::D2(points2(s, m)) } else { Points::D3(points3(s, m)) }
}

pub open spec fn p_curve(m: Map<int, Any>, id: int) -> bool {
    (has(m, id, K_IndexedPolyCurve) && (has(m, m[id]->IndexedPolyCurve_0.points, K_PointList2D) || has(m, m[id]->IndexedPolyCurve_0.points, K_PointList3D)))
    || (has(m, id, K_PolyLine) && p_line(m[id]->PolyLine_0, m))
}
pub open spec fn s_curve(m: Map<int, Any>, id: int) -> Points {
    if kind(m[id]) == K_IndexedPolyCurve {
        let l = m[m[id]->IndexedPolyCurve_0.points];
        if kind(l) == K_PointList2D { Points::D2(l->PointList2D_0.coord_list) } else { Points::D3(l->PointList3D_0.coord_list) }
    } else { s_line(m[id]->PolyLine_0, m) }
}
pub open spec fn s_arb(v: ArbitraryClosedProfileDef, m: Map<int, Any>) -> MappedArbitraryClosedProfileDef {
    MappedArbitraryClosedProfileDef { profile_type: v.profile_type, points: s_curve(m, v.outer_curve) }
}

pub open spec fn p_solid(v: ExtrudedAreaSolid, m: Map<int, Any>) -> bool {
    &&& (has(m, v.swept_area, K_RectangleProfileDef) && p_rect(m[v.swept_area]->RectangleProfileDef_0, m))
        || (has(m, v.swept_area, K_ArbitraryClosedProfileDef) && p_curve(m, m[v.swept_area]->ArbitraryClosedProfileDef_0.outer_curve))
    &&& v.position is Custom ==> has(m, v.position->Custom_0, K_Axis3D) && p_axis3(m[v.position->Custom_0]->Axis3D_0, m)
    &&& has(m, v.extruded_direction, K_Direction3D)
}
pub open spec fn s_solid(v: ExtrudedAreaSolid, m: Map<int, Any>) -> MappedExtrudedAreaSolid {
    MappedExtrudedAreaSolid {
        profile_def: if kind(m[v.swept_area]) == K_RectangleProfileDef { MappedProfileDef::Rectangle(s_rect(m[v.swept_area]->RectangleProfileDef_0, m)) }
            else { MappedProfileDef::Arbitrary(s_arb(m[v.swept_area]->ArbitraryClosedProfileDef_0, m)) },
        position: if v.position is Custom { Some(s_axis3(m[v.position->Custom_0]->Axis3D_0, m)) } else { None },
        extruded_direction: m[v.extruded_direction]->Direction3D_0,
        depth: v.depth,
    }
}

/// an object which is given by its number or by itself
pub open spec fn p_dir(o: OptionalParameter_IdOr_Direction3D, m: Map<int, Any>) -> bool { o is Custom && o->Custom_0 is Id ==> has(m, o->Custom_0->Id_0, K_Direction3D) }
pub open spec fn s_dir(o: OptionalParameter_IdOr_Direction3D, m: Map<int, Any>) -> Option<DVec3> {
    if o is Custom { Some(if o->Custom_0 is Id { m[o->Custom_0->Id_0]->Direction3D_0 } else { o->Custom_0->Custom_0 }) } else { None }
}
pub open spec fn s_real(o: OptionalParameter_RealPrimitive) -> Option<F64> { if o is Custom { Some(o->Custom_0) } else { None } }
pub open spec fn p_base(v: Transform3DBase, m: Map<int, Any>) -> bool {
    &&& p_dir(v.axis_x, m) && p_dir(v.axis_y, m) && p_dir(v.axis_z, m)
    &&& v.local_origin is Custom && v.local_origin->Custom_0 is Id ==> has(m, v.local_origin->Custom_0->Id_0, K_Point3D)
}
pub open spec fn s_base(v: Transform3DBase, m: Map<int, Any>) -> TransformBaseMapping {
    TransformBaseMapping {
        translation: if v.local_origin is Custom { Some(if v.local_origin->Custom_0 is Id { m[v.local_origin->Custom_0->Id_0]->Point3D_0 } else { v.local_origin->Custom_0->Custom_0 }) } else { None },
        axis_x: s_dir(v.axis_x, m),
        axis_y: s_dir(v.axis_y, m),
        axis_z: s_dir(v.axis_z, m),
        scale: s_real(v.scale),
    }
}
pub open spec fn s_non(v: CartesianTransformationOperator3DnonUniform, m: Map<int, Any>) -> NonUniformTransformMapping {
    NonUniformTransformMapping { base: s_base(v.base, m), scale_y: s_real(v.scale_y), scale_z: s_real(v.scale_z) }
}

pub open spec fn r_map(v: MappedItem, m: Map<int, Any>) -> RepresentationMap { if v.source is Id { m[v.source->Id_0]->RepresentationMap_0 } else { v.source->Custom_0 } }
pub open spec fn r_origin(v: MappedItem, m: Map<int, Any>) -> Axis3D {
    let r = r_map(v, m).origin;
    if r is Id { m[r->Id_0]->Axis3D_0 } else { r->Custom_0 }
}
pub open spec fn r_shape(v: MappedItem, m: Map<int, Any>) -> ShapeRepresentation {
    let r = r_map(v, m).representation;
    if r is Id { m[r->Id_0]->ShapeRepresentation_0 } else { r->Custom_0 }
}
pub open spec fn p_item(v: MappedItem, m: Map<int, Any>) -> bool {
    &&& v.source is Id ==> has(m, v.source->Id_0, K_RepresentationMap)
    &&& r_map(v, m).origin is Id ==> has(m, r_map(v, m).origin->Id_0, K_Axis3D)
    &&& r_map(v, m).representation is Id ==> has(m, r_map(v, m).representation->Id_0, K_ShapeRepresentation)
    &&& p_axis3(r_origin(v, m), m)
    &&& (has(m, v.target, K_CartesianTransformationOperator3D) && p_base(m[v.target]->CartesianTransformationOperator3D_0, m))
        || (has(m, v.target, K_CartesianTransformationOperator3DnonUniform) && p_base(m[v.target]->CartesianTransformationOperator3DnonUniform_0.base, m))
}
pub open spec fn s_item(v: MappedItem, m: Map<int, Any>) -> ((MappedAxis3D, ShapeRepresentation), MappedTransform) {
    ((s_axis3(r_origin(v, m), m), r_shape(v, m)),
        if kind(m[v.target]) == K_CartesianTransformationOperator3D { MappedTransform::Uniform(s_base(m[v.target]->CartesianTransformationOperator3D_0, m)) }
        else { MappedTransform::NonUniform(s_non(m[v.target]->CartesianTransformationOperator3DnonUniform_0, m)) })
}

pub open spec fn present(s: Seq<int>, m: Map<int, Any>) -> bool { forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) }
pub open spec fn s_shape_item(a: Any) -> ShapeItemEnum {
    if kind(a) == K_MappedItem { ShapeItemEnum::MappedItem(a->MappedItem_0) }
    else if kind(a) == K_ExtrudedAreaSolid { ShapeItemEnum::ExtrudedAreaSolid(a->ExtrudedAreaSolid_0) }
    else if kind(a) == K_Dummy { ShapeItemEnum::Dummy(a->Dummy_0) }
    else { ShapeItemEnum::Other(a) }
}
pub open spec fn shape_items(s: Seq<int>, m: Map<int, Any>) -> Seq<ShapeItemEnum> { Seq::new(s.len(), |i: int| s_shape_item(m[s[i]])) }
pub open spec fn shape_reps(s: Seq<int>, m: Map<int, Any>) -> Seq<ShapeRepresentation> { Seq::new(s.len(), |i: int| m[s[i]]->ShapeRepresentation_0) }
/// the objects of one kind, in their order
pub open spec fn items_of_kind(s: Seq<int>, m: Map<int, Any>, k: int) -> Seq<Any>
    decreases s.len(),
{
    if s.len() == 0 { Seq::<Any>::empty() } else {
        (if kind(m[s.first()]) == k { seq![m[s.first()]] } else { Seq::<Any>::empty() }) + items_of_kind(s.drop_first(), m, k)
    }
}

pub open spec fn p_context(m: Map<int, Any>, id: int) -> bool {
    (has(m, id, K_GeometricRepresentationSubContext) && has(m, m[id]->GeometricRepresentationSubContext_0.parent_context, K_GeometricRepresentationContext))
    || has(m, id, K_GeometricRepresentationContext)
}
pub open spec fn s_context(m: Map<int, Any>, id: int) -> GeometricRepresentationContext {
    if kind(m[id]) == K_GeometricRepresentationContext { m[id]->GeometricRepresentationContext_0 }
    else { m[m[id]->GeometricRepresentationSubContext_0.parent_context]->GeometricRepresentationContext_0 }
}

pub open spec fn p_shapes(v: Product, m: Map<int, Any>) -> bool {
    v.representation is Custom ==> has(m, v.representation->Custom_0, K_ProductDefinitionShape)
        && all_are(m[v.representation->Custom_0]->ProductDefinitionShape_0.representations, m, K_ShapeRepresentation)
}
pub open spec fn s_shapes(v: Product, m: Map<int, Any>) -> Seq<ShapeRepresentation> {
    if v.representation is Custom { shape_reps(m[v.representation->Custom_0]->ProductDefinitionShape_0.representations, m) } else { Seq::<ShapeRepresentation>::empty() }
}
/// the place, for those which are placed by a three-dimensional placement
pub open spec fn p_place(v: Product, m: Map<int, Any>) -> bool {
    v.object_placement is Custom ==> has(m, v.object_placement->Custom_0, K_LocalPlacement)
        && p_axis(m, m[v.object_placement->Custom_0]->LocalPlacement_0.relative_placement)
}
pub open spec fn s_place(v: Product, m: Map<int, Any>) -> Option<DVec3> {
    if v.object_placement is Custom {
        let a = m[m[v.object_placement->Custom_0]->LocalPlacement_0.relative_placement];
        if kind(a) == K_Axis3D { Some(m[a->Axis3D_0.location]->Point3D_0) } else { None }
    } else { None }
}

/// what the items of a shape must be to be read down to their numbers
pub open spec fn p_flat(s: Seq<int>, m: Map<int, Any>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i]) && (kind(m[s[i]]) == K_ExtrudedAreaSolid ==> p_solid(m[s[i]]->ExtrudedAreaSolid_0, m))
}
pub open spec fn p_deep(s: Seq<int>, m: Map<int, Any>) -> bool {
    p_flat(s, m) && forall|i: int| 0 <= i < s.len() && kind(#[trigger] m[s[i]]) == K_MappedItem
        ==> p_item(m[s[i]]->MappedItem_0, m) && p_flat(r_shape(m[s[i]]->MappedItem_0, m).items, m)
}
/// direction of the first extruded body
pub open spec fn dir_flat(s: Seq<int>, m: Map<int, Any>) -> Option<DVec3>
    decreases s.len(),
{
    if s.len() == 0 { None } else if kind(m[s.first()]) == K_ExtrudedAreaSolid { Some(m[m[s.first()]->ExtrudedAreaSolid_0.extruded_direction]->Direction3D_0) }
    else { dir_flat(s.drop_first(), m) }
}
pub open spec fn dir_item(a: Any, m: Map<int, Any>) -> Option<DVec3> {
    if kind(a) == K_ExtrudedAreaSolid { Some(m[a->ExtrudedAreaSolid_0.extruded_direction]->Direction3D_0) }
    else if kind(a) == K_MappedItem { dir_flat(r_shape(a->MappedItem_0, m).items, m) }
    else { None }
}
/// ... of the first one, those of mapped items included
pub open spec fn dir_deep(s: Seq<int>, m: Map<int, Any>) -> Option<DVec3>
    decreases s.len(),
{
    if s.len() == 0 { None } else if dir_item(m[s.first()], m) is Some { dir_item(m[s.first()], m) } else { dir_deep(s.drop_first(), m) }
}
pub open spec fn p_all(s: Seq<ShapeRepresentation>, m: Map<int, Any>) -> bool { forall|i: int| 0 <= i < s.len() ==> p_deep((#[trigger] s[i]).items, m) }
pub open spec fn dir_all(s: Seq<ShapeRepresentation>, m: Map<int, Any>) -> Option<DVec3>
    decreases s.len(),
{
    if s.len() == 0 { None } else if dir_deep(s.first().items, m) is Some { dir_deep(s.first().items, m) } else { dir_all(s.drop_first(), m) }
}
