// C15: what an element looks like in the finished model.

/// the object a is in the model, under number k
pub open spec fn at(m: Map<int, Any>, k: int, a: Any) -> bool {
    m.dom().contains(k) && m[k] == a
}

pub proof fn lem_at(m: Map<int, Any>, a: Any)
    ensures
        at(ins(m, a), fresh(m), a),
        kd(m, fresh(m)) == -1,
        forall|k: int, x: Any| #[trigger] at(m, k, x) ==> at(ins(m, a), k, x),
{
    reveal(ins);
    lem_fresh(m);
}

/// thicknesses of material layers
pub open spec fn thicknesses(m: Map<int, Any>, s: Seq<int>) -> Seq<F64> {
    Seq::new(s.len(), |i: int| LAYER(m[s[i]]->MaterialLayer_0))
}

pub open spec fn layers(m: Map<int, Any>, u: int) -> Seq<int> {
    LAYERS(m[SETOF(m[u]->MaterialLayerSetUsage_0)]->MaterialLayerSet_0)
}

/// thickness of what is made with the layer set usage u
pub open spec fn thickness(m: Map<int, Any>, u: int) -> F64 {
    f_sum(thicknesses(m, layers(m, u)))
}

/// according to these books h is made with u
pub open spec fn made_of(b: Map<int, RelAssociatesMaterial>, h: int, u: int) -> bool {
    b.dom().contains(u) && RELATED(b[u]).contains(h)
}

/// points of a plane as points of the x-z-plane
pub open spec fn upright(s: Seq<DVec2>) -> Seq<DVec3> {
    Seq::new(s.len(), |i: int| DVec3 { x: s[i].x, y: fl_0_0(), z: s[i].y })
}

/// the local placement l is not turned
pub open spec fn local(m: Map<int, Any>, l: int) -> bool {
    let a = RELATIVE(m[l]->LocalPlacement_0);
    let q = LOCATION(m[a]->Axis3D_0);
    &&& m.dom().contains(l) && m[l] is LocalPlacement
    &&& m.dom().contains(a) && m[a] is Axis3D
    &&& LOCALZ(m[a]->Axis3D_0) is Omitted && LOCALX(m[a]->Axis3D_0) is Omitted
    &&& m.dom().contains(q) && m[q] is Point3D
}

/// where the object e is
pub open spec fn position(m: Map<int, Any>, e: int) -> DVec3 {
    POINT3(m[LOCATION(m[RELATIVE(m[placement_of(m[e])->Custom_0]->LocalPlacement_0)]->Axis3D_0)]->Point3D_0)
}

/// the same place, whatever the sign of a zero
pub open spec fn same_place(p: DVec3, q: DVec3) -> bool {
    equal(p.x, q.x) && equal(p.y, q.y) && equal(p.z, q.z)
}

/// the object e is placed relative to the object h
pub open spec fn located(m: Map<int, Any>, e: int, h: int) -> bool {
    let l = placement_of(m[e])->Custom_0;
    &&& m.dom().contains(e) && m.dom().contains(h)
    &&& placement_of(m[e]) is Custom && placement_of(m[h]) is Custom
    &&& local(m, l)
    &&& RELTO(m[l]->LocalPlacement_0) is Custom && RELTO(m[l]->LocalPlacement_0)->Custom_0 == placement_of(m[h])->Custom_0
}

/// the same, relative to nothing
pub open spec fn located_alone(m: Map<int, Any>, e: int) -> bool {
    let l = placement_of(m[e])->Custom_0;
    m.dom().contains(e) && placement_of(m[e]) is Custom && local(m, l) && RELTO(m[l]->LocalPlacement_0) is Omitted
}

/// representation i of the object e is a body: b
pub open spec fn shown(m: Map<int, Any>, e: int, context: int, b: int, i: int) -> bool {
    let rs = REPRS(m[shape_of(m[e])->Custom_0]->ProductDefinitionShape_0);
    let r = m[rs[i]]->ShapeRepresentation_0;
    &&& 0 <= i < rs.len() && m.dom().contains(rs[i]) && m[rs[i]] is ShapeRepresentation
    &&& CONTEXT(r) == context && ITEMS(r).len() == 1 && ITEMS(r)[0] == b
    &&& REPRID(r) is Custom && REPRID(r)->Custom_0 == RepresentationIdentifier::Body
    &&& REPRTYPE(r) is Custom && REPRTYPE(r)->Custom_0 == RepresentationType::SweptSolid
}

/// the object e has the body b: an area which is extruded by h
pub open spec fn extruded(m: Map<int, Any>, e: int, context: int, b: int, h: F64) -> bool {
    let s = shape_of(m[e])->Custom_0;
    &&& m.dom().contains(e) && shape_of(m[e]) is Custom
    &&& m.dom().contains(s) && m[s] is ProductDefinitionShape
    &&& exists|i: int| #[trigger] shown(m, e, context, b, i)
    &&& m.dom().contains(b) && m[b] is ExtrudedAreaSolid
    &&& POSITION(m[b]->ExtrudedAreaSolid_0) is Omitted && DEPTH(m[b]->ExtrudedAreaSolid_0) == h
}

/// the body b is extruded along d
pub open spec fn towards(m: Map<int, Any>, b: int, d: DVec3) -> bool {
    let k = DIRECTION(m[b]->ExtrudedAreaSolid_0);
    m.dom().contains(k) && m[k] is Direction3D && DIR3(m[k]->Direction3D_0) == d
}

/// the area is a rectangle whose corner is the origin
pub open spec fn rectangle(m: Map<int, Any>, b: int, x: F64, y: F64) -> bool {
    let k = AREA(m[b]->ExtrudedAreaSolid_0);
    let p = m[k]->RectangleProfileDef_0;
    let a = RPOSITION(p)->Custom_0;
    let q = LOCATION2(m[a]->Axis2D_0);
    &&& m.dom().contains(k) && m[k] is RectangleProfileDef
    &&& RTYPE(p) == ProfileType::Area && XDIM(p) == x && YDIM(p) == y
    &&& RPOSITION(p) is Custom && m.dom().contains(a) && m[a] is Axis2D && LOCALX2(m[a]->Axis2D_0) is Omitted
    &&& m.dom().contains(q) && m[q] is Point2D && POINT2(m[q]->Point2D_0).x == half(x) && POINT2(m[q]->Point2D_0).y == half(y)
}

/// number of the points of the area's outline
pub open spec fn outline(m: Map<int, Any>, b: int) -> int {
    POINTS(m[CURVE(m[AREA(m[b]->ExtrudedAreaSolid_0)]->ArbitraryClosedProfileDef_0)]->IndexedPolyCurve_0)
}

pub open spec fn outlined(m: Map<int, Any>, b: int) -> bool {
    let k = AREA(m[b]->ExtrudedAreaSolid_0);
    let c = CURVE(m[k]->ArbitraryClosedProfileDef_0);
    &&& m.dom().contains(k) && m[k] is ArbitraryClosedProfileDef && ATYPE(m[k]->ArbitraryClosedProfileDef_0) == ProfileType::Area
    &&& m.dom().contains(c) && m[c] is IndexedPolyCurve && SEGMENTS(m[c]->IndexedPolyCurve_0) is Omitted
    &&& m.dom().contains(outline(m, b))
}

pub open spec fn polygon2(m: Map<int, Any>, b: int, c: Seq<DVec2>) -> bool {
    outlined(m, b) && m[outline(m, b)] is PointList2D && COORDS2(m[outline(m, b)]->PointList2D_0) =~= c
}

pub open spec fn polygon3(m: Map<int, Any>, b: int, c: Seq<DVec3>) -> bool {
    outlined(m, b) && m[outline(m, b)] is PointList3D && COORDS3(m[outline(m, b)]->PointList3D_0) =~= c
}
