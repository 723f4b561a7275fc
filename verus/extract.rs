// C13: queries over the relations of a model. `s` is the store in ascending order of numbers.
pub open spec fn w_relations(s: Seq<(int, Any)>, d: Map<int, Any>, id: int, k: int) -> Seq<(int, Any)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = w_relations(s.drop_first(), d, id, k);
        match s.first().1 {
            Any::RelAggregates(r) => if r.relating_object == id { w_of_kind(r.related_objects, d, k) + rest } else { rest },
            _ => rest,
        }
    }
}

/// those of the numbers which denote objects of kind k
pub open spec fn w_of_kind(s: Seq<int>, d: Map<int, Any>, k: int) -> Seq<(int, Any)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if kind(d[s.first()]) == k { seq![(s.first(), d[s.first()])] + w_of_kind(s.drop_first(), d, k) } else { w_of_kind(s.drop_first(), d, k) }
}

pub open spec fn w_contained(s: Seq<(int, Any)>, id: int) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = w_contained(s.drop_first(), id);
        match s.first().1 {
            Any::RelContainedInSpatialStructure(r) => if r.relating_structure == id { r.related_elements + rest } else { rest },
            _ => rest,
        }
    }
}

pub open spec fn w_type(s: Seq<(int, Any)>, id: int) -> Option<(int, RelDefinesByType)>
    decreases s.len(),
{
    if s.len() == 0 { None } else {
        match s.first().1 {
            Any::RelDefinesByType(r) => if r.related_objects.contains(id) { Some((s.first().0, r)) } else { w_type(s.drop_first(), id) },
            _ => w_type(s.drop_first(), id),
        }
    }
}

pub open spec fn w_voids(s: Seq<(int, Any)>, d: Map<int, Any>, id: int) -> Seq<OpeningElement>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = w_voids(s.drop_first(), d, id);
        match s.first().1 {
            Any::RelVoidsElement(r) => if r.relating_building_element == id { seq![d[r.related_opening_element]->OpeningElement_0] + rest } else { rest },
            _ => rest,
        }
    }
}

pub open spec fn w_layers(s: Seq<int>, d: Map<int, Any>) -> Seq<MaterialLayer>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { seq![d[s.first()]->MaterialLayer_0] + w_layers(s.drop_first(), d) }
}

pub open spec fn w_constituents(s: Seq<int>, d: Map<int, Any>) -> Seq<MaterialConstituent>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { seq![d[s.first()]->MaterialConstituent_0] + w_constituents(s.drop_first(), d) }
}

pub open spec fn w_materials(s: Seq<(int, Any)>, d: Map<int, Any>, id: int) -> Seq<MaterialLayer>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = w_materials(s.drop_first(), d, id);
        match s.first().1 {
            Any::RelAssociatesMaterial(r) => if r.rel_associates.related_objects.contains(id) {
                match d[r.relating_material] {
                    Any::MaterialLayerSetUsage(u) => w_layers(d[u.spatial_element_structure]->MaterialLayerSet_0.material_layers, d) + rest,
                    _ => rest,
                }
            } else { rest },
            _ => rest,
        }
    }
}

pub open spec fn w_consts(s: Seq<(int, Any)>, d: Map<int, Any>, id: int) -> Seq<MaterialConstituent>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = w_consts(s.drop_first(), d, id);
        match s.first().1 {
            Any::RelAssociatesMaterial(r) => if r.rel_associates.related_objects.contains(id) {
                match d[r.relating_material] {
                    Any::MaterialConstituentSet(u) => w_constituents(u.material_constituents, d) + rest,
                    _ => rest,
                }
            } else { rest },
            _ => rest,
        }
    }
}

/// every number denotes an object of that kind
pub open spec fn all_of(s: Seq<int>, d: Map<int, Any>, k: int) -> bool { forall|i: int| 0 <= i < s.len() ==> d.dom().contains(#[trigger] s[i]) && kind(d[s[i]]) == k }

pub open spec fn all_in(s: Seq<int>, d: Map<int, Any>) -> bool { forall|i: int| 0 <= i < s.len() ==> d.dom().contains(#[trigger] s[i]) }

/// the references which the queries follow are intact
pub open spec fn sound(d: Map<int, Any>) -> bool {
    forall|k: int| #[trigger] d.dom().contains(k) ==> match d[k] {
        Any::RelAggregates(r) => all_in(r.related_objects, d),
        Any::RelDefinesByType(r) => d.dom().contains(r.relating_type),
        Any::RelVoidsElement(r) => d.dom().contains(r.related_opening_element) && d[r.related_opening_element] is OpeningElement,
        Any::RelAssociatesMaterial(r) => d.dom().contains(r.relating_material),
        Any::MaterialLayerSetUsage(u) => d.dom().contains(u.spatial_element_structure) && d[u.spatial_element_structure] is MaterialLayerSet,
        Any::MaterialLayerSet(u) => all_of(u.material_layers, d, K_MaterialLayer),
        Any::MaterialConstituentSet(u) => all_of(u.material_constituents, d, K_MaterialConstituent),
        _ => true,
    }
}

pub open spec fn w_projects(s: Seq<(int, Any)>) -> Seq<(int, Context)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { match s.first().1 { Any::Project(r) => seq![(s.first().0, r)] + w_projects(s.drop_first()), _ => w_projects(s.drop_first()) } }
}

// ---- obligations
//@rec projects w_projects(s)
pub proof fn c13_projects(ifc: IFC)
    ensures projects__ok(ifc), projects__ret(ifc) == w_projects(entries(ifc.data)),
{
    rec_projects(ifc, entries(ifc.data));
}

//@rec relations_of w_relations(s, a1.data, a2, kRELATED)
//@inner relations_of w_of_kind(s, a1.data, kRELATED)
pub proof fn c13_relations_of(kRELATED: int, kRELATING: int, ifc: IFC, id: int)
    ensures
        relations_of__ret(kRELATED, kRELATING, ifc, id) == w_relations(entries(ifc.data), ifc.data, id, kRELATED),
        sound(ifc.data) ==> relations_of__ok(kRELATED, kRELATING, ifc, id),
{
    rec_relations_of(kRELATED, kRELATING, ifc, id, entries(ifc.data));
    lem_entries(ifc.data);
}

//@rec contained_structures w_contained(s, a2)
pub proof fn c13_contained_structures(kS: int, ifc: IFC, id: int)
    ensures
        contained_structures__ok(kS, ifc, id),
        contained_structures__ret(kS, ifc, id) == w_contained(entries(ifc.data), id),
{
    rec_contained_structures(kS, ifc, id, entries(ifc.data));
}

//@rec related_type w_type(s, a2)
pub proof fn c13_related_type(kS: int, ifc: IFC, id: int)
    ensures ({
        let r = w_type(entries(ifc.data), id);
        &&& related_type__ok(kS, ifc, id) ==> r is Some && related_type__ret(kS, ifc, id) == ifc.data[r->Some_0.1.relating_type]
        &&& r is Some && ifc.data.dom().contains(r->Some_0.1.relating_type) ==> related_type__ok(kS, ifc, id)
    }),
{
    rec_related_type(kS, ifc, id, entries(ifc.data));
}

//@rec related_voids w_voids(s, a1.data, a2)
pub proof fn c13_related_voids(kS: int, ifc: IFC, id: int)
    ensures
        related_voids__ok(kS, ifc, id) ==> related_voids__ret(kS, ifc, id) == w_voids(entries(ifc.data), ifc.data, id),
        sound(ifc.data) ==> related_voids__ok(kS, ifc, id),
{
    rec_related_voids(kS, ifc, id, entries(ifc.data));
    lem_entries(ifc.data);
}

//@rec related_materials w_materials(s, a1.data, a2)
//@inner related_materials w_layers(s, a1.data)
pub proof fn c13_related_materials(kS: int, ifc: IFC, id: int)
    ensures
        related_materials__ok(kS, ifc, id) ==> related_materials__ret(kS, ifc, id) == w_materials(entries(ifc.data), ifc.data, id),
        sound(ifc.data) ==> related_materials__ok(kS, ifc, id),
{
    rec_related_materials(kS, ifc, id, entries(ifc.data));
    lem_entries(ifc.data);
}

//@rec related_constiuents w_consts(s, a1.data, a2)
//@inner related_constiuents w_constituents(s, a1.data)
pub proof fn c13_related_constiuents(kS: int, ifc: IFC, id: int)
    ensures
        related_constiuents__ok(kS, ifc, id) ==> related_constiuents__ret(kS, ifc, id) == w_consts(entries(ifc.data), ifc.data, id),
        sound(ifc.data) ==> related_constiuents__ok(kS, ifc, id),
{
    rec_related_constiuents(kS, ifc, id, entries(ifc.data));
    lem_entries(ifc.data);
}
