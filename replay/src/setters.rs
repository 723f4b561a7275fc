//! One call of each constructor and setter (written once by tools/dev/mkreplay.py from the table of the contracts).
#![allow(unused_variables)]
use crate::made::*;
use crate::util::Rng;
use ifc_rs::prelude::*;

type Call = fn(&mut Rng) -> Result<(), String>;

pub fn rows() -> Vec<(&'static str, Call)> {
    vec![
        ("ArbitraryClosedProfileDef_new_IndexedPolyCurve", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = value::<ProfileType>(&[".AREA.", ".CURVE."], g);
            let (v2, w2) = idor::<IndexedPolyCurve>("IndexedPolyCurve", g);
            let y = ArbitraryClosedProfileDef::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("profile_type", w1), ("profile_name", W::Is("$".to_string())), ("outer_curve", w2)], Some((&was, &ifc)))
        }),
        ("ArbitraryClosedProfileDef_new_PolyLine", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = value::<ProfileType>(&[".AREA.", ".CURVE."], g);
            let (v2, w2) = idor::<PolyLine>("PolyLine", g);
            let y = ArbitraryClosedProfileDef::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("profile_type", w1), ("profile_name", W::Is("$".to_string())), ("outer_curve", w2)], Some((&was, &ifc)))
        }),
        ("ArbitraryClosedProfileDef_profile_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ArbitraryClosedProfileDef>("ArbitraryClosedProfileDef", g);
            let y = x.profile_name(v2);
            verify(Some(&t), &y.to_string(), vec![("profile_type", W::Keep), ("profile_name", w2), ("outer_curve", W::Keep)], None)
        }),
        ("Axis2D_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = entity::<Point2D>("Point2D", g);
            let y = Axis2D::new(v1, &mut ifc);
            verify(None, &y.to_string(), vec![("location", w1), ("local_x", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("Axis3D_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = entity::<Point3D>("Point3D", g);
            let y = Axis3D::new(v1, &mut ifc);
            verify(None, &y.to_string(), vec![("location", w1), ("local_z", W::Is("$".to_string())), ("local_x", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("ExtrudedAreaSolid_new_ArbitraryClosedProfileDef", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<ArbitraryClosedProfileDef>("ArbitraryClosedProfileDef", g);
            let (v2, w2) = idor::<Direction3D>("Direction3D", g);
            let (v3, w3) = real(g);
            let y = ExtrudedAreaSolid::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("swept_area", w1), ("position", W::Is("$".to_string())), ("extruded_direction", w2), ("depth", w3)], Some((&was, &ifc)))
        }),
        ("ExtrudedAreaSolid_new_RectangleProfileDef", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<RectangleProfileDef>("RectangleProfileDef", g);
            let (v2, w2) = idor::<Direction3D>("Direction3D", g);
            let (v3, w3) = real(g);
            let y = ExtrudedAreaSolid::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("swept_area", w1), ("position", W::Is("$".to_string())), ("extruded_direction", w2), ("depth", w3)], Some((&was, &ifc)))
        }),
        ("ExtrudedAreaSolid_position", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Axis3D>("Axis3D", g);
            let (x, t) = object::<ExtrudedAreaSolid>("ExtrudedAreaSolid", g);
            let y = x.position(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("swept_area", W::Keep), ("position", w2), ("extruded_direction", W::Keep), ("depth", W::Keep)], Some((&was, &ifc)))
        }),
        ("IndexedPolyCurve_new_PointList2D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = entity::<PointList2D>("PointList2D", g);
            let y = IndexedPolyCurve::new(v1, &mut ifc);
            verify(None, &y.to_string(), vec![("points", w1), ("segments", W::Is("$".to_string())), ("self_intersect", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("IndexedPolyCurve_new_PointList3D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = entity::<PointList3D>("PointList3D", g);
            let y = IndexedPolyCurve::new(v1, &mut ifc);
            verify(None, &y.to_string(), vec![("points", w1), ("segments", W::Is("$".to_string())), ("self_intersect", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("LocalPlacement_new_Axis2D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<Axis2D>("Axis2D", g);
            let y = LocalPlacement::new(v1, &mut ifc);
            verify(None, &y.to_string(), vec![("placement_rel_to", W::Is("$".to_string())), ("relative_placement", w1)], Some((&was, &ifc)))
        }),
        ("LocalPlacement_new_Axis3D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<Axis3D>("Axis3D", g);
            let y = LocalPlacement::new(v1, &mut ifc);
            verify(None, &y.to_string(), vec![("placement_rel_to", W::Is("$".to_string())), ("relative_placement", w1)], Some((&was, &ifc)))
        }),
        ("LocalPlacement_relative_to", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<LocalPlacement>("LocalPlacement", g);
            let y = x.relative_to(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("placement_rel_to", w2), ("relative_placement", W::Keep)], Some((&was, &ifc)))
        }),
        ("CartesianTransformationOperator3DnonUniform_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<Point3D>("Point3D", g);
            let (v2_0, w2_0) = idor::<Direction3D>("Direction3D", g);
            let (v2_1, w2_1) = idor::<Direction3D>("Direction3D", g);
            let (v2_2, w2_2) = idor::<Direction3D>("Direction3D", g);
            let (v3_0, w3_0) = real(g);
            let (v3_1, w3_1) = real(g);
            let (v3_2, w3_2) = real(g);
            let y = CartesianTransformationOperator3DnonUniform::new(v1, (v2_0, v2_1, v2_2), (v3_0, v3_1, v3_2), &mut ifc);
            verify(None, &y.to_string(), vec![("axis_x", w2_0), ("axis_y", w2_1), ("local_origin", w1), ("scale", w3_0), ("axis_z", w2_2), ("scale_y", w3_1), ("scale_z", w3_2)], Some((&was, &ifc)))
        }),
        ("PointList2D_new", |g| {
            let (v1, w1) = coords2(g);
            let y = PointList2D::new(v1.into_iter());
            verify(None, &y.to_string(), vec![("coord_list", w1), ("tag_list", W::Is("$".to_string()))], None)
        }),
        ("PointList3D_new", |g| {
            let (v1, w1) = coords3(g);
            let y = PointList3D::new(v1.into_iter());
            verify(None, &y.to_string(), vec![("coord_list", w1), ("tag_list", W::Is("$".to_string()))], None)
        }),
        ("ProductDefinitionShape_add_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ShapeRepresentation>("ShapeRepresentation", g);
            let (x, t) = object::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let y = x.add_representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", W::Keep), ("representations", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("ProductDefinitionShape_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", w2), ("representations", W::Keep)], None)
        }),
        ("ProductDefinitionShape_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("name", w2), ("description", W::Keep), ("representations", W::Keep)], None)
        }),
        ("RectangleProfileDef_new", |g| {
            let (v1, w1) = value::<ProfileType>(&[".AREA.", ".CURVE."], g);
            let (v2, w2) = real(g);
            let (v3, w3) = real(g);
            let y = RectangleProfileDef::new(v1, v2, v3);
            verify(None, &y.to_string(), vec![("profile_type", w1), ("profile_name", W::Is("$".to_string())), ("position", W::Is("$".to_string())), ("x_dim", w2), ("y_dim", w3)], None)
        }),
        ("RectangleProfileDef_position_Axis2D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Axis2D>("Axis2D", g);
            let (x, t) = object::<RectangleProfileDef>("RectangleProfileDef", g);
            let y = x.position(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("profile_type", W::Keep), ("profile_name", W::Keep), ("position", w2), ("x_dim", W::Keep), ("y_dim", W::Keep)], Some((&was, &ifc)))
        }),
        ("RectangleProfileDef_position_Axis3D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Axis3D>("Axis3D", g);
            let (x, t) = object::<RectangleProfileDef>("RectangleProfileDef", g);
            let y = x.position(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("profile_type", W::Keep), ("profile_name", W::Keep), ("position", w2), ("x_dim", W::Keep), ("y_dim", W::Keep)], Some((&was, &ifc)))
        }),
        ("RectangleProfileDef_profile_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RectangleProfileDef>("RectangleProfileDef", g);
            let y = x.profile_name(v2);
            verify(Some(&t), &y.to_string(), vec![("profile_type", W::Keep), ("profile_name", w2), ("position", W::Keep), ("x_dim", W::Keep), ("y_dim", W::Keep)], None)
        }),
        ("GeometricRepresentationContext_new_Axis2D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = value::<DimensionCount>(&["2", "3"], g);
            let (v2, w2) = idor::<Axis2D>("Axis2D", g);
            let y = GeometricRepresentationContext::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("context_identifier", W::Given), ("context_type", W::Given), ("coord_space_dimension", w1), ("precision", W::Is("$".to_string())), ("world_coord_system", w2), ("true_north", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("GeometricRepresentationContext_new_Axis3D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = value::<DimensionCount>(&["2", "3"], g);
            let (v2, w2) = idor::<Axis3D>("Axis3D", g);
            let y = GeometricRepresentationContext::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("context_identifier", W::Given), ("context_type", W::Given), ("coord_space_dimension", w1), ("precision", W::Is("$".to_string())), ("world_coord_system", w2), ("true_north", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("GeometricRepresentationContext_precision", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<GeometricRepresentationContext>("GeometricRepresentationContext", g);
            let y = x.precision(v2);
            verify(Some(&t), &y.to_string(), vec![("context_identifier", W::Keep), ("context_type", W::Keep), ("coord_space_dimension", W::Keep), ("precision", w2), ("world_coord_system", W::Keep), ("true_north", W::Keep)], None)
        }),
        ("GeometricRepresentationContext_true_north_Direction2D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Direction2D>("Direction2D", g);
            let (x, t) = object::<GeometricRepresentationContext>("GeometricRepresentationContext", g);
            let y = x.true_north(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("context_identifier", W::Keep), ("context_type", W::Keep), ("coord_space_dimension", W::Keep), ("precision", W::Keep), ("world_coord_system", W::Keep), ("true_north", w2)], Some((&was, &ifc)))
        }),
        ("GeometricRepresentationContext_true_north_Direction3D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Direction3D>("Direction3D", g);
            let (x, t) = object::<GeometricRepresentationContext>("GeometricRepresentationContext", g);
            let y = x.true_north(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("context_identifier", W::Keep), ("context_type", W::Keep), ("coord_space_dimension", W::Keep), ("precision", W::Keep), ("world_coord_system", W::Keep), ("true_north", w2)], Some((&was, &ifc)))
        }),
        ("GeometricRepresentationSubContext_derive", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<GeometricRepresentationContext>("GeometricRepresentationContext", g);
            let (v2, w2) = value::<GeometricProjection>(&[".ELEVATION_VIEW.", ".GRAPH_VIEW.", ".MODEL_VIEW.", ".NOTDEFINED.", ".PLAN_VIEW.", ".REFLECTED_PLAN_VIEW.", ".SECTION_VIEW.", ".SKETCH_VIEW.", ".USERDEFINED."], g);
            let y = GeometricRepresentationSubContext::derive(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("context_identifier", W::Given), ("context_type", W::Given), ("coord_space_dimension", W::Is("*".to_string())), ("precision", W::Is("*".to_string())), ("world_coord_system", W::Is("*".to_string())), ("true_north", W::Is("*".to_string())), ("parent_context", w1), ("target_scale", W::Is("$".to_string())), ("target_view", w2), ("user_defined_target_view", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("GeometricRepresentationSubContext_target_scale", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<GeometricRepresentationSubContext>("GeometricRepresentationSubContext", g);
            let y = x.target_scale(v2);
            verify(Some(&t), &y.to_string(), vec![("context_identifier", W::Keep), ("context_type", W::Keep), ("coord_space_dimension", W::Keep), ("precision", W::Keep), ("world_coord_system", W::Keep), ("true_north", W::Keep), ("parent_context", W::Keep), ("target_scale", w2), ("target_view", W::Keep), ("user_defined_target_view", W::Keep)], None)
        }),
        ("GeometricRepresentationSubContext_user_defined_target_view", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<GeometricRepresentationSubContext>("GeometricRepresentationSubContext", g);
            let y = x.user_defined_target_view(v2);
            verify(Some(&t), &y.to_string(), vec![("context_identifier", W::Keep), ("context_type", W::Keep), ("coord_space_dimension", W::Keep), ("precision", W::Keep), ("world_coord_system", W::Keep), ("true_north", W::Keep), ("parent_context", W::Keep), ("target_scale", W::Keep), ("target_view", W::Keep), ("user_defined_target_view", w2)], None)
        }),
        ("ShapeRepresentation_add_item_ExtrudedAreaSolid", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = entity::<ExtrudedAreaSolid>("ExtrudedAreaSolid", g);
            let (x, t) = object::<ShapeRepresentation>("ShapeRepresentation", g);
            let y = x.add_item(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("context_of_items", W::Keep), ("representation_identifier", W::Keep), ("representation_type", W::Keep), ("items", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("ShapeRepresentation_add_item_MappedItem", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = entity::<MappedItem>("MappedItem", g);
            let (x, t) = object::<ShapeRepresentation>("ShapeRepresentation", g);
            let y = x.add_item(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("context_of_items", W::Keep), ("representation_identifier", W::Keep), ("representation_type", W::Keep), ("items", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("ShapeRepresentation_add_item_PolyLine", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = entity::<PolyLine>("PolyLine", g);
            let (x, t) = object::<ShapeRepresentation>("ShapeRepresentation", g);
            let y = x.add_item(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("context_of_items", W::Keep), ("representation_identifier", W::Keep), ("representation_type", W::Keep), ("items", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("ShapeRepresentation_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<GeometricRepresentationSubContext>("GeometricRepresentationSubContext", g);
            let (v2, w2) = value::<RepresentationIdentifier>(&["'Axis'", "'Body'", "'FootPrint'"], g);
            let (v3, w3) = value::<RepresentationType>(&["'Brep'", "'MappedRepresentation'", "'SweptSolid'"], g);
            let y = ShapeRepresentation::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("context_of_items", w1), ("representation_identifier", w2), ("representation_type", w3), ("items", W::Is("()".to_string()))], Some((&was, &ifc)))
        }),
        ("CartesianTransformationOperator3D_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<Point3D>("Point3D", g);
            let (v2_0, w2_0) = idor::<Direction3D>("Direction3D", g);
            let (v2_1, w2_1) = idor::<Direction3D>("Direction3D", g);
            let (v2_2, w2_2) = idor::<Direction3D>("Direction3D", g);
            let (v3, w3) = real(g);
            let y = CartesianTransformationOperator3D::new(v1, (v2_0, v2_1, v2_2), v3, &mut ifc);
            verify(None, &y.to_string(), vec![("axis_x", w2_0), ("axis_y", w2_1), ("local_origin", w1), ("scale", w3), ("axis_z", w2_2)], Some((&was, &ifc)))
        }),
        ("Material_category", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Material>("Material", g);
            let y = x.category(v2);
            verify(Some(&t), &y.to_string(), vec![("material", W::Keep), ("description", W::Keep), ("category", w2)], None)
        }),
        ("Material_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Material>("Material", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("material", W::Keep), ("description", w2), ("category", W::Keep)], None)
        }),
        ("Material_new", |g| {
            let (v1, w1) = text(g);
            let y = Material::new(v1);
            verify(None, &y.to_string(), vec![("material", w1), ("description", W::Is("$".to_string())), ("category", W::Is("$".to_string()))], None)
        }),
        ("MaterialConstituent_category", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialConstituent>("MaterialConstituent", g);
            let y = x.category(v2);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", W::Keep), ("material", W::Keep), ("fraction", W::Keep), ("category", w2)], None)
        }),
        ("MaterialConstituent_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialConstituent>("MaterialConstituent", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", w2), ("material", W::Keep), ("fraction", W::Keep), ("category", W::Keep)], None)
        }),
        ("MaterialConstituent_fraction", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<MaterialConstituent>("MaterialConstituent", g);
            let y = x.fraction(v2);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", W::Keep), ("material", W::Keep), ("fraction", w2), ("category", W::Keep)], None)
        }),
        ("MaterialConstituent_material", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Material>("Material", g);
            let (x, t) = object::<MaterialConstituent>("MaterialConstituent", g);
            let y = x.material(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", W::Keep), ("material", w2), ("fraction", W::Keep), ("category", W::Keep)], Some((&was, &ifc)))
        }),
        ("MaterialConstituent_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialConstituent>("MaterialConstituent", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("name", w2), ("description", W::Keep), ("material", W::Keep), ("fraction", W::Keep), ("category", W::Keep)], None)
        }),
        ("MaterialConstituent_new", |g| {
            let (v1, w1) = typed::<Material>(g);
            let y = MaterialConstituent::new(v1);
            verify(None, &y.to_string(), vec![("name", W::Is("$".to_string())), ("description", W::Is("$".to_string())), ("material", w1), ("fraction", W::Is("$".to_string())), ("category", W::Is("$".to_string()))], None)
        }),
        ("MaterialConstituentSet_add_constituent", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<MaterialConstituent>("MaterialConstituent", g);
            let (x, t) = object::<MaterialConstituentSet>("MaterialConstituentSet", g);
            let y = x.add_constituent(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", W::Keep), ("material_constituents", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("MaterialConstituentSet_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialConstituentSet>("MaterialConstituentSet", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", w2), ("material_constituents", W::Keep)], None)
        }),
        ("MaterialConstituentSet_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialConstituentSet>("MaterialConstituentSet", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("name", w2), ("description", W::Keep), ("material_constituents", W::Keep)], None)
        }),
        ("MaterialLayer_category", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialLayer>("MaterialLayer", g);
            let y = x.category(v2);
            verify(Some(&t), &y.to_string(), vec![("material", W::Keep), ("layer_thickness", W::Keep), ("is_ventilated", W::Keep), ("name", W::Keep), ("description", W::Keep), ("category", w2), ("priority", W::Keep)], None)
        }),
        ("MaterialLayer_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialLayer>("MaterialLayer", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("material", W::Keep), ("layer_thickness", W::Keep), ("is_ventilated", W::Keep), ("name", W::Keep), ("description", w2), ("category", W::Keep), ("priority", W::Keep)], None)
        }),
        ("MaterialLayer_material", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Material>("Material", g);
            let (x, t) = object::<MaterialLayer>("MaterialLayer", g);
            let y = x.material(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("material", w2), ("layer_thickness", W::Keep), ("is_ventilated", W::Keep), ("name", W::Keep), ("description", W::Keep), ("category", W::Keep), ("priority", W::Keep)], Some((&was, &ifc)))
        }),
        ("MaterialLayer_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialLayer>("MaterialLayer", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("material", W::Keep), ("layer_thickness", W::Keep), ("is_ventilated", W::Keep), ("name", w2), ("description", W::Keep), ("category", W::Keep), ("priority", W::Keep)], None)
        }),
        ("MaterialLayer_new", |g| {
            let (v1, w1) = real(g);
            let (v2, w2) = yes(g);
            let y = MaterialLayer::new(v1, v2);
            verify(None, &y.to_string(), vec![("material", W::Is("$".to_string())), ("layer_thickness", w1), ("is_ventilated", w2), ("name", W::Is("$".to_string())), ("description", W::Is("$".to_string())), ("category", W::Is("$".to_string())), ("priority", W::Is("$".to_string()))], None)
        }),
        ("MaterialLayer_priority", |g| {
            let (v2, w2) = int(g);
            let (x, t) = object::<MaterialLayer>("MaterialLayer", g);
            let y = x.priority(v2);
            verify(Some(&t), &y.to_string(), vec![("material", W::Keep), ("layer_thickness", W::Keep), ("is_ventilated", W::Keep), ("name", W::Keep), ("description", W::Keep), ("category", W::Keep), ("priority", w2)], None)
        }),
        ("MaterialLayerSet_add_layer", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<MaterialLayer>("MaterialLayer", g);
            let (x, t) = object::<MaterialLayerSet>("MaterialLayerSet", g);
            let y = x.add_layer(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("material_layers", W::Push(Box::new(w2))), ("layer_set_name", W::Keep), ("description", W::Keep)], Some((&was, &ifc)))
        }),
        ("MaterialLayerSet_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialLayerSet>("MaterialLayerSet", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("material_layers", W::Keep), ("layer_set_name", W::Keep), ("description", w2)], None)
        }),
        ("MaterialLayerSet_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<MaterialLayerSet>("MaterialLayerSet", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("material_layers", W::Keep), ("layer_set_name", w2), ("description", W::Keep)], None)
        }),
        ("MaterialLayerSetUsage_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<MaterialLayerSet>("MaterialLayerSet", g);
            let (v2, w2) = value::<LayerSetDirectionEnum>(&[".AXIS1.", ".AXIS2.", ".AXIS3."], g);
            let (v3, w3) = value::<DirectionSenseEnum>(&[".NEGATIVE.", ".POSITIVE."], g);
            let (v4, w4) = real(g);
            let y = MaterialLayerSetUsage::new(v1, v2, v3, v4, &mut ifc);
            verify(None, &y.to_string(), vec![("spatial_element_structure", w1), ("layer_set_direction", w2), ("direction_sense", w3), ("offset_from_reference_line", w4), ("reference_extent", W::Is("$".to_string()))], Some((&was, &ifc)))
        }),
        ("MaterialLayerSetUsage_reference_extent", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<MaterialLayerSetUsage>("MaterialLayerSetUsage", g);
            let y = x.reference_extent(v2);
            verify(Some(&t), &y.to_string(), vec![("spatial_element_structure", W::Keep), ("layer_set_direction", W::Keep), ("direction_sense", W::Keep), ("offset_from_reference_line", W::Keep), ("reference_extent", w2)], None)
        }),
        ("Application_new", |g| {
            let (v1, w1) = typed::<Organization>(g);
            let (v2, w2) = text(g);
            let (v3, w3) = text(g);
            let (v4, w4) = text(g);
            let y = Application::new(v1, v2, v3, v4);
            verify(None, &y.to_string(), vec![("application_developer", w1), ("version", w2), ("application_full_name", w3), ("application_identifier", w4)], None)
        }),
        ("Building_building_address", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<PostalAddress>("PostalAddress", g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.building_address(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", w2)], Some((&was, &ifc)))
        }),
        ("Building_elevation_of_ref_height", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.elevation_of_ref_height(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", w2), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], None)
        }),
        ("Building_elevation_of_terrain", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.elevation_of_terrain(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", w2), ("building_address", W::Keep)], None)
        }),
        ("Building_new", |g| {
            let (v1, w1) = text(g);
            let y = Building::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("long_name", W::Is("$".to_string())), ("composition_type", W::Is("$".to_string())), ("elevation_of_ref_height", W::Is("$".to_string())), ("elevation_of_terrain", W::Is("$".to_string())), ("building_address", W::Is("$".to_string()))], None)
        }),
        ("Door_new", |g| {
            let (v1, w1) = text(g);
            let y = Door::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("overall_height", W::Is("$".to_string())), ("overall_width", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string())), ("operation_type", W::Is("$".to_string())), ("user_defining_operation_type", W::Is("$".to_string()))], None)
        }),
        ("Door_operation_type", |g| {
            let (v2, w2) = value::<DoorOperationTypeEnum>(&[".DOUBLE_DOOR_DOUBLE_SWING.", ".DOUBLE_DOOR_FOLDING.", ".DOUBLE_DOOR_SINGLE_SWING.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.", ".DOUBLE_DOOR_SLIDING.", ".DOUBLE_SWING_LEFT.", ".DOUBLE_SWING_RIGHT.", ".FOLDING_TO_LEFT.", ".FOLDING_TO_RIGHT.", ".NOTDEFINED.", ".REVOLVING.", ".ROLLINGUP.", ".SINGLE_SWING_LEFT.", ".SINGLE_SWING_RIGHT.", ".SLIDING_TO_LEFT.", ".SLIDING_TO_RIGHT.", ".SWING_FIXED_LEFT.", ".SWING_FIXED_RIGHT.", ".USERDEFINED."], g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.operation_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", w2), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("Door_overall_height", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.overall_height(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", w2), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("Door_overall_width", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.overall_width(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", w2), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("Door_predefined_type", |g| {
            let (v2, w2) = value::<DoorTypeEnum>(&[".DOOR.", ".GATE.", ".NOTDEFINED.", ".TRAPDOOR.", ".USERDEFINED."], g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", w2), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("DoorType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<DoorTypeEnum>(&[".DOOR.", ".GATE.", ".NOTDEFINED.", ".TRAPDOOR.", ".USERDEFINED."], g);
            let (v3, w3) = value::<DoorOperationTypeEnum>(&[".DOUBLE_DOOR_DOUBLE_SWING.", ".DOUBLE_DOOR_FOLDING.", ".DOUBLE_DOOR_SINGLE_SWING.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.", ".DOUBLE_DOOR_SLIDING.", ".DOUBLE_SWING_LEFT.", ".DOUBLE_SWING_RIGHT.", ".FOLDING_TO_LEFT.", ".FOLDING_TO_RIGHT.", ".NOTDEFINED.", ".REVOLVING.", ".ROLLINGUP.", ".SINGLE_SWING_LEFT.", ".SINGLE_SWING_RIGHT.", ".SLIDING_TO_LEFT.", ".SLIDING_TO_RIGHT.", ".SWING_FIXED_LEFT.", ".SWING_FIXED_RIGHT.", ".USERDEFINED."], g);
            let y = DoorType::new(v1, v2, v3);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2), ("operation_type", w3), ("parameter_takes_precedence", W::Is("$".to_string())), ("user_defined_partitioning_type", W::Is("$".to_string()))], None)
        }),
        ("OpeningElement_new", |g| {
            let (v1, w1) = text(g);
            let y = OpeningElement::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string()))], None)
        }),
        ("OpeningElement_predefined_type", |g| {
            let (v2, w2) = value::<OpeningElementTypeEnum>(&[".NOTDEFINED.", ".OPENING.", ".RECESS.", ".USERDEFINED."], g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", w2)], None)
        }),
        ("Organization_add_address_PostalAddress", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<PostalAddress>("PostalAddress", g);
            let (x, t) = object::<Organization>("Organization", g);
            let y = x.add_address(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("name", W::Keep), ("description", W::Keep), ("roles", W::Keep), ("addresses", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("Organization_add_address_TelecomAddress", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<TelecomAddress>("TelecomAddress", g);
            let (x, t) = object::<Organization>("Organization", g);
            let y = x.add_address(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("name", W::Keep), ("description", W::Keep), ("roles", W::Keep), ("addresses", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("Organization_add_role", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ActorRole>("ActorRole", g);
            let (x, t) = object::<Organization>("Organization", g);
            let y = x.add_role(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("name", W::Keep), ("description", W::Keep), ("roles", W::Push(Box::new(w2))), ("addresses", W::Keep)], Some((&was, &ifc)))
        }),
        ("Organization_new", |g| {
            let (v1, w1) = option(|g| text(g), g);
            let (v2, w2) = text(g);
            let (v3, w3) = option(|g| text(g), g);
            let y = Organization::new(v1, v2, v3);
            verify(None, &y.to_string(), vec![("id", w1), ("name", w2), ("description", w3), ("roles", W::Is("$".to_string())), ("addresses", W::Is("$".to_string()))], None)
        }),
        ("OwnerHistory_last_modified_date", |g| {
            let (v2, w2) = value::<IfcTimestamp>(&["1454575675", "0", "86400"], g);
            let (x, t) = object::<OwnerHistory>("OwnerHistory", g);
            let y = x.last_modified_date(v2);
            verify(Some(&t), &y.to_string(), vec![("owning_user", W::Keep), ("owning_application", W::Keep), ("state", W::Keep), ("change_action", W::Keep), ("last_modified_date", w2), ("last_modifying_user", W::Keep), ("last_modifying_application", W::Keep), ("creation_date", W::Keep)], None)
        }),
        ("OwnerHistory_last_modifying_application", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Application>("Application", g);
            let (x, t) = object::<OwnerHistory>("OwnerHistory", g);
            let y = x.last_modifying_application(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("owning_user", W::Keep), ("owning_application", W::Keep), ("state", W::Keep), ("change_action", W::Keep), ("last_modified_date", W::Keep), ("last_modifying_user", W::Keep), ("last_modifying_application", w2), ("creation_date", W::Keep)], Some((&was, &ifc)))
        }),
        ("OwnerHistory_last_modifying_user", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<PersonAndOrganization>("PersonAndOrganization", g);
            let (x, t) = object::<OwnerHistory>("OwnerHistory", g);
            let y = x.last_modifying_user(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("owning_user", W::Keep), ("owning_application", W::Keep), ("state", W::Keep), ("change_action", W::Keep), ("last_modified_date", W::Keep), ("last_modifying_user", w2), ("last_modifying_application", W::Keep), ("creation_date", W::Keep)], Some((&was, &ifc)))
        }),
        ("OwnerHistory_new", |g| {
            let (v1, w1) = value::<ChangeAction>(&[".ADDED.", ".DELETED.", ".MODIFIED.", ".MODIFIEDADDED.", ".MODIFIEDDELETED.", ".NOCHANGE."], g);
            let (v2, w2) = value::<IfcTimestamp>(&["1454575675", "0", "86400"], g);
            let y = OwnerHistory::new(v1, v2);
            verify(None, &y.to_string(), vec![("owning_user", W::Is("$".to_string())), ("owning_application", W::Is("$".to_string())), ("state", W::Is("$".to_string())), ("change_action", w1), ("last_modified_date", W::Is("$".to_string())), ("last_modifying_user", W::Is("$".to_string())), ("last_modifying_application", W::Is("$".to_string())), ("creation_date", w2)], None)
        }),
        ("OwnerHistory_owning_application", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Application>("Application", g);
            let (x, t) = object::<OwnerHistory>("OwnerHistory", g);
            let y = x.owning_application(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("owning_user", W::Keep), ("owning_application", w2), ("state", W::Keep), ("change_action", W::Keep), ("last_modified_date", W::Keep), ("last_modifying_user", W::Keep), ("last_modifying_application", W::Same(1)), ("creation_date", W::Keep)], Some((&was, &ifc)))
        }),
        ("OwnerHistory_owning_user", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<PersonAndOrganization>("PersonAndOrganization", g);
            let (x, t) = object::<OwnerHistory>("OwnerHistory", g);
            let y = x.owning_user(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("owning_user", w2), ("owning_application", W::Keep), ("state", W::Keep), ("change_action", W::Keep), ("last_modified_date", W::Keep), ("last_modifying_user", W::Same(0)), ("last_modifying_application", W::Keep), ("creation_date", W::Keep)], Some((&was, &ifc)))
        }),
        ("OwnerHistory_state", |g| {
            let (v2, w2) = value::<AccessState>(&[".LOCKED.", ".READONLY.", ".READONLYLOCKED.", ".READWRITE.", ".READWRITELOCKED."], g);
            let (x, t) = object::<OwnerHistory>("OwnerHistory", g);
            let y = x.state(v2);
            verify(Some(&t), &y.to_string(), vec![("owning_user", W::Keep), ("owning_application", W::Keep), ("state", w2), ("change_action", W::Keep), ("last_modified_date", W::Keep), ("last_modifying_user", W::Keep), ("last_modifying_application", W::Keep), ("creation_date", W::Keep)], None)
        }),
        ("Person_add_address_PostalAddress", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<PostalAddress>("PostalAddress", g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.add_address(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("Person_add_address_TelecomAddress", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<TelecomAddress>("TelecomAddress", g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.add_address(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("Person_add_middle_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.add_middle_name(v2);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Push(Box::new(w2))), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Keep)], None)
        }),
        ("Person_add_prefix_title", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.add_prefix_title(v2);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Push(Box::new(w2))), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Keep)], None)
        }),
        ("Person_add_role", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ActorRole>("ActorRole", g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.add_role(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Push(Box::new(w2))), ("addresses", W::Keep)], Some((&was, &ifc)))
        }),
        ("Person_add_suffix_title", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.add_suffix_title(v2);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Push(Box::new(w2))), ("roles", W::Keep), ("addresses", W::Keep)], None)
        }),
        ("Person_family_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.family_name(v2);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", w2), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Keep)], None)
        }),
        ("Person_given_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.given_name(v2);
            verify(Some(&t), &y.to_string(), vec![("id", W::Keep), ("family_name", W::Keep), ("given_name", w2), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Keep)], None)
        }),
        ("Person_id", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Person>("Person", g);
            let y = x.id(v2);
            verify(Some(&t), &y.to_string(), vec![("id", w2), ("family_name", W::Keep), ("given_name", W::Keep), ("middle_names", W::Keep), ("prefix_titles", W::Keep), ("suffix_titles", W::Keep), ("roles", W::Keep), ("addresses", W::Keep)], None)
        }),
        ("PersonAndOrganization_add_role", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ActorRole>("ActorRole", g);
            let (x, t) = object::<PersonAndOrganization>("PersonAndOrganization", g);
            let y = x.add_role(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("the_person", W::Keep), ("the_organization", W::Keep), ("roles", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("PersonAndOrganization_new", |g| {
            let (v1, w1) = typed::<Person>(g);
            let (v2, w2) = typed::<Organization>(g);
            let y = PersonAndOrganization::new(v1, v2);
            verify(None, &y.to_string(), vec![("the_person", w1), ("the_organization", w2), ("roles", W::Is("$".to_string()))], None)
        }),
        ("Project_new", |g| {
            let (v1, w1) = text(g);
            let y = Project::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("long_name", W::Is("$".to_string())), ("phase", W::Is("$".to_string())), ("representation_context", W::Is("()".to_string())), ("units_in_context", W::Is("$".to_string()))], None)
        }),
        ("Roof_new", |g| {
            let (v1, w1) = text(g);
            let y = Roof::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string()))], None)
        }),
        ("Roof_predefined_type", |g| {
            let (v2, w2) = value::<RoofTypeEnum>(&[".BARREL_ROOF.", ".BUTTERFLY_ROOF.", ".DOME_ROOF.", ".FLAT_ROOF.", ".GABLE_ROOF.", ".GAMBREL_ROOF.", ".HIPPED_GABLE_ROOF.", ".HIP_ROOF.", ".MANSARD_ROOF.", ".NOTDEFINED.", ".PAVILION_ROOF.", ".RAINBOW_ROOF.", ".SHED_ROOF.", ".USERDEFINED."], g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", w2)], None)
        }),
        ("RoofType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<RoofTypeEnum>(&[".BARREL_ROOF.", ".BUTTERFLY_ROOF.", ".DOME_ROOF.", ".FLAT_ROOF.", ".GABLE_ROOF.", ".GAMBREL_ROOF.", ".HIPPED_GABLE_ROOF.", ".HIP_ROOF.", ".MANSARD_ROOF.", ".NOTDEFINED.", ".PAVILION_ROOF.", ".RAINBOW_ROOF.", ".SHED_ROOF.", ".USERDEFINED."], g);
            let y = RoofType::new(v1, v2);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2)], None)
        }),
        ("ShadingDevice_new", |g| {
            let (v1, w1) = text(g);
            let y = ShadingDevice::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string()))], None)
        }),
        ("ShadingDevice_predefined_type", |g| {
            let (v2, w2) = value::<ShadingDeviceTypeEnum>(&[".AWNING.", ".JALOUSIE.", ".NOTDEFINED.", ".SHUTTER.", ".USERDEFINED."], g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", w2)], None)
        }),
        ("ShadingDeviceType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<ShadingDeviceTypeEnum>(&[".AWNING.", ".JALOUSIE.", ".NOTDEFINED.", ".SHUTTER.", ".USERDEFINED."], g);
            let y = ShadingDeviceType::new(v1, v2);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2)], None)
        }),
        ("Site_land_title_number", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.land_title_number(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", w2), ("site_address", W::Keep)], None)
        }),
        ("Site_new", |g| {
            let (v1, w1) = text(g);
            let y = Site::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("long_name", W::Is("$".to_string())), ("composition_type", W::Is("$".to_string())), ("ref_latitude", W::Is("$".to_string())), ("ref_longitude", W::Is("$".to_string())), ("ref_elevation", W::Is("$".to_string())), ("land_title_number", W::Is("$".to_string())), ("site_address", W::Is("$".to_string()))], None)
        }),
        ("Site_ref_elevation", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.ref_elevation(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", w2), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Site_ref_latitude", |g| {
            let (v2, w2) = list(|g| int(g), g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.ref_latitude(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", w2), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Site_ref_longitude", |g| {
            let (v2, w2) = list(|g| int(g), g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.ref_longitude(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", w2), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Site_site_address", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<PostalAddress>("PostalAddress", g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.site_address(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", w2)], Some((&was, &ifc)))
        }),
        ("Slab_new", |g| {
            let (v1, w1) = text(g);
            let y = Slab::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string()))], None)
        }),
        ("Slab_predefined_type", |g| {
            let (v2, w2) = value::<SlabTypeEnum>(&[".BASESLAB.", ".FLOOR.", ".LANDING.", ".NOTDEFINED.", ".ROOF.", ".USERDEFINED."], g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", w2)], None)
        }),
        ("SlabType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<SlabTypeEnum>(&[".BASESLAB.", ".FLOOR.", ".LANDING.", ".NOTDEFINED.", ".ROOF.", ".USERDEFINED."], g);
            let y = SlabType::new(v1, v2);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2)], None)
        }),
        ("Space_elevation_with_flooring", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.elevation_with_flooring(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", w2)], None)
        }),
        ("Space_new", |g| {
            let (v1, w1) = text(g);
            let y = Space::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("long_name", W::Is("$".to_string())), ("composition_type", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string())), ("elevation_with_flooring", W::Is("$".to_string()))], None)
        }),
        ("Space_predefined_type", |g| {
            let (v2, w2) = value::<SpaceTypeEnum>(&[".EXTERNAL.", ".GFA.", ".INTERNAL.", ".NOTDEFINED.", ".PARKING.", ".SPACE.", ".USERDEFINED."], g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", w2), ("elevation_with_flooring", W::Keep)], None)
        }),
        ("SpaceType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<SpaceTypeEnum>(&[".EXTERNAL.", ".GFA.", ".INTERNAL.", ".NOTDEFINED.", ".PARKING.", ".SPACE.", ".USERDEFINED."], g);
            let y = SpaceType::new(v1, v2);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2), ("long_name", W::Is("$".to_string()))], None)
        }),
        ("Storey_new", |g| {
            let (v1, w1) = text(g);
            let y = Storey::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("long_name", W::Is("$".to_string())), ("composition_type", W::Is("$".to_string())), ("elevation", W::Is("$".to_string()))], None)
        }),
        ("Wall_new", |g| {
            let (v1, w1) = text(g);
            let y = Wall::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string()))], None)
        }),
        ("Wall_predefined_type", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<WallType>("WallType", g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.predefined_type(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", w2)], Some((&was, &ifc)))
        }),
        ("WallType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<WallTypeEnum>(&[".ELEMENTEDWALL.", ".MOVABLE.", ".NOTDEFINED.", ".PARAPET.", ".PARTITIONING.", ".PLUMBINGWALL.", ".POLYGONAL.", ".RETAININGWALL.", ".SHEAR.", ".SOLIDWALL.", ".STANDARD.", ".USERDEFINED."], g);
            let y = WallType::new(v1, v2);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2)], None)
        }),
        ("Window_new", |g| {
            let (v1, w1) = text(g);
            let y = Window::new(v1);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("object_type", W::Is("$".to_string())), ("object_placement", W::Is("$".to_string())), ("representation", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("overall_height", W::Is("$".to_string())), ("overall_width", W::Is("$".to_string())), ("predefined_type", W::Is("$".to_string())), ("partitioning_type", W::Is("$".to_string())), ("user_defining_partitioning_type", W::Is("$".to_string()))], None)
        }),
        ("Window_overall_height", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.overall_height(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", w2), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("Window_overall_width", |g| {
            let (v2, w2) = real(g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.overall_width(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", w2), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("Window_partitioning_type", |g| {
            let (v2, w2) = value::<WindowPartitioningTypeEnum>(&[".DOUBLE_PANEL_HORIZONTAL.", ".DOUBLE_PANEL_VERTICAL.", ".NOTDEFINED.", ".SINGLE_PANEL.", ".TRIPLE_PANEL_BOTTOM.", ".TRIPLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_LEFT.", ".TRIPLE_PANEL_RIGHT.", ".TRIPLE_PANEL_TOP.", ".TRIPLE_PANEL_VERTICAL.", ".USERDEFINED."], g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.partitioning_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", w2), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("Window_predefined_type", |g| {
            let (v2, w2) = value::<WindowTypeEnum>(&[".LIGHTDOME.", ".NOTDEFINED.", ".SKYLIGHT.", ".USERDEFINED.", ".WINDOW."], g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.predefined_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", w2), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("WindowType_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<WindowTypeEnum>(&[".LIGHTDOME.", ".NOTDEFINED.", ".SKYLIGHT.", ".USERDEFINED.", ".WINDOW."], g);
            let (v3, w3) = value::<WindowPartitioningTypeEnum>(&[".DOUBLE_PANEL_HORIZONTAL.", ".DOUBLE_PANEL_VERTICAL.", ".NOTDEFINED.", ".SINGLE_PANEL.", ".TRIPLE_PANEL_BOTTOM.", ".TRIPLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_LEFT.", ".TRIPLE_PANEL_RIGHT.", ".TRIPLE_PANEL_TOP.", ".TRIPLE_PANEL_VERTICAL.", ".USERDEFINED."], g);
            let y = WindowType::new(v1, v2, v3);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("applicable_occurence", W::Is("$".to_string())), ("has_property_sets", W::Is("$".to_string())), ("representation_maps", W::Is("$".to_string())), ("tag", W::Is("$".to_string())), ("element_type", W::Is("$".to_string())), ("predefined_type", w2), ("partitioning_type", w3), ("parameter_takes_precedence", W::Is("$".to_string())), ("user_defined_partitioning_type", W::Is("$".to_string()))], None)
        }),
        ("PropertySet_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = list(|g| typed::<PropertySingleValue>(g), g);
            let y = PropertySet::new(v1, v2.into_iter());
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("properties", w2)], None)
        }),
        ("PropertySingleValue_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = value::<IfcValue>(&["IFCLABEL('abc')", "IFCREAL(2.5)", "IFCIDENTIFIER('x')"], g);
            let (v3, w3) = option(|g| id(g), g);
            let y = PropertySingleValue::new(v1, v2, v3);
            verify(None, &y.to_string(), vec![("name", w1), ("description", W::Is("$".to_string())), ("value", w2), ("unit", w3)], None)
        }),
        ("MappedItem_new_CartesianTransformationOperator3D", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<RepresentationMap>("RepresentationMap", g);
            let (v2, w2) = idor::<CartesianTransformationOperator3D>("CartesianTransformationOperator3D", g);
            let y = MappedItem::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("source", w1), ("target", w2)], Some((&was, &ifc)))
        }),
        ("MappedItem_new_CartesianTransformationOperator3DnonUniform", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<RepresentationMap>("RepresentationMap", g);
            let (v2, w2) = idor::<CartesianTransformationOperator3DnonUniform>("CartesianTransformationOperator3DnonUniform", g);
            let y = MappedItem::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("source", w1), ("target", w2)], Some((&was, &ifc)))
        }),
        ("RelAggregates_new", |g| {
            let (v1, w1) = text(g);
            let (v2, w2) = id(g);
            let (v3, w3) = list(|g| id(g), g);
            let y = RelAggregates::new(v1, v2, v3.into_iter());
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_object", w2), ("related_objects", w3)], None)
        }),
        ("RelAssociatesMaterial_new_Material", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Material>("Material", g);
            let y = RelAssociatesMaterial::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_objects", W::Is("()".to_string())), ("relating_material", w2)], Some((&was, &ifc)))
        }),
        ("RelAssociatesMaterial_new_MaterialConstituentSet", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<MaterialConstituentSet>("MaterialConstituentSet", g);
            let y = RelAssociatesMaterial::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_objects", W::Is("()".to_string())), ("relating_material", w2)], Some((&was, &ifc)))
        }),
        ("RelAssociatesMaterial_new_MaterialLayerSet", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<MaterialLayerSet>("MaterialLayerSet", g);
            let y = RelAssociatesMaterial::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_objects", W::Is("()".to_string())), ("relating_material", w2)], Some((&was, &ifc)))
        }),
        ("RelAssociatesMaterial_new_MaterialLayerSetUsage", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<MaterialLayerSetUsage>("MaterialLayerSetUsage", g);
            let y = RelAssociatesMaterial::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_objects", W::Is("()".to_string())), ("relating_material", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Building", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Building>("Building", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Door", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Door>("Door", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_OpeningElement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Roof", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Roof>("Roof", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_ShadingDevice", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<ShadingDevice>("ShadingDevice", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Site", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Site>("Site", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Slab", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Slab>("Slab", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Space", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Space>("Space", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Storey", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Storey>("Storey", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Wall", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Wall>("Wall", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_new_Window", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Window>("Window", g);
            let y = RelContainedInSpatialStructure::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_elements", W::Is("()".to_string())), ("relating_structure", w2)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Building", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Building>("Building", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Door", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Door>("Door", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_OpeningElement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Roof", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Roof>("Roof", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_ShadingDevice", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ShadingDevice>("ShadingDevice", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Site", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Site>("Site", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Slab", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Slab>("Slab", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Space", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Space>("Space", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Storey", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Storey>("Storey", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Wall", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_relate_structure_Window", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Window>("Window", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.relate_structure(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Push(Box::new(w2))), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelDeclares_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Project>("Project", g);
            let y = RelDeclares::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_context", w2), ("related_definitions", W::Is("()".to_string()))], Some((&was, &ifc)))
        }),
        ("RelDeclares_relate_definition", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (x, t) = object::<RelDeclares>("RelDeclares", g);
            let y = x.relate_definition(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("relating_context", W::Keep), ("related_definitions", W::Push(Box::new(w2)))], Some((&was, &ifc)))
        }),
        ("RelDefinesByProperties_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<PropertySet>("PropertySet", g);
            let y = RelDefinesByProperties::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_objects", W::Is("()".to_string())), ("relating_property_definition", w2)], Some((&was, &ifc)))
        }),
        ("RelDefinesByProperties_relate_obj", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (x, t) = object::<RelDefinesByProperties>("RelDefinesByProperties", g);
            let y = x.relate_obj(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Push(Box::new(w2))), ("relating_property_definition", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelDefinesByType_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Wall>("Wall", g);
            let y = RelDefinesByType::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("related_objects", W::Is("()".to_string())), ("relating_type", w2)], Some((&was, &ifc)))
        }),
        ("RelDefinesByType_relate_obj", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (x, t) = object::<RelDefinesByType>("RelDefinesByType", g);
            let y = x.relate_obj(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Push(Box::new(w2))), ("relating_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Building", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Building>("Building", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Door", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Door>("Door", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_OpeningElement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Roof", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Roof>("Roof", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_ShadingDevice", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<ShadingDevice>("ShadingDevice", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Site", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Site>("Site", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Slab", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Slab>("Slab", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Space", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Space>("Space", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Storey", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Storey>("Storey", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Wall", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Wall>("Wall", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_new_Window", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<Window>("Window", g);
            let y = RelFillsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_opening_element", w2), ("related_building_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Building", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Building>("Building", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Door", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Door>("Door", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_OpeningElement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<OpeningElement>("OpeningElement", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Roof", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Roof>("Roof", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_ShadingDevice", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<ShadingDevice>("ShadingDevice", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Site", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Site>("Site", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Slab", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Slab>("Slab", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Space", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Space>("Space", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Storey", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Storey>("Storey", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Wall", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_new_Window", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = text(g);
            let (v2, w2) = idor::<Window>("Window", g);
            let (v3, w3) = idor::<OpeningElement>("OpeningElement", g);
            let y = RelVoidsElement::new(v1, v2, v3, &mut ifc);
            verify(None, &y.to_string(), vec![("global_id", W::Any), ("owner_history", W::Is("$".to_string())), ("name", w1), ("description", W::Is("$".to_string())), ("relating_building_element", w2), ("related_opening_element", w3)], Some((&was, &ifc)))
        }),
        ("RepresentationMap_new", |g| {
            let (mut ifc, was) = (model(), model());
            let (v1, w1) = idor::<Axis3D>("Axis3D", g);
            let (v2, w2) = idor::<ShapeRepresentation>("ShapeRepresentation", g);
            let y = RepresentationMap::new(v1, v2, &mut ifc);
            verify(None, &y.to_string(), vec![("origin", w1), ("representation", w2)], Some((&was, &ifc)))
        }),
        ("SiUnit_new", |g| {
            let (v1, w1) = option(|g| value::<IfcUnitEnum>(&[".ABSORBEDDOSEUNIT.", ".AMOUNTOFSUBSTANCEUNIT.", ".AREAUNIT.", ".DOSEEQUIVALENTUNIT.", ".ELECTRICCAPACITANCEUNIT.", ".ELECTRICCHARGEUNIT.", ".ELECTRICCONDUCTANCEUNIT.", ".ELECTRICCURRENTUNIT.", ".ELECTRICRESISTANCEUNIT.", ".ELECTRICVOLTAGEUNIT.", ".ENERGYUNIT.", ".FORCEUNIT.", ".ILLUMINANCEUNIT.", ".INDUCTANCEUNIT.", ".LENGTHUNIT.", ".LUMINOUSFLUXUNIT.", ".LUMINOUSINTENSITYUNIT.", ".MAGNETICFLUXDENSITYUNIT.", ".MAGNETICFLUXUNIT.", ".MASSUNIT.", ".PLANEANGLEUNIT.", ".POWERUNIT.", ".PRESSUREUNIT.", ".RADIOACTIVITYUNIT.", ".SOLIDANGLEUNIT.", ".THERMODYNAMICTEMPERATUREUNIT.", ".TIMEUNIT.", ".USERDEFINED.", ".VOLUMEUNIT."], g), g);
            let (v2, w2) = option(|g| value::<IfcPrefix>(&[".ATTO.", ".CENTI.", ".DECA.", ".DECI.", ".EXA.", ".FEMTO.", ".GIGA.", ".KILO.", ".MEGA.", ".MICRO.", ".MILLI.", ".NANO.", ".PETA.", ".PICO.", ".TERA."], g), g);
            let (v3, w3) = value::<IfcUnitName>(&[".AMPERE.", ".BECQUEREL.", ".CANDELA.", ".COULOMB.", ".CUBIC_METRE.", ".DEGREE_CELSIUS.", ".FARAD.", ".GRAM.", ".GRAY.", ".HENRY.", ".HERTZ.", ".JOULE.", ".KELVIN.", ".LUMEN.", ".LUX.", ".METRE.", ".MOLE.", ".NEWTON.", ".OHM.", ".PASCAL.", ".RADIAN.", ".SECOND.", ".SIEMENS.", ".SIEVERT.", ".SQUARE_METRE.", ".STERADIAN.", ".TESLA.", ".VOLT.", ".WATT.", ".WEBER."], g);
            let y = SiUnit::new(v1, v2, v3);
            verify(None, &y.to_string(), vec![("dimensions", W::Is("*".to_string())), ("unit_type", w1), ("prefix", w2), ("name", w3)], None)
        }),
        ("Building_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], None)
        }),
        ("Door_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("DoorType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<DoorType>("DoorType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("OpeningElement_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Project_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("long_name", W::Keep), ("phase", W::Keep), ("representation_context", W::Keep), ("units_in_context", W::Keep)], None)
        }),
        ("PropertySet_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<PropertySet>("PropertySet", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("properties", W::Keep)], None)
        }),
        ("RelAggregates_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelAggregates>("RelAggregates", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("relating_object", W::Keep), ("related_objects", W::Keep)], None)
        }),
        ("RelAssociatesMaterial_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelAssociatesMaterial>("RelAssociatesMaterial", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("related_objects", W::Keep), ("relating_material", W::Keep)], None)
        }),
        ("RelContainedInSpatialStructure_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("related_elements", W::Keep), ("relating_structure", W::Keep)], None)
        }),
        ("RelDeclares_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelDeclares>("RelDeclares", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("relating_context", W::Keep), ("related_definitions", W::Keep)], None)
        }),
        ("RelDefinesByProperties_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelDefinesByProperties>("RelDefinesByProperties", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("related_objects", W::Keep), ("relating_property_definition", W::Keep)], None)
        }),
        ("RelDefinesByType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelDefinesByType>("RelDefinesByType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("related_objects", W::Keep), ("relating_type", W::Keep)], None)
        }),
        ("RelFillsElement_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelFillsElement>("RelFillsElement", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("relating_opening_element", W::Keep), ("related_building_element", W::Keep)], None)
        }),
        ("RelVoidsElement_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelVoidsElement>("RelVoidsElement", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("relating_building_element", W::Keep), ("related_opening_element", W::Keep)], None)
        }),
        ("Roof_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("RoofType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RoofType>("RoofType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDevice_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDeviceType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDeviceType>("ShadingDeviceType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Site_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Slab_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("SlabType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SlabType>("SlabType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Space_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], None)
        }),
        ("SpaceType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SpaceType>("SpaceType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("long_name", W::Keep)], None)
        }),
        ("Storey_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation", W::Keep)], None)
        }),
        ("Wall_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("WallType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WallType>("WallType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Window_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("WindowType_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WindowType>("WindowType", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", w2), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("PropertySingleValue_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<PropertySingleValue>("PropertySingleValue", g);
            let y = x.name(v2);
            verify(Some(&t), &y.to_string(), vec![("name", w2), ("description", W::Keep), ("value", W::Keep), ("unit", W::Keep)], None)
        }),
        ("Building_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], None)
        }),
        ("Door_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("DoorType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<DoorType>("DoorType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("OpeningElement_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Project_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("long_name", W::Keep), ("phase", W::Keep), ("representation_context", W::Keep), ("units_in_context", W::Keep)], None)
        }),
        ("PropertySet_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<PropertySet>("PropertySet", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("properties", W::Keep)], None)
        }),
        ("RelAggregates_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelAggregates>("RelAggregates", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("relating_object", W::Keep), ("related_objects", W::Keep)], None)
        }),
        ("RelAssociatesMaterial_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelAssociatesMaterial>("RelAssociatesMaterial", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("related_objects", W::Keep), ("relating_material", W::Keep)], None)
        }),
        ("RelContainedInSpatialStructure_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("related_elements", W::Keep), ("relating_structure", W::Keep)], None)
        }),
        ("RelDeclares_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelDeclares>("RelDeclares", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("relating_context", W::Keep), ("related_definitions", W::Keep)], None)
        }),
        ("RelDefinesByProperties_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelDefinesByProperties>("RelDefinesByProperties", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("related_objects", W::Keep), ("relating_property_definition", W::Keep)], None)
        }),
        ("RelDefinesByType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelDefinesByType>("RelDefinesByType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("related_objects", W::Keep), ("relating_type", W::Keep)], None)
        }),
        ("RelFillsElement_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelFillsElement>("RelFillsElement", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("relating_opening_element", W::Keep), ("related_building_element", W::Keep)], None)
        }),
        ("RelVoidsElement_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RelVoidsElement>("RelVoidsElement", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("relating_building_element", W::Keep), ("related_opening_element", W::Keep)], None)
        }),
        ("Roof_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("RoofType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RoofType>("RoofType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDevice_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDeviceType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDeviceType>("ShadingDeviceType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Site_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Slab_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("SlabType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SlabType>("SlabType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Space_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], None)
        }),
        ("SpaceType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SpaceType>("SpaceType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("long_name", W::Keep)], None)
        }),
        ("Storey_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation", W::Keep)], None)
        }),
        ("Wall_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("WallType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WallType>("WallType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Window_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("WindowType_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WindowType>("WindowType", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", w2), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("PropertySingleValue_description", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<PropertySingleValue>("PropertySingleValue", g);
            let y = x.description(v2);
            verify(Some(&t), &y.to_string(), vec![("name", W::Keep), ("description", w2), ("value", W::Keep), ("unit", W::Keep)], None)
        }),
        ("Project_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("long_name", W::Keep), ("phase", W::Keep), ("representation_context", W::Keep), ("units_in_context", W::Keep)], None)
        }),
        ("Building_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], None)
        }),
        ("Door_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("OpeningElement_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Roof_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDevice_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Site_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Slab_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Space_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], None)
        }),
        ("Storey_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation", W::Keep)], None)
        }),
        ("Wall_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("Window_object_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.object_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", w2), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("Project_long_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.long_name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("long_name", w2), ("phase", W::Keep), ("representation_context", W::Keep), ("units_in_context", W::Keep)], None)
        }),
        ("Building_long_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.long_name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", w2), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], None)
        }),
        ("Site_long_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.long_name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", w2), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Space_long_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.long_name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", w2), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], None)
        }),
        ("Storey_long_name", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.long_name(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", w2), ("composition_type", W::Keep), ("elevation", W::Keep)], None)
        }),
        ("Project_phase", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.phase(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("long_name", W::Keep), ("phase", w2), ("representation_context", W::Keep), ("units_in_context", W::Keep)], None)
        }),
        ("Project_add_context", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<GeometricRepresentationContext>("GeometricRepresentationContext", g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.add_context(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("long_name", W::Keep), ("phase", W::Keep), ("representation_context", W::Push(Box::new(w2))), ("units_in_context", W::Keep)], Some((&was, &ifc)))
        }),
        ("Project_unit_assignment", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<UnitAssigment>("UnitAssigment", g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.unit_assignment(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("long_name", W::Keep), ("phase", W::Keep), ("representation_context", W::Keep), ("units_in_context", w2)], Some((&was, &ifc)))
        }),
        ("Door_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], None)
        }),
        ("OpeningElement_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("predefined_type", W::Keep)], None)
        }),
        ("Roof_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDevice_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("predefined_type", W::Keep)], None)
        }),
        ("Slab_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("predefined_type", W::Keep)], None)
        }),
        ("Wall_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("predefined_type", W::Keep)], None)
        }),
        ("Window_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", w2), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], None)
        }),
        ("DoorType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<DoorType>("DoorType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("RoofType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RoofType>("RoofType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDeviceType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDeviceType>("ShadingDeviceType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("SlabType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SlabType>("SlabType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("SpaceType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SpaceType>("SpaceType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep), ("long_name", W::Keep)], None)
        }),
        ("WallType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WallType>("WallType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep)], None)
        }),
        ("WindowType_tag", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WindowType>("WindowType", g);
            let y = x.tag(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", w2), ("element_type", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("DoorType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<DoorType>("DoorType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("RoofType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<RoofType>("RoofType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep)], None)
        }),
        ("ShadingDeviceType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<ShadingDeviceType>("ShadingDeviceType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep)], None)
        }),
        ("SlabType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SlabType>("SlabType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep)], None)
        }),
        ("SpaceType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<SpaceType>("SpaceType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep), ("long_name", W::Keep)], None)
        }),
        ("WallType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WallType>("WallType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep)], None)
        }),
        ("WindowType_element_type", |g| {
            let (v2, w2) = text(g);
            let (x, t) = object::<WindowType>("WindowType", g);
            let y = x.element_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", w2), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], None)
        }),
        ("Building_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], Some((&was, &ifc)))
        }),
        ("Door_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("OpeningElement_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Roof_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("ShadingDevice_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Site_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], Some((&was, &ifc)))
        }),
        ("Slab_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Space_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], Some((&was, &ifc)))
        }),
        ("Storey_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation", W::Keep)], Some((&was, &ifc)))
        }),
        ("Wall_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Window_object_placement", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<LocalPlacement>("LocalPlacement", g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.object_placement(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", w2), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Building_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], Some((&was, &ifc)))
        }),
        ("Door_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("OpeningElement_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Roof_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("ShadingDevice_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Site_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], Some((&was, &ifc)))
        }),
        ("Slab_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Space_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], Some((&was, &ifc)))
        }),
        ("Storey_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation", W::Keep)], Some((&was, &ifc)))
        }),
        ("Wall_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Window_representation", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<ProductDefinitionShape>("ProductDefinitionShape", g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.representation(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", w2), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelAssociatesMaterial_relate_push", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (mut x, t) = object::<RelAssociatesMaterial>("RelAssociatesMaterial", g);
            x.relate_push(v2, &mut ifc); let y = x;
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Push(Box::new(w2))), ("relating_material", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelAssociatesMaterial_relate_obj", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<Wall>("Wall", g);
            let (x, t) = object::<RelAssociatesMaterial>("RelAssociatesMaterial", g);
            let y = x.relate_obj(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Push(Box::new(w2))), ("relating_material", W::Keep)], Some((&was, &ifc)))
        }),
        ("Building_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], Some((&was, &ifc)))
        }),
        ("Door_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Door>("Door", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("user_defining_operation_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("DoorType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<DoorType>("DoorType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("operation_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("OpeningElement_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<OpeningElement>("OpeningElement", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Project_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Project>("Project", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("long_name", W::Keep), ("phase", W::Keep), ("representation_context", W::Keep), ("units_in_context", W::Keep)], Some((&was, &ifc)))
        }),
        ("PropertySet_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<PropertySet>("PropertySet", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("properties", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelAggregates_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelAggregates>("RelAggregates", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("relating_object", W::Keep), ("related_objects", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelAssociatesMaterial_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelAssociatesMaterial>("RelAssociatesMaterial", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Keep), ("relating_material", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelContainedInSpatialStructure_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelContainedInSpatialStructure>("RelContainedInSpatialStructure", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("related_elements", W::Keep), ("relating_structure", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelDeclares_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelDeclares>("RelDeclares", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("relating_context", W::Keep), ("related_definitions", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelDefinesByProperties_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelDefinesByProperties>("RelDefinesByProperties", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Keep), ("relating_property_definition", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelDefinesByType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelDefinesByType>("RelDefinesByType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("related_objects", W::Keep), ("relating_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelFillsElement_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelFillsElement>("RelFillsElement", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("relating_opening_element", W::Keep), ("related_building_element", W::Keep)], Some((&was, &ifc)))
        }),
        ("RelVoidsElement_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RelVoidsElement>("RelVoidsElement", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("relating_building_element", W::Keep), ("related_opening_element", W::Keep)], Some((&was, &ifc)))
        }),
        ("Roof_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Roof>("Roof", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("RoofType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<RoofType>("RoofType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("ShadingDevice_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<ShadingDevice>("ShadingDevice", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("ShadingDeviceType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<ShadingDeviceType>("ShadingDeviceType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Site_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], Some((&was, &ifc)))
        }),
        ("Slab_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Slab>("Slab", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("SlabType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<SlabType>("SlabType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Space_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], Some((&was, &ifc)))
        }),
        ("SpaceType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<SpaceType>("SpaceType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("long_name", W::Keep)], Some((&was, &ifc)))
        }),
        ("Storey_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", W::Keep), ("elevation", W::Keep)], Some((&was, &ifc)))
        }),
        ("Wall_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Wall>("Wall", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("WallType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<WallType>("WallType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Window_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<Window>("Window", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("tag", W::Keep), ("overall_height", W::Keep), ("overall_width", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("user_defining_partitioning_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("WindowType_owner_history", |g| {
            let (mut ifc, was) = (model(), model());
            let (v2, w2) = idor::<OwnerHistory>("OwnerHistory", g);
            let (x, t) = object::<WindowType>("WindowType", g);
            let y = x.owner_history(v2, &mut ifc);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", w2), ("name", W::Keep), ("description", W::Keep), ("applicable_occurence", W::Keep), ("has_property_sets", W::Keep), ("representation_maps", W::Keep), ("tag", W::Keep), ("element_type", W::Keep), ("predefined_type", W::Keep), ("partitioning_type", W::Keep), ("parameter_takes_precedence", W::Keep), ("user_defined_partitioning_type", W::Keep)], Some((&was, &ifc)))
        }),
        ("Building_composition_type", |g| {
            let (v2, w2) = value::<CompositionTypeEnum>(&[".COMPLEX.", ".ELEMENT.", ".PARTIAL."], g);
            let (x, t) = object::<Building>("Building", g);
            let y = x.composition_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", w2), ("elevation_of_ref_height", W::Keep), ("elevation_of_terrain", W::Keep), ("building_address", W::Keep)], None)
        }),
        ("Site_composition_type", |g| {
            let (v2, w2) = value::<CompositionTypeEnum>(&[".COMPLEX.", ".ELEMENT.", ".PARTIAL."], g);
            let (x, t) = object::<Site>("Site", g);
            let y = x.composition_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", w2), ("ref_latitude", W::Keep), ("ref_longitude", W::Keep), ("ref_elevation", W::Keep), ("land_title_number", W::Keep), ("site_address", W::Keep)], None)
        }),
        ("Space_composition_type", |g| {
            let (v2, w2) = value::<CompositionTypeEnum>(&[".COMPLEX.", ".ELEMENT.", ".PARTIAL."], g);
            let (x, t) = object::<Space>("Space", g);
            let y = x.composition_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", w2), ("predefined_type", W::Keep), ("elevation_with_flooring", W::Keep)], None)
        }),
        ("Storey_composition_type", |g| {
            let (v2, w2) = value::<CompositionTypeEnum>(&[".COMPLEX.", ".ELEMENT.", ".PARTIAL."], g);
            let (x, t) = object::<Storey>("Storey", g);
            let y = x.composition_type(v2);
            verify(Some(&t), &y.to_string(), vec![("global_id", W::Keep), ("owner_history", W::Keep), ("name", W::Keep), ("description", W::Keep), ("object_type", W::Keep), ("object_placement", W::Keep), ("representation", W::Keep), ("long_name", W::Keep), ("composition_type", w2), ("elevation", W::Keep)], None)
        }),
    ]
}
