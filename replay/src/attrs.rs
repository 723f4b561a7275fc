//! The public attributes of each entity and their places in its text (generated once from the tree the schema was frozen from).
use ifc_rs::prelude::*;
use std::any::Any;

pub fn attributes(x: &dyn Any) -> Option<Vec<(&'static str, usize, String)>> {
    if let Some(x) = x.downcast_ref::<ActorRole>() {
        return Some(vec![
            ("role", 0, x.role.to_string()),
            ("user_defined_role", 1, x.user_defined_role.to_string()),
            ("description", 2, x.description.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Application>() {
        return Some(vec![
            ("application_developer", 0, x.application_developer.to_string()),
            ("version", 1, x.version.to_string()),
            ("application_full_name", 2, x.application_full_name.to_string()),
            ("application_identifier", 3, x.application_identifier.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ArbitraryClosedProfileDef>() {
        return Some(vec![
            ("profile_type", 0, x.profile_type.to_string()),
            ("profile_name", 1, x.profile_name.to_string()),
            ("outer_curve", 2, x.outer_curve.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Axis2D>() {
        return Some(vec![
            ("location", 0, x.location.to_string()),
            ("local_x", 1, x.local_x.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Axis3D>() {
        return Some(vec![
            ("location", 0, x.location.to_string()),
            ("local_z", 1, x.local_z.to_string()),
            ("local_x", 2, x.local_x.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Building>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("long_name", 7, x.long_name.to_string()),
            ("composition_type", 8, x.composition_type.to_string()),
            ("elevation_of_ref_height", 9, x.elevation_of_ref_height.to_string()),
            ("elevation_of_terrain", 10, x.elevation_of_terrain.to_string()),
            ("building_address", 11, x.building_address.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<CartesianTransformationOperator3D>() {
        return Some(vec![
            ("axis_x", 0, x.axis_x.to_string()),
            ("axis_y", 1, x.axis_y.to_string()),
            ("local_origin", 2, x.local_origin.to_string()),
            ("scale", 3, x.scale.to_string()),
            ("axis_z", 4, x.axis_z.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<CartesianTransformationOperator3DnonUniform>() {
        return Some(vec![
            ("axis_x", 0, x.axis_x.to_string()),
            ("axis_y", 1, x.axis_y.to_string()),
            ("local_origin", 2, x.local_origin.to_string()),
            ("scale", 3, x.scale.to_string()),
            ("axis_z", 4, x.axis_z.to_string()),
            ("scale_y", 5, x.scale_y.to_string()),
            ("scale_z", 6, x.scale_z.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ConversionBasedUnit>() {
        return Some(vec![
            ("dimensions", 0, x.dimensions.to_string()),
            ("unit_type", 1, x.unit_type.to_string()),
            ("name", 2, x.name.to_string()),
            ("conversion_factor", 3, x.conversion_factor.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<DerivedUnit>() {
        return Some(vec![
            ("elements", 0, x.elements.to_string()),
            ("unit_type", 1, x.unit_type.to_string()),
            ("user_defined_type", 2, x.user_defined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<DerivedUnitElement>() {
        return Some(vec![
            ("unit", 0, x.unit.to_string()),
            ("exponent", 1, x.exponent.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Door>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("overall_height", 8, x.overall_height.to_string()),
            ("overall_width", 9, x.overall_width.to_string()),
            ("predefined_type", 10, x.predefined_type.to_string()),
            ("operation_type", 11, x.operation_type.to_string()),
            ("user_defining_operation_type", 12, x.user_defining_operation_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<DoorType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
            ("operation_type", 10, x.operation_type.to_string()),
            ("parameter_takes_precedence", 11, x.parameter_takes_precedence.to_string()),
            ("user_defined_partitioning_type", 12, x.user_defined_partitioning_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ExtrudedAreaSolid>() {
        return Some(vec![
            ("swept_area", 0, x.swept_area.to_string()),
            ("position", 1, x.position.to_string()),
            ("extruded_direction", 2, x.extruded_direction.to_string()),
            ("depth", 3, x.depth.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<GeometricRepresentationContext>() {
        return Some(vec![
            ("context_identifier", 0, x.context_identifier.to_string()),
            ("context_type", 1, x.context_type.to_string()),
            ("coord_space_dimension", 2, x.coord_space_dimension.to_string()),
            ("precision", 3, x.precision.to_string()),
            ("world_coord_system", 4, x.world_coord_system.to_string()),
            ("true_north", 5, x.true_north.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<GeometricRepresentationSubContext>() {
        return Some(vec![
            ("context_identifier", 0, x.context_identifier.to_string()),
            ("context_type", 1, x.context_type.to_string()),
            ("coord_space_dimension", 2, x.coord_space_dimension.to_string()),
            ("precision", 3, x.precision.to_string()),
            ("world_coord_system", 4, x.world_coord_system.to_string()),
            ("true_north", 5, x.true_north.to_string()),
            ("parent_context", 6, x.parent_context.to_string()),
            ("target_scale", 7, x.target_scale.to_string()),
            ("target_view", 8, x.target_view.to_string()),
            ("user_defined_target_view", 9, x.user_defined_target_view.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<IndexedPolyCurve>() {
        return Some(vec![
            ("points", 0, x.points.to_string()),
            ("segments", 1, x.segments.to_string()),
            ("self_intersect", 2, x.self_intersect.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<LocalPlacement>() {
        return Some(vec![
            ("placement_rel_to", 0, x.placement_rel_to.to_string()),
            ("relative_placement", 1, x.relative_placement.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MappedItem>() {
        return Some(vec![
            ("source", 0, x.source.to_string()),
            ("target", 1, x.target.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Material>() {
        return Some(vec![
            ("material", 0, x.material.to_string()),
            ("description", 1, x.description.to_string()),
            ("category", 2, x.category.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MaterialConstituent>() {
        return Some(vec![
            ("name", 0, x.name.to_string()),
            ("description", 1, x.description.to_string()),
            ("material", 2, x.material.to_string()),
            ("fraction", 3, x.fraction.to_string()),
            ("category", 4, x.category.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MaterialConstituentSet>() {
        return Some(vec![
            ("name", 0, x.name.to_string()),
            ("description", 1, x.description.to_string()),
            ("material_constituents", 2, x.material_constituents.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MaterialLayer>() {
        return Some(vec![
            ("material", 0, x.material.to_string()),
            ("layer_thickness", 1, x.layer_thickness.to_string()),
            ("is_ventilated", 2, x.is_ventilated.to_string()),
            ("name", 3, x.name.to_string()),
            ("description", 4, x.description.to_string()),
            ("category", 5, x.category.to_string()),
            ("priority", 6, x.priority.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MaterialLayerSet>() {
        return Some(vec![
            ("material_layers", 0, x.material_layers.to_string()),
            ("layer_set_name", 1, x.layer_set_name.to_string()),
            ("description", 2, x.description.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MaterialLayerSetUsage>() {
        return Some(vec![
            ("spatial_element_structure", 0, x.spatial_element_structure.to_string()),
            ("layer_set_direction", 1, x.layer_set_direction.to_string()),
            ("direction_sense", 2, x.direction_sense.to_string()),
            ("offset_from_reference_line", 3, x.offset_from_reference_line.to_string()),
            ("reference_extent", 4, x.reference_extent.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MeasureWithUnit>() {
        return Some(vec![
            ("value", 0, x.value.to_string()),
            ("unit", 1, x.unit.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<MonetaryUnit>() {
        return Some(vec![
            ("currency", 0, x.currency.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<OpeningElement>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("predefined_type", 8, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Organization>() {
        return Some(vec![
            ("id", 0, x.id.to_string()),
            ("name", 1, x.name.to_string()),
            ("description", 2, x.description.to_string()),
            ("roles", 3, x.roles.to_string()),
            ("addresses", 4, x.addresses.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<OwnerHistory>() {
        return Some(vec![
            ("owning_user", 0, x.owning_user.to_string()),
            ("owning_application", 1, x.owning_application.to_string()),
            ("state", 2, x.state.to_string()),
            ("change_action", 3, x.change_action.to_string()),
            ("last_modified_date", 4, x.last_modified_date.to_string()),
            ("last_modifying_user", 5, x.last_modifying_user.to_string()),
            ("last_modifying_application", 6, x.last_modifying_application.to_string()),
            ("creation_date", 7, x.creation_date.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Person>() {
        return Some(vec![
            ("id", 0, x.id.to_string()),
            ("family_name", 1, x.family_name.to_string()),
            ("given_name", 2, x.given_name.to_string()),
            ("middle_names", 3, x.middle_names.to_string()),
            ("prefix_titles", 4, x.prefix_titles.to_string()),
            ("suffix_titles", 5, x.suffix_titles.to_string()),
            ("roles", 6, x.roles.to_string()),
            ("addresses", 7, x.addresses.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PersonAndOrganization>() {
        return Some(vec![
            ("the_person", 0, x.the_person.to_string()),
            ("the_organization", 1, x.the_organization.to_string()),
            ("roles", 2, x.roles.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PlaneAngleMeasure>() {
        return Some(vec![
            ("value", 0, x.value.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PointList2D>() {
        return Some(vec![
            ("coord_list", 0, x.coord_list.to_string()),
            ("tag_list", 1, x.tag_list.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PointList3D>() {
        return Some(vec![
            ("coord_list", 0, x.coord_list.to_string()),
            ("tag_list", 1, x.tag_list.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PolyLine>() {
        return Some(vec![
            ("points", 0, x.points.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PostalAddress>() {
        return Some(vec![
            ("purpose", 0, x.purpose.to_string()),
            ("description", 1, x.description.to_string()),
            ("user_defined_purpose", 2, x.user_defined_purpose.to_string()),
            ("internal_location", 3, x.internal_location.to_string()),
            ("address_lines", 4, x.address_lines.to_string()),
            ("postal_box", 5, x.postal_box.to_string()),
            ("town", 6, x.town.to_string()),
            ("region", 7, x.region.to_string()),
            ("postal_code", 8, x.postal_code.to_string()),
            ("country", 9, x.country.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ProductDefinitionShape>() {
        return Some(vec![
            ("name", 0, x.name.to_string()),
            ("description", 1, x.description.to_string()),
            ("representations", 2, x.representations.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Project>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("long_name", 5, x.long_name.to_string()),
            ("phase", 6, x.phase.to_string()),
            ("representation_context", 7, x.representation_context.to_string()),
            ("units_in_context", 8, x.units_in_context.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PropertySet>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("properties", 4, x.properties.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<PropertySingleValue>() {
        return Some(vec![
            ("value", 2, x.value.to_string()),
            ("unit", 3, x.unit.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RectangleProfileDef>() {
        return Some(vec![
            ("profile_type", 0, x.profile_type.to_string()),
            ("profile_name", 1, x.profile_name.to_string()),
            ("position", 2, x.position.to_string()),
            ("x_dim", 3, x.x_dim.to_string()),
            ("y_dim", 4, x.y_dim.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelAggregates>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("relating_object", 4, x.relating_object.to_string()),
            ("related_objects", 5, x.related_objects.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelAssociatesMaterial>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("related_objects", 4, x.related_objects.to_string()),
            ("relating_material", 5, x.relating_material.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelContainedInSpatialStructure>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("related_elements", 4, x.related_elements.to_string()),
            ("relating_structure", 5, x.relating_structure.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelDeclares>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("relating_context", 4, x.relating_context.to_string()),
            ("related_definitions", 5, x.related_definitions.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelDefinesByProperties>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("related_objects", 4, x.related_objects.to_string()),
            ("relating_property_definition", 5, x.relating_property_definition.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelDefinesByType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("related_objects", 4, x.related_objects.to_string()),
            ("relating_type", 5, x.relating_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelFillsElement>() {
        return Some(vec![
            ("related_building_element", 5, x.related_building_element.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RelVoidsElement>() {
        return Some(vec![
            ("relating_building_element", 4, x.relating_building_element.to_string()),
            ("related_opening_element", 5, x.related_opening_element.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RepresentationMap>() {
        return Some(vec![
            ("origin", 0, x.origin.to_string()),
            ("representation", 1, x.representation.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Roof>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("predefined_type", 8, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<RoofType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ShadingDevice>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("predefined_type", 8, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ShadingDeviceType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<ShapeRepresentation>() {
        return Some(vec![
            ("context_of_items", 0, x.context_of_items.to_string()),
            ("representation_identifier", 1, x.representation_identifier.to_string()),
            ("representation_type", 2, x.representation_type.to_string()),
            ("items", 3, x.items.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<SiUnit>() {
        return Some(vec![
            ("dimensions", 0, x.dimensions.to_string()),
            ("unit_type", 1, x.unit_type.to_string()),
            ("prefix", 2, x.prefix.to_string()),
            ("name", 3, x.name.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Site>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("long_name", 7, x.long_name.to_string()),
            ("composition_type", 8, x.composition_type.to_string()),
            ("ref_latitude", 9, x.ref_latitude.to_string()),
            ("ref_longitude", 10, x.ref_longitude.to_string()),
            ("ref_elevation", 11, x.ref_elevation.to_string()),
            ("land_title_number", 12, x.land_title_number.to_string()),
            ("site_address", 13, x.site_address.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Slab>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("predefined_type", 8, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<SlabType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Space>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("long_name", 7, x.long_name.to_string()),
            ("composition_type", 8, x.composition_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
            ("elevation_with_flooring", 10, x.elevation_with_flooring.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<SpaceType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
            ("long_name", 10, x.long_name.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Storey>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("long_name", 7, x.long_name.to_string()),
            ("composition_type", 8, x.composition_type.to_string()),
            ("elevation", 9, x.elevation.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<TelecomAddress>() {
        return Some(vec![
            ("purpose", 0, x.purpose.to_string()),
            ("description", 1, x.description.to_string()),
            ("user_defined_purpose", 2, x.user_defined_purpose.to_string()),
            ("telephone_numbers", 3, x.telephone_numbers.to_string()),
            ("facsimile_numbers", 4, x.facsimile_numbers.to_string()),
            ("pager_number", 5, x.pager_number.to_string()),
            ("email_addresses", 6, x.email_addresses.to_string()),
            ("homepage_url", 7, x.homepage_url.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<UnitAssigment>() {
        return Some(vec![
            ("units", 0, x.units.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Wall>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("predefined_type", 8, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<WallType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<Window>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("object_type", 4, x.object_type.to_string()),
            ("object_placement", 5, x.object_placement.to_string()),
            ("representation", 6, x.representation.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("overall_height", 8, x.overall_height.to_string()),
            ("overall_width", 9, x.overall_width.to_string()),
            ("predefined_type", 10, x.predefined_type.to_string()),
            ("partitioning_type", 11, x.partitioning_type.to_string()),
            ("user_defining_partitioning_type", 12, x.user_defining_partitioning_type.to_string()),
        ]);
    }
    if let Some(x) = x.downcast_ref::<WindowType>() {
        return Some(vec![
            ("global_id", 0, x.global_id.to_string()),
            ("owner_history", 1, x.owner_history.to_string()),
            ("name", 2, x.name.to_string()),
            ("description", 3, x.description.to_string()),
            ("applicable_occurence", 4, x.applicable_occurence.to_string()),
            ("has_property_sets", 5, x.has_property_sets.to_string()),
            ("representation_maps", 6, x.representation_maps.to_string()),
            ("tag", 7, x.tag.to_string()),
            ("element_type", 8, x.element_type.to_string()),
            ("predefined_type", 9, x.predefined_type.to_string()),
            ("partitioning_type", 10, x.partitioning_type.to_string()),
            ("parameter_takes_precedence", 11, x.parameter_takes_precedence.to_string()),
            ("user_defined_partitioning_type", 12, x.user_defined_partitioning_type.to_string()),
        ]);
    }
    None
}
