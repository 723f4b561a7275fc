//! The tokens of the enumerations, as the IFC schema spells them (frozen).
use super::Tok;
use ifc_rs::prelude::*;

pub fn all() -> Vec<Tok> {
    let mut v = Vec::new();
    tok!(v, GeometricProjection::GraphView, ".GRAPH_VIEW.");
    tok!(v, GeometricProjection::SketchView, ".SKETCH_VIEW.");
    tok!(v, GeometricProjection::ModelView, ".MODEL_VIEW.");
    tok!(v, GeometricProjection::PlanView, ".PLAN_VIEW.");
    tok!(v, GeometricProjection::ReflectedPlanView, ".REFLECTED_PLAN_VIEW.");
    tok!(v, GeometricProjection::SectionView, ".SECTION_VIEW.");
    tok!(v, GeometricProjection::ElevationView, ".ELEVATION_VIEW.");
    tok!(v, GeometricProjection::UserDefined, ".USERDEFINED.");
    tok!(v, GeometricProjection::NotDefined, ".NOTDEFINED.");
    tok!(v, ProfileType::Curve, ".CURVE.");
    tok!(v, ProfileType::Area, ".AREA.");
    tok!(v, RepresentationIdentifier::CoG, "'CoG'");
    tok!(v, RepresentationIdentifier::Box, "'Box'");
    tok!(v, RepresentationIdentifier::Annotation, "'Annotation'");
    tok!(v, RepresentationIdentifier::Axis, "'Axis'");
    tok!(v, RepresentationIdentifier::FootPrint, "'FootPrint'");
    tok!(v, RepresentationIdentifier::Profile, "'Profile'");
    tok!(v, RepresentationIdentifier::Surface, "'Surface'");
    tok!(v, RepresentationIdentifier::Reference, "'Reference'");
    tok!(v, RepresentationIdentifier::Body, "'Body'");
    tok!(v, RepresentationIdentifier::BodyFallBack, "'Body-FallBack'");
    tok!(v, RepresentationIdentifier::Clearance, "'Clearance'");
    tok!(v, RepresentationIdentifier::Lighting, "'Lighting'");
    tok!(v, RepresentationType::Point, "'Point'");
    tok!(v, RepresentationType::PointCloud, "'PointCloud'");
    tok!(v, RepresentationType::Curve, "'Curve'");
    tok!(v, RepresentationType::Curve2D, "'Curve2D'");
    tok!(v, RepresentationType::Curve3D, "'Curve3D'");
    tok!(v, RepresentationType::Surface, "'Surface'");
    tok!(v, RepresentationType::Surface2D, "'Surface2D'");
    tok!(v, RepresentationType::Surface3D, "'Surface3D'");
    tok!(v, RepresentationType::SectionedSurface, "'SectionedSurface'");
    tok!(v, RepresentationType::FillArea, "'FillArea'");
    tok!(v, RepresentationType::Text, "'Text'");
    tok!(v, RepresentationType::AdvancedSurface, "'AdvancedSurface'");
    tok!(v, RepresentationType::GeometricSet, "'GeometricSet'");
    tok!(v, RepresentationType::GeometricCurveSet, "'GeometricCurveSet'");
    tok!(v, RepresentationType::Annotation2D, "'Annotation2D'");
    tok!(v, RepresentationType::SurfaceModel, "'SurfaceModel'");
    tok!(v, RepresentationType::Tessellation, "'Tessellation'");
    tok!(v, RepresentationType::Segment, "'Segment'");
    tok!(v, RepresentationType::SolidModel, "'SolidModel'");
    tok!(v, RepresentationType::SweptSolid, "'SweptSolid'");
    tok!(v, RepresentationType::AdvancedSweptSolid, "'AdvancedSweptSolid'");
    tok!(v, RepresentationType::Brep, "'Brep'");
    tok!(v, RepresentationType::AdvancedBrep, "'AdvancedBrep'");
    tok!(v, RepresentationType::CSG, "'CSG'");
    tok!(v, RepresentationType::Clipping, "'Clipping'");
    tok!(v, RepresentationType::BoundingBox, "'BoundingBox'");
    tok!(v, RepresentationType::SectionedSpine, "'SectionedSpine'");
    tok!(v, RepresentationType::LightSource, "'LightSource'");
    tok!(v, RepresentationType::MappedRepresentation, "'MappedRepresentation'");
    tok!(v, DirectionSenseEnum::Positive, ".POSITIVE.");
    tok!(v, DirectionSenseEnum::Negative, ".NEGATIVE.");
    tok!(v, LayerSetDirectionEnum::Axis1, ".AXIS1.");
    tok!(v, LayerSetDirectionEnum::Axis2, ".AXIS2.");
    tok!(v, LayerSetDirectionEnum::Axis3, ".AXIS3.");
    tok!(v, AccessState::ReadWrite, ".READWRITE.");
    tok!(v, AccessState::ReadOnly, ".READONLY.");
    tok!(v, AccessState::Locked, ".LOCKED.");
    tok!(v, AccessState::ReadWriteLocked, ".READWRITELOCKED.");
    tok!(v, AccessState::ReadOnlyLocked, ".READONLYLOCKED.");
    tok!(v, Role::Supplier, ".SUPPLIER.");
    tok!(v, Role::Manufacturer, ".MANUFACTURER.");
    tok!(v, Role::Contractor, ".CONTRACTOR.");
    tok!(v, Role::Subcontractor, ".SUBCONTRACTOR.");
    tok!(v, Role::Architect, ".ARCHITECT.");
    tok!(v, Role::StructuralEngineer, ".STRUCTURALENGINEER.");
    tok!(v, Role::CostEngineer, ".COSTENGINEER.");
    tok!(v, Role::Clien, ".CLIENT.");
    tok!(v, Role::BuildingOwner, ".BUILDINGOWNER.");
    tok!(v, Role::BuildingOperator, ".BUILDINGOPERATOR.");
    tok!(v, Role::MechanicalEngineer, ".MECHANICALENGINEER.");
    tok!(v, Role::ElectricalEngineer, ".ELECTRICALENGINEER.");
    tok!(v, Role::ProjectManager, ".PROJECTMANAGER.");
    tok!(v, Role::FacilitiesManager, ".FACILITIESMANAGER.");
    tok!(v, Role::CivilEngineer, ".CIVILENGINEER.");
    tok!(v, Role::ComissionEngineer, ".COMMISSIONINGENGINEER.");
    tok!(v, Role::Engineer, ".ENGINEER.");
    tok!(v, Role::Owner, ".OWNER.");
    tok!(v, Role::Consultant, ".CONSULTANT.");
    tok!(v, Role::ConstructionManager, ".CONSTRUCTIONMANAGER.");
    tok!(v, Role::FieldConstructionManager, ".FIELDCONSTRUCTIONMANAGER.");
    tok!(v, Role::Reseller, ".RESELLER.");
    tok!(v, Role::UserDefined, ".USERDEFINED.");
    tok!(v, ChangeAction::NoChange, ".NOCHANGE.");
    tok!(v, ChangeAction::Modified, ".MODIFIED.");
    tok!(v, ChangeAction::Added, ".ADDED.");
    tok!(v, ChangeAction::Deleted, ".DELETED.");
    tok!(v, ChangeAction::ModifiedAdded, ".MODIFIEDADDED.");
    tok!(v, ChangeAction::ModifiedDeleted, ".MODIFIEDDELETED.");
    tok!(v, DoorOperationTypeEnum::SingleSwingLeft, ".SINGLE_SWING_LEFT.");
    tok!(v, DoorOperationTypeEnum::SingleSwingRight, ".SINGLE_SWING_RIGHT.");
    tok!(v, DoorOperationTypeEnum::DoubleDoorSingleSwing, ".DOUBLE_DOOR_SINGLE_SWING.");
    tok!(v, DoorOperationTypeEnum::DoubleSwingLeft, ".DOUBLE_SWING_LEFT.");
    tok!(v, DoorOperationTypeEnum::DoubleSwingRight, ".DOUBLE_SWING_RIGHT.");
    tok!(v, DoorOperationTypeEnum::DoubleDoorDoubleSwing, ".DOUBLE_DOOR_DOUBLE_SWING.");
    tok!(v, DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeLeft, ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.");
    tok!(v, DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeRight, ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.");
    tok!(v, DoorOperationTypeEnum::SlidingToLeft, ".SLIDING_TO_LEFT.");
    tok!(v, DoorOperationTypeEnum::SlidingToRight, ".SLIDING_TO_RIGHT.");
    tok!(v, DoorOperationTypeEnum::DoubleDoorSliding, ".DOUBLE_DOOR_SLIDING.");
    tok!(v, DoorOperationTypeEnum::FoldingToLeft, ".FOLDING_TO_LEFT.");
    tok!(v, DoorOperationTypeEnum::FoldingToRight, ".FOLDING_TO_RIGHT.");
    tok!(v, DoorOperationTypeEnum::DoubleDoorFolding, ".DOUBLE_DOOR_FOLDING.");
    tok!(v, DoorOperationTypeEnum::Revolving, ".REVOLVING.");
    tok!(v, DoorOperationTypeEnum::RollingUp, ".ROLLINGUP.");
    tok!(v, DoorOperationTypeEnum::SwingFixedLeft, ".SWING_FIXED_LEFT.");
    tok!(v, DoorOperationTypeEnum::SwingFixedRight, ".SWING_FIXED_RIGHT.");
    tok!(v, DoorOperationTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, DoorOperationTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, DoorTypeEnum::Door, ".DOOR.");
    tok!(v, DoorTypeEnum::Gate, ".GATE.");
    tok!(v, DoorTypeEnum::Trapdoor, ".TRAPDOOR.");
    tok!(v, DoorTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, DoorTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, OpeningElementTypeEnum::Opening, ".OPENING.");
    tok!(v, OpeningElementTypeEnum::Recess, ".RECESS.");
    tok!(v, OpeningElementTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, OpeningElementTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, RoofTypeEnum::FlatRoof, ".FLAT_ROOF.");
    tok!(v, RoofTypeEnum::ShedRoof, ".SHED_ROOF.");
    tok!(v, RoofTypeEnum::GableRoof, ".GABLE_ROOF.");
    tok!(v, RoofTypeEnum::HipRoof, ".HIP_ROOF.");
    tok!(v, RoofTypeEnum::HippedGableRoof, ".HIPPED_GABLE_ROOF.");
    tok!(v, RoofTypeEnum::GambrelRoof, ".GAMBREL_ROOF.");
    tok!(v, RoofTypeEnum::MansardRoof, ".MANSARD_ROOF.");
    tok!(v, RoofTypeEnum::BarrelRoof, ".BARREL_ROOF.");
    tok!(v, RoofTypeEnum::RainbowRoof, ".RAINBOW_ROOF.");
    tok!(v, RoofTypeEnum::ButterflyRoof, ".BUTTERFLY_ROOF.");
    tok!(v, RoofTypeEnum::PavilionRoof, ".PAVILION_ROOF.");
    tok!(v, RoofTypeEnum::DomeRoof, ".DOME_ROOF.");
    tok!(v, RoofTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, RoofTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, ShadingDeviceTypeEnum::Awning, ".AWNING.");
    tok!(v, ShadingDeviceTypeEnum::Parking, ".JALOUSIE.");
    tok!(v, ShadingDeviceTypeEnum::Shutter, ".SHUTTER.");
    tok!(v, ShadingDeviceTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, ShadingDeviceTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, CompositionTypeEnum::Comples, ".COMPLEX.");
    tok!(v, CompositionTypeEnum::Element, ".ELEMENT.");
    tok!(v, CompositionTypeEnum::Partial, ".PARTIAL.");
    tok!(v, SlabTypeEnum::Floor, ".FLOOR.");
    tok!(v, SlabTypeEnum::Roof, ".ROOF.");
    tok!(v, SlabTypeEnum::Landing, ".LANDING.");
    tok!(v, SlabTypeEnum::BaseSlab, ".BASESLAB.");
    tok!(v, SlabTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, SlabTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, SpaceTypeEnum::Space, ".SPACE.");
    tok!(v, SpaceTypeEnum::Parking, ".PARKING.");
    tok!(v, SpaceTypeEnum::Gfa, ".GFA.");
    tok!(v, SpaceTypeEnum::Internal, ".INTERNAL.");
    tok!(v, SpaceTypeEnum::External, ".EXTERNAL.");
    tok!(v, SpaceTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, SpaceTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, WallTypeEnum::Movable, ".MOVABLE.");
    tok!(v, WallTypeEnum::Parapet, ".PARAPET.");
    tok!(v, WallTypeEnum::Partitioning, ".PARTITIONING.");
    tok!(v, WallTypeEnum::Plumbingwall, ".PLUMBINGWALL.");
    tok!(v, WallTypeEnum::Shear, ".SHEAR.");
    tok!(v, WallTypeEnum::Solidwall, ".SOLIDWALL.");
    tok!(v, WallTypeEnum::Standard, ".STANDARD.");
    tok!(v, WallTypeEnum::Polygonal, ".POLYGONAL.");
    tok!(v, WallTypeEnum::Elementedwall, ".ELEMENTEDWALL.");
    tok!(v, WallTypeEnum::Retainingwall, ".RETAININGWALL.");
    tok!(v, WallTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, WallTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, WindowPartitioningTypeEnum::SinglePanel, ".SINGLE_PANEL.");
    tok!(v, WindowPartitioningTypeEnum::DoublePanelVertical, ".DOUBLE_PANEL_VERTICAL.");
    tok!(v, WindowPartitioningTypeEnum::DoublePanelHorizontal, ".DOUBLE_PANEL_HORIZONTAL.");
    tok!(v, WindowPartitioningTypeEnum::TriplePanelVertical, ".TRIPLE_PANEL_VERTICAL.");
    tok!(v, WindowPartitioningTypeEnum::TriplePanelHorizontal, ".TRIPLE_PANEL_HORIZONTAL.");
    tok!(v, WindowPartitioningTypeEnum::TriplePanelBottom, ".TRIPLE_PANEL_BOTTOM.");
    tok!(v, WindowPartitioningTypeEnum::TriplePanelTop, ".TRIPLE_PANEL_TOP.");
    tok!(v, WindowPartitioningTypeEnum::TriplePanelLeft, ".TRIPLE_PANEL_LEFT.");
    tok!(v, WindowPartitioningTypeEnum::TriplePanelRight, ".TRIPLE_PANEL_RIGHT.");
    tok!(v, WindowPartitioningTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, WindowPartitioningTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, WindowTypeEnum::Window, ".WINDOW.");
    tok!(v, WindowTypeEnum::Skylight, ".SKYLIGHT.");
    tok!(v, WindowTypeEnum::Lightdome, ".LIGHTDOME.");
    tok!(v, WindowTypeEnum::UserDefined, ".USERDEFINED.");
    tok!(v, WindowTypeEnum::NotDefined, ".NOTDEFINED.");
    tok!(v, DerivedUnitEnum::ANGULARVELOCITYUNIT, ".ANGULARVELOCITYUNIT.");
    tok!(v, DerivedUnitEnum::AREADENSITYUNIT, ".AREADENSITYUNIT.");
    tok!(v, DerivedUnitEnum::COMPOUNDPLANEANGLEUNIT, ".COMPOUNDPLANEANGLEUNIT.");
    tok!(v, DerivedUnitEnum::DYNAMICVISCOSITYUNIT, ".DYNAMICVISCOSITYUNIT.");
    tok!(v, DerivedUnitEnum::HEATFLUXDENSITYUNIT, ".HEATFLUXDENSITYUNIT.");
    tok!(v, DerivedUnitEnum::INTEGERCOUNTRATEUNIT, ".INTEGERCOUNTRATEUNIT.");
    tok!(v, DerivedUnitEnum::ISOTHERMALMOISTURECAPACITYUNIT, ".ISOTHERMALMOISTURECAPACITYUNIT.");
    tok!(v, DerivedUnitEnum::KINEMATICVISCOSITYUNIT, ".KINEMATICVISCOSITYUNIT.");
    tok!(v, DerivedUnitEnum::LINEARVELOCITYUNIT, ".LINEARVELOCITYUNIT.");
    tok!(v, DerivedUnitEnum::MASSDENSITYUNIT, ".MASSDENSITYUNIT.");
    tok!(v, DerivedUnitEnum::MASSFLOWRATEUNIT, ".MASSFLOWRATEUNIT.");
    tok!(v, DerivedUnitEnum::MOISTUREDIFFUSIVITYUNIT, ".MOISTUREDIFFUSIVITYUNIT.");
    tok!(v, DerivedUnitEnum::MOLECULARWEIGHTUNIT, ".MOLECULARWEIGHTUNIT.");
    tok!(v, DerivedUnitEnum::SPECIFICHEATCAPACITYUNIT, ".SPECIFICHEATCAPACITYUNIT.");
    tok!(v, DerivedUnitEnum::THERMALADMITTANCEUNIT, ".THERMALADMITTANCEUNIT.");
    tok!(v, DerivedUnitEnum::THERMALCONDUCTANCEUNIT, ".THERMALCONDUCTANCEUNIT.");
    tok!(v, DerivedUnitEnum::THERMALRESISTANCEUNIT, ".THERMALRESISTANCEUNIT.");
    tok!(v, DerivedUnitEnum::THERMALTRANSMITTANCEUNIT, ".THERMALTRANSMITTANCEUNIT.");
    tok!(v, DerivedUnitEnum::VAPORPERMEABILITYUNIT, ".VAPORPERMEABILITYUNIT.");
    tok!(v, DerivedUnitEnum::VOLUMETRICFLOWRATEUNIT, ".VOLUMETRICFLOWRATEUNIT.");
    tok!(v, DerivedUnitEnum::ROTATIONALFREQUENCYUNIT, ".ROTATIONALFREQUENCYUNIT.");
    tok!(v, DerivedUnitEnum::TORQUEUNIT, ".TORQUEUNIT.");
    tok!(v, DerivedUnitEnum::MOMENTOFINERTIAUNIT, ".MOMENTOFINERTIAUNIT.");
    tok!(v, DerivedUnitEnum::LINEARMOMENTUNIT, ".LINEARMOMENTUNIT.");
    tok!(v, DerivedUnitEnum::LINEARFORCEUNIT, ".LINEARFORCEUNIT.");
    tok!(v, DerivedUnitEnum::PLANARFORCEUNIT, ".PLANARFORCEUNIT.");
    tok!(v, DerivedUnitEnum::MODULUSOFELASTICITYUNIT, ".MODULUSOFELASTICITYUNIT.");
    tok!(v, DerivedUnitEnum::SHEARMODULUSUNIT, ".SHEARMODULUSUNIT.");
    tok!(v, DerivedUnitEnum::LINEARSTIFFNESSUNIT, ".LINEARSTIFFNESSUNIT.");
    tok!(v, DerivedUnitEnum::ROTATIONALSTIFFNESSUNIT, ".ROTATIONALSTIFFNESSUNIT.");
    tok!(v, DerivedUnitEnum::MODULUSOFSUBGRADEREACTIONUNIT, ".MODULUSOFSUBGRADEREACTIONUNIT.");
    tok!(v, DerivedUnitEnum::ACCELERATIONUNIT, ".ACCELERATIONUNIT.");
    tok!(v, DerivedUnitEnum::CURVATUREUNIT, ".CURVATUREUNIT.");
    tok!(v, DerivedUnitEnum::IONCONCENTRATIONUNIT, ".IONCONCENTRATIONUNIT.");
    tok!(v, DerivedUnitEnum::LUMINOUSINTENSITYDISTRIBUTIONUNIT, ".LUMINOUSINTENSITYDISTRIBUTIONUNIT.");
    tok!(v, DerivedUnitEnum::MASSPERLENGTHUNIT, ".MASSPERLENGTHUNIT.");
    tok!(v, DerivedUnitEnum::MODULUSOFLINEARSUBGRADEREACTIONUNIT, ".MODULUSOFLINEARSUBGRADEREACTIONUNIT.");
    tok!(v, DerivedUnitEnum::MODULUSOFROTATIONALSUBGRADEREACTIONUNIT, ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.");
    tok!(v, DerivedUnitEnum::PHUNIT, ".PHUNIT.");
    tok!(v, DerivedUnitEnum::ROTATIONALMASSUNIT, ".ROTATIONALMASSUNIT.");
    tok!(v, DerivedUnitEnum::SECTIONAREAINTEGRALUNIT, ".SECTIONAREAINTEGRALUNIT.");
    tok!(v, DerivedUnitEnum::SECTIONMODULUSUNIT, ".SECTIONMODULUSUNIT.");
    tok!(v, DerivedUnitEnum::SOUNDPOWERLEVELUNIT, ".SOUNDPOWERLEVELUNIT.");
    tok!(v, DerivedUnitEnum::SOUNDPOWERUNIT, ".SOUNDPOWERUNIT.");
    tok!(v, DerivedUnitEnum::SOUNDPRESSURELEVELUNIT, ".SOUNDPRESSURELEVELUNIT.");
    tok!(v, DerivedUnitEnum::SOUNDPRESSUREUNIT, ".SOUNDPRESSUREUNIT.");
    tok!(v, DerivedUnitEnum::TEMPERATUREGRADIENTUNIT, ".TEMPERATUREGRADIENTUNIT.");
    tok!(v, DerivedUnitEnum::TEMPERATURERATEOFCHANGEUNIT, ".TEMPERATURERATEOFCHANGEUNIT.");
    tok!(v, DerivedUnitEnum::THERMALEXPANSIONCOEFFICIENTUNIT, ".THERMALEXPANSIONCOEFFICIENTUNIT.");
    tok!(v, DerivedUnitEnum::WARPINGCONSTANTUNIT, ".WARPINGCONSTANTUNIT.");
    tok!(v, DerivedUnitEnum::WARPINGMOMENTUNIT, ".WARPINGMOMENTUNIT.");
    tok!(v, DerivedUnitEnum::USERDEFINED, ".USERDEFINED.");
    tok!(v, IfcUnitName::Ampere, ".AMPERE.");
    tok!(v, IfcUnitName::Becquerel, ".BECQUEREL.");
    tok!(v, IfcUnitName::Candela, ".CANDELA.");
    tok!(v, IfcUnitName::Couloumb, ".COULOMB.");
    tok!(v, IfcUnitName::CubicMetre, ".CUBIC_METRE.");
    tok!(v, IfcUnitName::DegreeCelcius, ".DEGREE_CELSIUS.");
    tok!(v, IfcUnitName::Farad, ".FARAD.");
    tok!(v, IfcUnitName::Gram, ".GRAM.");
    tok!(v, IfcUnitName::Gray, ".GRAY.");
    tok!(v, IfcUnitName::Henry, ".HENRY.");
    tok!(v, IfcUnitName::Hertz, ".HERTZ.");
    tok!(v, IfcUnitName::Joule, ".JOULE.");
    tok!(v, IfcUnitName::Kelvin, ".KELVIN.");
    tok!(v, IfcUnitName::Lumen, ".LUMEN.");
    tok!(v, IfcUnitName::Lux, ".LUX.");
    tok!(v, IfcUnitName::Metre, ".METRE.");
    tok!(v, IfcUnitName::Mole, ".MOLE.");
    tok!(v, IfcUnitName::Newton, ".NEWTON.");
    tok!(v, IfcUnitName::Ohm, ".OHM.");
    tok!(v, IfcUnitName::Pascal, ".PASCAL.");
    tok!(v, IfcUnitName::Radian, ".RADIAN.");
    tok!(v, IfcUnitName::Second, ".SECOND.");
    tok!(v, IfcUnitName::Siemens, ".SIEMENS.");
    tok!(v, IfcUnitName::Sievert, ".SIEVERT.");
    tok!(v, IfcUnitName::SquareMetre, ".SQUARE_METRE.");
    tok!(v, IfcUnitName::Steradian, ".STERADIAN.");
    tok!(v, IfcUnitName::Tesla, ".TESLA.");
    tok!(v, IfcUnitName::Volt, ".VOLT.");
    tok!(v, IfcUnitName::Watt, ".WATT.");
    tok!(v, IfcUnitName::Weber, ".WEBER.");
    tok!(v, IfcPrefix::Exa, ".EXA.");
    tok!(v, IfcPrefix::Peta, ".PETA.");
    tok!(v, IfcPrefix::Tera, ".TERA.");
    tok!(v, IfcPrefix::Giga, ".GIGA.");
    tok!(v, IfcPrefix::Mega, ".MEGA.");
    tok!(v, IfcPrefix::Kilo, ".KILO.");
    tok!(v, IfcPrefix::Deca, ".DECA.");
    tok!(v, IfcPrefix::Deci, ".DECI.");
    tok!(v, IfcPrefix::Centi, ".CENTI.");
    tok!(v, IfcPrefix::Milli, ".MILLI.");
    tok!(v, IfcPrefix::Micro, ".MICRO.");
    tok!(v, IfcPrefix::Nano, ".NANO.");
    tok!(v, IfcPrefix::Pico, ".PICO.");
    tok!(v, IfcPrefix::Femto, ".FEMTO.");
    tok!(v, IfcPrefix::Atto, ".ATTO.");
    tok!(v, IfcUnitEnum::AbsorbedDoseUnit, ".ABSORBEDDOSEUNIT.");
    tok!(v, IfcUnitEnum::AmountOfSubstanceUnit, ".AMOUNTOFSUBSTANCEUNIT.");
    tok!(v, IfcUnitEnum::AreaUnit, ".AREAUNIT.");
    tok!(v, IfcUnitEnum::DoseEquivalentUnit, ".DOSEEQUIVALENTUNIT.");
    tok!(v, IfcUnitEnum::ElectricCapacitanceUnit, ".ELECTRICCAPACITANCEUNIT.");
    tok!(v, IfcUnitEnum::ElectricChargeUnit, ".ELECTRICCHARGEUNIT.");
    tok!(v, IfcUnitEnum::ElectricConductanceUnit, ".ELECTRICCONDUCTANCEUNIT.");
    tok!(v, IfcUnitEnum::ElectricCurrentUnit, ".ELECTRICCURRENTUNIT.");
    tok!(v, IfcUnitEnum::ElectricResistanceUnit, ".ELECTRICRESISTANCEUNIT.");
    tok!(v, IfcUnitEnum::ElectricVoltageUnit, ".ELECTRICVOLTAGEUNIT.");
    tok!(v, IfcUnitEnum::EnergyUnit, ".ENERGYUNIT.");
    tok!(v, IfcUnitEnum::ForceUnit, ".FORCEUNIT.");
    tok!(v, IfcUnitEnum::IlluminanceUnit, ".ILLUMINANCEUNIT.");
    tok!(v, IfcUnitEnum::InductanceUnit, ".INDUCTANCEUNIT.");
    tok!(v, IfcUnitEnum::LengthUnit, ".LENGTHUNIT.");
    tok!(v, IfcUnitEnum::LuminousFluxUnit, ".LUMINOUSFLUXUNIT.");
    tok!(v, IfcUnitEnum::LuminousIntensityUnit, ".LUMINOUSINTENSITYUNIT.");
    tok!(v, IfcUnitEnum::MagneticFluxDensityUnit, ".MAGNETICFLUXDENSITYUNIT.");
    tok!(v, IfcUnitEnum::MagneticFluxUnit, ".MAGNETICFLUXUNIT.");
    tok!(v, IfcUnitEnum::MassUnit, ".MASSUNIT.");
    tok!(v, IfcUnitEnum::PlaneAngleUnit, ".PLANEANGLEUNIT.");
    tok!(v, IfcUnitEnum::PowerUnit, ".POWERUNIT.");
    tok!(v, IfcUnitEnum::PressureUnit, ".PRESSUREUNIT.");
    tok!(v, IfcUnitEnum::RadioActivityUnit, ".RADIOACTIVITYUNIT.");
    tok!(v, IfcUnitEnum::SolidAngleUnit, ".SOLIDANGLEUNIT.");
    tok!(v, IfcUnitEnum::ThermoDynamicTemperatureUnit, ".THERMODYNAMICTEMPERATUREUNIT.");
    tok!(v, IfcUnitEnum::TimeUnit, ".TIMEUNIT.");
    tok!(v, IfcUnitEnum::VolumeUnit, ".VOLUMEUNIT.");
    tok!(v, IfcUnitEnum::UserDefined, ".USERDEFINED.");
    v
}
