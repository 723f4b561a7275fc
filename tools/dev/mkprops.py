import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
S="ifc_rs/src/"
p("C01","Global identifiers are compressed and read back without loss",
 "Every 128-bit global identifier is written, in quotes, as the 22-character compressed form that buildingSMART defines (two base-64 digits for the first byte, four for each further three bytes), and reading that text gives the same identifier back. Distinct identifiers therefore have distinct texts, and a quoted text which isn't 22 characters of that alphabet is rejected.",
 ["inputs"],"all 2^128 identifiers; all texts",
 "the tests convert one identifier each way; the quantifier is over 2^128 values and every bit position of each byte group matters",
 [S+"id/ifc_uuid.rs"],[("base 64 encoding and decoding of the byte groups","encode_base16_to_base64, decode_base16_to_base64"),("the quoted 22-character text","impl IFCParse / Display for IfcGloballyUniqueId")])
p("C02","Every supported entity round trips through its STEP text",
 "Printing any value of a supported entity type gives its IFC keyword and its attributes in the order of the IFC schema, and reading the printed text gives the same value back: every attribute in its place, omitted ones as omitted, derived ones as derived, lists with the same elements in the same order. (Texts without backslashes, finite numbers and dates that exist.)",
 ["inputs"],"all values of the 75 supported entity types and of the attribute types they are made of",
 "the tests read one line of most entities and print it again; they can't try all combinations of omitted, present and list-valued attributes, and entities without a test aren't touched at all",
 [S+"parser/mod.rs",S+"parser/optional.rs",S+"parser/list.rs",S+"objects/",S+"relations/",S+"geometry/",S+"units/",S+"materials/",S+"properties/",S+"values/"],
 [("one parser and one Display per entity","impl IFCParse / impl Display"),("the shared attribute types","OptionalParameter, IfcList, IdOr, Inherited, Omitted"),("the shared attribute groups","Root, Object, Product, Element, TypeObject, ...")])
p("C03","A line becomes the entity its keyword names; unknown lines are kept verbatim",
 "Each line of a data section is read as the entity type which its keyword names, whichever supported keywords are prefixes of one another. A line with an unsupported keyword is kept and printed character by character as it was, also when it has semicolons or brackets within quoted texts or comments.",
 ["inputs"],"all printed values of the supported entity types and all texts of unsupported ones",
 "the order of 76 alternatives decides which parser sees a line first, and tests sample single lines; unsupported lines are tested with one trivial text",
 [S+"meta/datamap/deserialize.rs",S+"parser/dummy.rs",S+"objects/mod.rs"],[("the list of alternatives","impl IFCParse for DataMap"),("the catch-all object","impl IFCParse for Dummy")])
p("C04","A whole model is written and read back with the same objects under the same ids",
 "Printing a model gives its header, a DATA section with one line '#id= object' per object in ascending order of the ids, and the footer. Reading that text gives a model with the same header and with exactly the same objects under the same ids: none is lost, merged, renumbered or attached to another id. This holds for any number of objects (none included) and with gaps between the ids.",
 ["inputs"],"all models of supported and unsupported objects",
 "the tests read one example file; they don't compare all objects, and empty sections, gaps and large ids don't occur in it",
 [S+"lib.rs",S+"meta/datamap/",S+"meta/footer/",S+"id/plain.rs"],[("the data section","impl IFCParse / Display for DataMap"),("the whole file","impl IFCParse / Display for IFC"),("ids","impl IFCParse / Display for Id")])
p("C05","The file header is written and read back without loss",
 "Printing a header and reading it gives the same description items, view definitions, implementation level, file name, time stamp, authors, organizations, versions, originating system, authorization and schemas: for texts with quotes in them, for lists of any length, for empty texts, and for time stamps of whole seconds in the years 0 to 9999. The written form is that of ISO 10303-21 (FILE_DESCRIPTION, FILE_NAME, FILE_SCHEMA in this order).",
 ["inputs"],"all headers (view definitions: names of letters, digits and _-.: with trimmed, non-empty items without comma and closing bracket)",
 "the tests read a handful of headers with mostly empty fields; quotes in names, several authors or several view definitions aren't among them",
 [S+"meta/header/",S+"meta/footer/"],[("the header's three records","impl IFCParse / Display for Header"),("texts in quotes","escape_quotes / quoted texts"),("time stamps","IfcTimestamp")])
p("C06","Texts are stored, printed and read back unchanged",
 "A text attribute holds the text it was given; it is printed in quotes with umlauts, sharp s and quotes as \\X2\\....\\X0\\ codes and all other characters as they are, so the quotes around it are the only ones. Reading the printed text gives the same text back (for texts without backslashes). Texts of the file header come back unchanged as well, with quotes written twice.",
 ["inputs"],"all texts (for the data section: without backslashes)",
 "the tests print one text with umlauts; the quantifier is over all texts, in particular those which interfere with the codes and with the quotes",
 [S+"parser/string.rs",S+"meta/header/"],[("the chain of replacements","StringPrimitive: From, Display, IFCParse"),("header texts","FileDescription, FileName")])
p("C07","Numbers are written as STEP numbers and read back with their value",
 "A real is written as a STEP real (digits, a decimal point, optionally more digits and an exponent with an upper case E) and reading that text gives the number rounded to the 15 significant digits which are written. An integer is written as its decimal digits and read back exactly.",
 ["inputs"],"all finite reals, all integers",
 "the tests print a handful of round numbers; very large, very small, negative and many-digit numbers take other paths",
 [S+"parser/real.rs",S+"parser/integer.rs",S+"parser/geometry.rs",S+"values/"],[("Display of reals","RealPrimitive, IfcDVec2, IfcDVec3"),("integers","IntegerPrimitive")])
p("C08","Enumeration values have the tokens of the IFC schema, one to one",
 "Every value of every enumeration is printed as the token the IFC schema defines for it and that token is read as this value and no other. A token which the enumeration doesn't define is rejected.",
 ["inputs"],"all values of the 26 enumerations, all tokens",
 "the tests use one or two values of an enumeration; a wrong or swapped token of the others goes unnoticed, also when printing and reading agree on it",
 [S+"units/",S+"objects/",S+"geometry/",S+"materials/",S+"meta/","ifc_rs_verify_derive/src/"],[("the tokens","Display and IFCParse of each enumeration, derive macros included")])
p("C09","A model is loaded exactly when its references are intact",
 "Loading a text that reads as a model succeeds if and only if every reference whose attribute declares which kinds of object it may designate leads to an object of the model that is of one of these kinds (or of an unsupported kind, kept verbatim): through omitted, optional and list-valued attributes, typed references, and attribute groups inherited by an entity. A missing object or one of another kind makes loading fail; it never panics. The loaded model is the one that was read.",
 ["inputs"],"all models, all declared references of the supported entity types, all positions in lists",
 "the tests load two or three broken references of single types; a reference that isn't looked at, or a kind too many or too few, shows only with that very attribute",
 [S+"lib.rs",S+"traits/ifc_type.rs","ifc_rs_verify_derive/src/",S+"meta/datamap/mod.rs"],[("loading","FromStr for IFC"),("the derived checks","derive(IfcVerify): verify_id_types, check_* of each entity"),("declared kinds","#[ifc_types], TypedId, IdOr")])
p("C10","No text makes the parser panic",
 "Reading any text - as a model, a data section, a header, or a single entity, attribute or identifier - ends with a value or an error. It never panics and never loops forever.",
 ["inputs"],"all texts",
 "the tests read well-formed files; out-of-range numbers, dangling references, unfinished comments and repetitions that consume nothing are in no test",
 [S+"parser/",S+"lib.rs",S+"id/",S+"meta/"],[("the parsers of all types","impl IFCParse"),("conversions","IfcTimestamp, IfcGloballyUniqueId, numbers"),("verification of references","IFC::from_str")])
p("C11","The object store keeps objects and their numbers as told",
 "A new object gets a number above all numbers in use (1 in an empty store) and is stored under it; nothing else changes. Inserting under a given number stores the object there and returns the one it replaces; inserting if absent never replaces; removing returns and removes exactly that object. An object is returned, typed or untyped, exactly as stored and only under its number and type; changing it through the store changes nothing else. All objects of a type are listed exactly once, in ascending order of their numbers, and no others.",
 ["inputs","histories"],"all stores, all operations, hence all histories of operations",
 "the tests build a few small models; deleted, overwritten, out-of-order or very large numbers, and the same number under several types, aren't among them",
 [S+"meta/datamap/mod.rs",S+"id/"],[("the operations","impl DataMap: insert_new, insert, insert_if_not_exists, remove, get, get_untyped, try_get_untyped, get_mut, contains, find_all_of_type, id_of, From")])
p("C12","Building yields models which are intact",
 "Every function of the builders, and every constructor and setter of an entity or relation which stores objects in the model, keeps the model intact: given a model in which every reference designates an existing object of a kind its attribute admits, and arguments which are numbers of objects of that model (of the kind the argument's type names), or objects which refer to such, the resulting model is intact again, the returned builders, objects and numbers are valid in it, and every earlier object is still there under its number with its kind. So every model made through the API can be saved and loaded again. No such call panics, except where it is documented in the code: openings and windows in walls and slabs which have no material layers, and lists which are inherited.",
 ["inputs","histories"],"all models, all arguments, hence all histories of building calls; loops over any number of elements, in any order of the builders' hash maps",
 "the tests build a handful of models with one to four elements; a reference of the wrong kind or to a missing object appears only with the particular combination of calls (given numbers instead of new objects, several types, drop order)",
 [S+"ifc_builder/",S+"objects/",S+"relations/",S+"materials/",S+"geometry/",S+"transform/",S+"traits/relative_placement.rs",S+"id/id_or.rs"],[("the builders","impl IfcProjectBuilder, IfcSiteBuilder, IfcBuildingBuilder, IfcStoreyBuilder, IfcWallBuilder, IfcSlabBuilder, IfcPropertySetBuilder, ... and their Drop"),("constructors and setters","functions with an argument `ifc: &mut IFC`"),("IdOr::or_insert","an object or its number")])
p("C13","Queries return exactly the related objects",
 "The extractor's queries return exactly the objects which the relations of the model name: projects, the parts of a whole by type (relations_of), the elements of a spatial structure, the type of an element, its openings, its material layers and constituents; all of them, in the order of the relations and of their lists, none for other objects, and without panic on a model whose references are intact.",
 ["inputs"],"all models, all numbers, all combinations of types",
 "the tests and the example query one model with one relation of each kind; several relations of the same kind, unrelated elements and mixed kinds of related objects decide the result",
 [S+"ifc_extractor/mod.rs"],[("the queries","impl IfcExtractor, impl TypeRelation for IfcExtractor")])
p("C14","A built model relates exactly what was built",
 "In a model made with the builders the relations are exactly those the calls ask for. An element is contained in its storey, a space is part of its storey, storeys, buildings and sites are parts of their building, site and project; an element or space has the type it was made with, an element or element type the material it was made with, an opening voids its wall or slab, a window fills its opening, a property set belongs to the object it was made for. Each call which makes an object makes a new one and adds its own relations to the books of the builders, and nothing else; moving (transforming) objects and making types, materials and properties relates no elements; dropping a site's, building's or storey's builder moves exactly what is on its books into the model, and so does build() for the project.",
 ["inputs","histories"],"all models, all arguments, hence all histories of building calls; any number of elements, in any order of the builders' hash maps; relations as sets of pairs",
 "the tests look at a handful of built models by eye or count objects; an element which is left out, filed under the wrong type, storey or material, or related twice over shows only with several elements, types and storeys at once",
 [S+"ifc_builder/",S+"relations/"],[("registering","the functions of IfcStoreyBuilder, IfcWallBuilder, IfcSlabBuilder which make elements; new_site, new_building, new_storey"),("closing","Drop of IfcSiteBuilder, IfcBuildingBuilder, IfcStoreyBuilder, property set builders; IfcProjectBuilder::build")])
p("C15","Built elements are where and what the calls ask for",
 "An element made with the builders has in the resulting model exactly the place, the body and the name the call asks for. It is placed at the given coordinates (an arbitrary opening or window, and a window made together with its opening: at the origin), relative to the placement of its host: sites to nothing, buildings to the site, storeys to the building (at the given elevation), walls, slabs, roofs, spaces and shading devices to the storey, openings to their wall or slab, windows to their opening. Its body is an extrusion of the given outline (a polygon of the given points in order, for vertical walls upright in the x-z-plane) or of a rectangle of the given dimensions whose corner is the origin. The depth of the extrusion, or one dimension of the rectangle (rectangular walls, openings and windows in walls), is the given one or the thickness of the material: the sum over the layers of the layer set usage the element was made with, for openings and windows that of their wall or slab. The direction is the z axis, for polygons in the x-z-plane the y axis, or the given direction normalised. Roofs and shading devices given as objects are stored as given. No call which makes an element changes any other object of the model.",
 ["inputs","histories"],"all models, all arguments, any number of points and layers, every order of the builders' hash maps",
 "the tests compare printed text with its re-reading only and none looks at a coordinate; swapped dimensions, a wrong host, the thickness of another material, or a lost offset go unnoticed",
 [S+"ifc_builder/",S+"geometry/product_definition_shape/mod.rs",S+"traits/relative_placement.rs",S+"geometry/"],[("the functions which make elements","IfcStoreyBuilder::vertical_wall, arbitrary_wall, horizontal_arbitrary_slab, space, ...; IfcWallBuilder::vertical_opening, window_with_opening; IfcSlabBuilder::rect_opening, ...; new_site, new_building, new_storey"),("shapes","ProductDefinitionShape::new_*"),("placement","LocalPlacement::new_relative"),("thickness","calculate_material_layer_set_thickness")])
p("C16","Constructors and setters store exactly what they are given",
 "An object made with a constructor has each argument under the attribute of its name, its mandatory lists empty or as given and its other optional attributes omitted (those of a sub context: inherited); a setter (name, description, object_placement, owner_history, add_role, ...) changes exactly the attribute it is named after to the given value, an add_... or relate_... function appends the given value at the end of its list, and every other attribute keeps its value, whatever the object, the value and the order of calls. A value handed over as an object is stored as one new object of the model, unchanged, and the attribute refers to it; a value handed over as a number is referred to as it is; nothing else in the model changes. The owning user and application of an owner history are also the last modifying ones.",
 ["inputs","histories"],"all objects, all argument values, all models, all admissible type parameters",
 "the tests build a few objects with each attribute set at most once and rarely compare them attribute by attribute; a setter which stores its value next door, clears another attribute, replaces a list or swaps two arguments of one type goes unnoticed",
 [S+"traits/sub_types.rs",S+"objects/",S+"geometry/",S+"materials/",S+"relations/",S+"properties/"],[("setters of all objects","RootBuilder, ObjectBuilder, ProductBuilder, ElementBuilder, ContextBuilder, SpatialElementBuilder, TypeProductBuilder, ..."),("constructors and setters","the inherent functions of the entity types"),("by value or by number","IdOr::or_insert")])
p("C17","Reading geometry yields what the attributes designate",
 "The geometry which a model yields to its reader is exactly what its objects designate. The mapped form of an axis placement, a profile, an extruded solid, a mapped item and its transformation (mappings, AxisMappings::map_2d and map_3d), the points of a polyline, the items of a shape representation (all of them, and those of one type) and its context (or that of its sub context) and the shapes of a product hold the objects and the numbers which the attributes refer to, under the attribute of the same name, in the order of the lists, all of them, and nothing where an attribute is omitted; none of these panics. This holds in every model in which the references followed designate supported objects of the attribute's kind, polylines have points and all of one dimension, and a closed profile's outer curve is a polyline or an indexed poly curve; what an indexed poly curve's segments select isn't covered.",
 ["inputs"],"all models, all objects, lists of any length",
 "the tests have no assertion about mapped geometry but one for the wall example; a swapped axis, a list cut short, a dropped or doubled item or the wrong context shows only on objects with all attributes set, different from each other, and lists of several members",
 [S+"geometry/",S+"relations/mapped_item.rs",S+"objects/shared/product.rs"],[("mapped forms","impl IfcMappedType for ...; AxisMappings"),("items and context","ShapeRepresentation::items, items_of, parent_context"),("points","PolyLine::points"),("shapes","Product::shapes, direction, local_placement")])
p("C18","Moving an element keeps it and moves it exactly so",
 "Moving a built element changes where it is shown and nothing else. After IfcStoreyBuilder::transform(id, parameter), and after a wall or slab builder with .transform(parameter) is finished or dropped (for the element, each of its openings and the windows in them), the element's shape keeps its name, its description and the number and order of its representations. Each representation gives way to a new one in the sub context of the storey, with the identifier of the former one and the type MappedRepresentation, whose only item is a mapped item: its map shows the former representation, unchanged, from an origin without rotation, and its operator has the translation asked for, the three axes asked for at unit length, and the scales 1. The origin is zero and the translation is the parameter's, but for the openings of a moved wall or slab and their windows, where the origin is the place of the opening and the translation is less by it. Moving again maps the mapped one. An element without a shape is left as it is, as are all other objects.",
 ["inputs"],"all models, all elements, all parameters, shapes of any number of representations, repeated moves",
 "the tests build one example and compare no values; a move which loses or reorders a representation, mislabels it, mixes up axes, or leaves an opening behind shows only on shapes of several representations and with distinct axes, and for openings away from (or exactly at) the origin",
 [S+"ifc_builder/transforms.rs",S+"ifc_builder/walls.rs",S+"ifc_builder/slabs.rs",S+"ifc_builder/storey.rs"],[("moving","IfcStoreyBuilder::transform; Ifc{Wall,Slab}Builder::builder_transform"),("who is moved","Drop for IfcWallBuilder, IfcSlabBuilder")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
