B=" Where an obligation can't be generated or decided after a change (reported as UNDECIDED), runs of the real code stand in, labelled bounded."
NOTE={
"C01":"For all 2^128 identifiers: the canonical digits and the decoding (Kani, complete unwinding over fixed-size arguments), the quoted text, its reading and injectivity (Verus). Trusted: the extraction, winnow's combinators, uuid byte conversions."+B,
"C02":"For all values of all supported entity and attribute types: print-parse round trip and the frozen IFC layout, type by type, callers against the contracts of their attribute types. Trusted: the extraction, winnow's combinators, std number formatting, chrono."+B,
"C03":"For all values: each supported keyword is dispatched to its own type (75 distinctness and acceptance lemmas each), the catch-all object is read back verbatim. Trusted: the extraction, winnow's combinators."+B,
"C04":"For all models: header, ascending '#id= object' lines, footer and reading them back, by induction over the entries against the contracts of the objects. Trusted: the extraction, winnow's combinators, a BTreeMap as the ascending sequence of its entries."+B,
"C05":"For all headers of the stated domain: the written form and its reading. Trusted: the extraction, winnow's combinators, chrono's formatting of whole seconds."+B,
"C06":"For all texts without backslash: the written form (frozen code table) and its reading. Trusted: the extraction, str::replace as its recursive definition, winnow's combinators. Header texts: see C05."+B,
"C07":"For all numbers: reading the printed form. Trusted: std number formatting/parsing facts, stated as axioms."+B,
"C08":"For all values of all enumerations: frozen IFC token and read-back; one-to-one follows. Trusted: the extraction, winnow's combinators."+B,
"C09":"For all texts and models: loading succeeds exactly when the text is read and every declared reference designates a present object of an admissible kind, type by type against a frozen, reviewed table (tools/refs.json), over the derived code as rustc's MIR has it. Trusted: the MIR reader and symbolic executor, the models of std containers, dynamic dispatch to the object's own type. References whose attribute declares no kinds aren't checked by design."+B,
"C10":"For all texts: termination (decreasing text length), no repetition runs into winnow's assertion, partial operations in parsers are within their domain. Trusted: the extraction, winnow's combinators, no stack overflow, no arithmetic overflow outside the extracted code."+B,
"C11":"For all stores and numbers, operation by operation (a history is their composition), over the functions as rustc's MIR has them. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators."+B,
"C12":"One theorem per function and per admissible combination of type parameters, over the functions as rustc's MIR has them: validity follows the Rust types, loops by induction, steps of the store against the contract of DataMap::insert_new and id_of (proved for the real code as well). Openings: no statement about panics. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators."+B,
"C14":"One theorem per function of the builders, over the functions as rustc's MIR has them, on top of C12's: the relations of the resulting model and the books of the builders (as sets of related pairs) are exactly the former ones and those of the object made; loops by induction. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators."+B,
"C15":"One theorem per function which makes an element, over the functions as rustc's MIR has them: the objects reached from the element in the resulting model, down to its coordinates and numbers, and no other object changes; loops (layers, points) by induction. Not claimed: the direction of vertical slabs and of openings and windows in slabs other than horizontal ones; moving. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators, five facts about doubles."+B,
"C16":"One theorem per constructor and setter and per admissible combination of type parameters (358), over the functions as rustc's MIR has them: each attribute of the result is what the frozen table (tools/attrs.json) asks for -- the argument, what it was, nothing -- and the model is the former one plus the objects handed over by value. Left to C12: lists of objects stored one by one (polylines, unit assignments); partial placement relative to another object. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators."+B,
"C17":"One theorem per reading function (18) over the functions as rustc's MIR has them: the result equals the value of verus/mapped.rs -- the objects and numbers the attributes designate -- and the function doesn't panic, for all models where the references designate objects of their kinds. Loops and iterator chains by induction over the list. Doubles are uninterpreted (they are only copied). Not covered: segments of indexed poly curves, unsupported objects behind a reference (todo!/unwrap in the library). Trusted: the MIR reader and symbolic executor, the models of std containers, iterators and glam."+B,
"C18":"One theorem per transformation function and kind of element (13) over the functions as rustc's MIR has them: the model afterwards equals the one of verus/moved.rs, by induction over the shape's representations, for all models where the element's shape refers to representations. Which openings and windows of a wall or slab are moved, and by what (the loops in Drop), is decided by a BOUNDED replay only: random histories of builder calls with and without moves, printed and compared. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators."+B,
"C13":"For all models: each query's result equals an independent recursive definition over the ascending list of objects (induction), and no panic on models with intact references. Trusted: the MIR reader and symbolic executor, the models of std containers and iterators."+B,
}
