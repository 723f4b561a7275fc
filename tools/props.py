"""What decides each property."""
import re

import provers
from provers import grammar, modb, only_eats, no_eats
from kani_guid import kani

NUMBERS = {"IntegerPrimitive", "RealPrimitive", "RealValue", "ThermalTransmittanceValue", "IfcDVec2", "IfcDVec3"}
TEXTS = {"StringPrimitive", "IdentifierValue", "LabelValue"}
FILE = {"DataMap", "IFC", "any_rt"}
HEAD = {"Header", "Footer"}


def dispatch(n, em):
    return n in ("AnyIfc", "Dummy") or n.startswith(("n_", "d_"))


def is_enum(n, em):
    return re.sub("^form_", "", n) in provers.baseline()["kinds"]["enums"]


def guid(n, em):
    return n == "IfcGloballyUniqueId"


def numbers(n, em):
    return re.sub("^form_", "", n) in NUMBERS


def texts(n, em):
    return re.sub("^form_", "", n) in TEXTS


def entities(n, em):
    return not (dispatch(n, em) or is_enum(n, em) or guid(n, em) or numbers(n, em) or texts(n, em) or n.startswith("any_") or re.sub("^form_", "", n) in FILE | HEAD)


def model(n, em):
    return re.sub("^form_", "", n) in FILE | {"Id", "space"}


def head(n, em):
    return re.sub("^form_", "", n) in HEAD


def header(n, em):
    return n == "Header"


def quoted(n):
    return n.endswith("_quoted")


def every(n, em):
    return True


TRUST = [
    "the extraction (tools/extract: syn; tools/gram.py: partial evaluation of the parser combinators and of write! into text functions)",
    "winnow 0.6 combinators behave as their definitions in verus/prelude.rs (literal, take_while, take_till, separated, repeat, opt, alt, delimited, preceded, terminated, tuples, map, try_map, verify, rest-of-input positions)",
    "verus 0.2026.09.13, its vstd, rustc's front end, z3",
]
STD = ["std number formatting and parsing (ax_uint, ax_int, ax_dec, ax_num_len, ax_f_dec, ax_f_sci, ax_f_first, ax_real)", "chrono: from_timestamp/timestamp (ax_dt)", "char classes (ax_alnum, ax_trim, ax_uspace)"]
MIR = [
    "rustc: its MIR (-Zunpretty=mir, no optimisation) is the program; tools/mir.py reads it, tools/symex.py executes it symbolically into spec functions",
    "the std containers and iterators behave as modelled in tools/symstd.py (Vec, BTreeMap with number keys, Option, Result, Iterator adaptors as sequence functions)",
    "verus 0.2026.09.13, its vstd, z3",
]
MIRA = ["downcast_rs and Any: a value of a type is recognised as that type and no other (kind)", "numbers of objects are mathematical integers in the range of usize; overflow checks are obligations"]
INPUTS = "a text or value is non-trivial when the real code accepted or printed it and it differs from all earlier ones of the run"

PROPS = {
    "C01": dict(provers=[grammar(guid, no_eats), kani()], level="proof", trusted=TRUST + STD, assumptions=["uuid::Uuid::from_bytes and into_bytes are inverse (ax_uuid)"], rule=INPUTS),
    "C02": dict(provers=[grammar(entities, no_eats)], level="proof", trusted=TRUST + STD, assumptions=[], rule=INPUTS),
    "C03": dict(provers=[grammar(dispatch, no_eats)], level="proof", trusted=TRUST + STD, assumptions=[], rule=INPUTS),
    "C04": dict(provers=[grammar(model, no_eats)], level="proof", trusted=TRUST + STD, assumptions=["a BTreeMap is the ascending sequence of its entries and collecting inserts them one by one (Id's derived order is that of its number)"], rule=INPUTS),
    "C05": dict(provers=[grammar(head, no_eats)], level="proof", trusted=TRUST + STD, assumptions=["chrono prints and reads whole seconds of the years 0 to 9999 in the form %Y-%m-%dT%H:%M:%S (ax_dt)"], rule=INPUTS),
    "C06": dict(provers=[grammar(texts, no_eats), grammar(header, quoted)], level="proof", trusted=TRUST + STD, assumptions=[], rule=INPUTS),
    "C07": dict(provers=[grammar(numbers, no_eats)], level="proof", trusted=TRUST + STD, assumptions=[], rule=INPUTS),
    "C08": dict(provers=[grammar(is_enum, no_eats)], level="proof", trusted=TRUST + STD, assumptions=[], rule=INPUTS),
    "C10": dict(provers=[grammar(every, only_eats), kani(("decode",))], level="proof", trusted=TRUST + STD, assumptions=[], rule=INPUTS),
    "C09": dict(provers=[modb("refs")], level="proof", trusted=MIR + ["winnow's Parser::parse: a text has one outcome (parsed_IFC); the Any table (vtable) leads to the method of the object's own type"], assumptions=MIRA, rule="a drawn model differs from all earlier ones of the run"),
    "C11": dict(provers=[modb("store")], level="proof", trusted=MIR, assumptions=MIRA, rule="a history of operations differs from all earlier ones of the run"),
    "C12": dict(provers=[modb("build")], level="proof", trusted=MIR, assumptions=MIRA + ["numbers of objects don't run out (usize)", "StringPrimitive's decoding, IfcGloballyUniqueId::new_v4 and IfcTimestamp::now return some value (see C01, C06, C10)", "a HashMap or HashSet lists its elements in any order"], rule="a drawn building differs from all earlier ones of the run"),
    "C14": dict(provers=[modb("links")], level="proof", trusted=MIR, assumptions=MIRA + ["numbers of objects don't run out (usize)", "StringPrimitive's decoding, IfcGloballyUniqueId::new_v4 and IfcTimestamp::now return some value (see C01, C06, C10)", "a HashMap or HashSet lists its elements in any order"], rule="a drawn building differs from all earlier ones of the run"),
    "C15": dict(provers=[modb("shape")], level="proof", trusted=MIR + ["double precision: x*0.5, 0.5*x and x/2 are the half of x; x*1 is x; x+0 is x up to the sign of a zero; a sum is that of the numbers in their order"], assumptions=MIRA + ["numbers of objects don't run out (usize)", "StringPrimitive's decoding, IfcGloballyUniqueId::new_v4 and IfcTimestamp::now return some value (see C01, C06, C10)", "a HashMap or HashSet lists its elements in any order", "normalising a vector is a function of it (glam)"], rule="a drawn building differs from all earlier ones of the run"),
    "C16": dict(provers=[modb("attrs")], level="proof", trusted=MIR, assumptions=MIRA + ["numbers of objects don't run out (usize)", "a text handed over as &str or String is taken as StringPrimitive::from decodes it (see C06)"], rule="a drawn call differs from all earlier ones of the run"),
    "C17": dict(provers=[modb("mapped")], level="proof", trusted=MIR, assumptions=MIRA + ["the references which are followed designate objects of their attribute's kinds, polylines have points of one dimension and at least one"], rule="a drawn model differs from all earlier ones of the run"),
    "C18": dict(provers=[modb("moved")], level="proof", trusted=MIR, assumptions=MIRA + ["numbers of objects don't run out (usize)", "normalising a vector and subtracting vectors are functions of them (glam)"], rule="a drawn building differs from all earlier ones of the run"),
    "C13": dict(provers=[modb("extract")], level="proof", trusted=MIR, assumptions=MIRA, rule="a drawn model differs from all earlier ones of the run"),
}
