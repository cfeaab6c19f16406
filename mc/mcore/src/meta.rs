//! What the evidence file says about each check.

pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const MODEL: &str = "The reference models (mcore refser/refde/xml) state the documented meaning of types and documents; they are compared with the implementation on every case, so a case on which both are wrong in the same way is missed.";
const BOUNDS: &str = "Nothing is claimed beyond the enumerated types, values, documents and depths listed in `parts`.";
const OPEN: &str = "Cases on which the documentation leaves the result open are executed but not judged; they are counted in `left_open`.";

pub fn of(id: &str) -> Meta {
    let (level, rule): (&str, &str) = match id {
        "C01" => ("exploration", "One case is a value of one type: all values of all zoo types within the value bounds, all trees of up to 4 namespaced containers, all list lengths and depths. Each is serialized, read back and compared. Distinct by type and value."),
        "C02" => ("exploration", "One case is a value of one type, as for C01. Each is serialized; an independent namespace-aware parser must recover exactly the tree the reference serializer assigns to the value. Distinct by type and value."),
        "C03" => ("exploration", "One case is a document read as one type: every generated tree in every namespace spelling, plus every tree with one name or namespace changed; the result must equal that of the reference reader working on expanded names. Distinct by type and document."),
        "C04" => ("exploration", "One case is a piece of character data in an attribute or element; its value must equal that of an independent decoder. Distinct by position and text; non-trivial if it holds a reference, CDATA, comment or multi-byte character."),
        "C05" => ("exploration", "One case is a string or char value in one position; the output, parsed independently, must hold exactly that string. Distinct by position and value."),
        "C06" => ("exploration", "One case is a document and a target type: every prefix of every generated document, every token deletion, duplication, exchange and rename, every character deleted, doubled, exchanged and preceded or replaced by each of a set, every sequence of markup tokens up to a length. No document an independent parser calls ill-formed may give a value. Distinct by type and document."),
        "C07" => ("exploration", "One case is an input and a target type or a call script: all strings over the markup alphabet up to a length, all bounded edits, names and texts of every length and alignment, all depths and sizes listed. Each must return within 20 s without panic, abort or stack overflow. Distinct by type and input."),
        "C08" => ("exploration", "One case is a sequence of field occurrences, or of pieces of direct text and elements, read as one type, for every kind of field; result or error must equal the reference reader's. Distinct by type and document."),
        "C09" => ("exploration", "One case is a generated document with one or two insertions, or reordered, or otherwise equivalently spelled; it must give the same result as before. Distinct by type and document."),
        "C10" => ("exploration", "One case is a document with some count at, below or above a limit at some place, under some limit setting; it must be accepted exactly if it is within the limits. Distinct by type, document and setting."),
        "C11" => ("model_checking", "States are those of the reference serializer (open elements with their scopes, position within a start tag or content); transitions are public calls. Every call sequence up to the depth is executed on the real serializer and compared call by call: result, output written, lookups, and the parsed document at the end. Distinct by call sequence."),
        "C12" => ("model_checking", "States are positions of the reference cursor in a document; transitions are public calls. Every call script up to the depth over every document of the set is executed on the real deserializer and compared call by call. Distinct by document and script."),
        "C13" => ("fault_enumeration", "One case is a value, a writer and the number of the write that fails: every write of every value is made to fail once. Distinct by type, value and failing write."),
        "C14" => ("exploration", "One case is a document with an arbitrary element, captured as root or as a field; the capture must equal the independently parsed tree. Distinct by document and type."),
        "C15" => ("exploration", "One case is a text in one borrowing position; content and borrowed-or-owned must be as predicted, with borrowed slices inside the input. Distinct by type and document."),
        "C16" => ("exploration", "One case is a scalar type and a value or a text: all values of small types, boundary sets of large ones, all short texts over the lexical alphabet; written form, value read and rejection must equal those of an independent definition. Distinct by type, position and text."),
        "C17" => ("exploration", "One case is a generated type definition with a value or a document: every listed combination and order of options and every identifier shape; output and value read must equal those predicted from an independent reading of the options. Distinct by type and value or document."),
        "C18" => ("exploration", "One case is a generated document with a forbidden construct at one position, read as one type; it must be an error. Distinct by type and document."),
        "C19" => ("exploration", "One case is a document with an enum or transparent struct, read as one type, or a value of one, written: all variants, all near-miss texts and names, all sequences up to a length. Distinct by type and document."),
        "C20" => ("exploration", "One case is a value of one type, as for C01; the namespace declarations and prefixes of the output must be those the documented policy gives. Distinct by type and value."),
        "C21" => ("exploration", "One case is a type definition with options, given to the compiler: all subsets of the options up to a size on every kind of type, field and variant, all token sequences up to a length and all single slips in longer ones. It must be refused exactly if the rules leave it no meaning. Distinct by definition."),
        _ => ("exploration", ""),
    };
    let assumptions: &[&str] = match id {
        "C07" => &[BOUNDS, "A call that has not returned after 20 s of wall time counts as hanging.", "Stack use is judged with 8 MB per thread."],
        "C13" => &[BOUNDS, "Writers fail for good: once an error is returned, every later call would fail as well."],
        "C11" | "C12" => &[MODEL, BOUNDS],
        "C01" => &[BOUNDS],
        _ => &[MODEL, BOUNDS, OPEN],
    };
    Meta { level, rule, assumptions }
}
