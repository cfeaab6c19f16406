//! Words that documents use as names, prefixes, namespaces and texts: all short ones over a few
//! letters, common ones in several spellings, all lengths.

const COMMON: &[&str] = &[
    "a", "action", "address", "alt", "any", "anyType", "attr", "attribute", "attributes", "author", "base", "block", "body", "bool",
    "boolean", "br", "category", "cdata", "channel", "charset", "child", "children", "class", "code", "col", "color", "comment", "content",
    "count", "creation", "css", "data", "date", "dateTime", "def", "default", "description", "dir", "div", "doc", "doctype", "document",
    "element", "elem", "email", "encoding", "end", "entity", "entry", "enum", "envelope", "epp", "error", "event", "false", "feed", "field",
    "file", "fill", "first", "font", "footer", "form", "format", "from", "g", "group", "guid", "head", "header", "height", "host", "href", "html",
    "id", "ID", "IDREF", "idref", "image", "img", "include", "index", "info", "input", "int", "integer", "item", "items", "key", "kind", "label", "lang",
    "language", "last", "length", "li", "line", "link", "list", "local", "localName", "locale", "location", "math", "max", "meta", "method", "min",
    "mode", "msg", "name", "Name", "namespace", "nested", "next", "nil", "node", "none", "note", "ns", "ns0", "ns1", "null", "number", "object", "option",
    "order", "owner", "p", "param", "parent", "password", "path", "payload", "phone", "port", "prefix", "price", "property", "public", "q",
    "quantity", "query", "ref", "rel", "request", "resource", "response", "result", "root", "row", "rss", "schema", "schemaLocation",
    "script", "self", "Self", "set", "size", "soap", "source", "space", "span", "src", "start", "state", "status", "string", "struct",
    "style", "sub", "super", "svg", "system", "table", "tag", "target", "tbody", "td", "test", "text", "time", "timestamp", "title", "to",
    "token", "top", "total", "tr", "true", "type", "types", "uid", "unit", "uri", "url", "user", "uuid", "value", "values", "version",
    "width", "word", "x", "xhtml", "xi", "xlink", "xs", "xsd", "xsi", "xsl", "y", "zip",
];

/// All words; in the thorough tier also all of two letters and more forms of the common ones
pub fn words(quick: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    // All short ones over the letters of the names with a meaning in XML
    let letters = ["x", "m", "l", "n", "s"];
    let mut layer = vec![String::new()];
    for _ in 0..3 {
        let mut next = Vec::new();
        for w in &layer {
            for l in letters {
                next.push(format!("{w}{l}"));
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    for head in ["xml", "XML", "Xml", "xmln", "xmlns", "xmlnsx", "xm", "XMLNS", "_xml", "axml"] {
        for tail in ["", "x", "n", "l", "s", "a", "1", "-", ".", "_", "-lang", "\u{e9}"] {
            out.push(format!("{head}{tail}"));
        }
    }
    // One letter
    for c in ('a'..='z').chain('A'..='Z').chain(['_', '\u{e9}', '\u{3b1}', '\u{10000}']) {
        out.push(c.to_string());
    }
    if !quick {
        for a in 'a'..='z' {
            for b in ('a'..='z').chain('0'..='9').chain(['-', '.', '_', 'A', '\u{e9}']) {
                out.push(format!("{a}{b}"));
            }
        }
    }
    for w in COMMON {
        out.push(w.to_string());
        let mut cap = w.to_uppercase();
        cap.truncate(1);
        out.push(format!("{cap}{}", &w[1..]));
        out.push(format!("{w}1"));
        if !quick {
            out.push(w.to_uppercase());
            out.push(w.to_lowercase());
            out.push(format!("{w}-x"));
            out.push(format!("_{w}"));
            out.push(format!("{w}."));
            out.push(format!("{w}\u{e9}"));
        }
    }
    // All lengths
    for n in 1..=if quick { 70 } else { 300 } {
        out.push("k".repeat(n));
        if n % 7 == 0 {
            out.push("\u{e9}".repeat(n));
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|w| seen.insert(w.clone()));
    out
}

/// Small documents with the word in one place or several; some are not well-formed for some words
pub fn documents(w: &str) -> Vec<String> {
    vec![
        // Names, with and without a default namespace, attributes of the same name
        format!("<{w}/>"),
        format!("<{w} {w}='{w}'>{w}</{w}>"),
        format!("<{w} xmlns='urn:d' {w}='1' p:{w}='2' xmlns:p='urn:p'><{w} {w}=''/><p:{w} {w}='3'>t</p:{w}></{w}>"),
        format!("<a xmlns='urn:d'><{w}>t</{w}><b {w}='1'/>u<{w}x/></a>"),
        format!("<p:a xmlns:p='urn:p' {w}='1'><p:{w} p:{w}='2'/><{w}/></p:a>"),
        format!("<a>{w}<{w}><{w}>{w}</{w}></{w}>{w}</a>"),
        format!("<a {w}='{w}' {w}x='{w}' x{w}='{w}'/>"),
        // Prefixes
        format!("<{w}:e xmlns:{w}='urn:w' {w}:x='1' x='2' {w}:{w}='3'><{w}:{w}/><e/></{w}:e>"),
        format!("<e xmlns:{w}='urn:w' xmlns='urn:d'><{w}:e x='1'>t</{w}:e><e {w}:x='1'/></e>"),
        format!("<e xmlns:{w}='urn:1'><{w}:e xmlns:{w}='urn:2'><{w}:f/></{w}:e><{w}:e/></e>"),
        format!("<e xmlns:{w}='urn:1' xmlns:{w}x='urn:2' xmlns:x{w}='urn:3'><{w}x:e {w}:a='1'/><x{w}:e {w}x:a='2'/><{w}:e/></e>"),
        format!("<e xmlns:{w}='urn:1' xmlns:P='urn:2'><P:{w}/><{w}:P/></e>"),
        // Prefixes that are not in scope
        format!("<{w}:e/>"),
        format!("<e {w}:x='1'/>"),
        format!("<e><f xmlns:{w}='urn:1'/><{w}:f/></e>"),
        format!("<e xmlns:{w}x='urn:1'><{w}:f/></e>"),
        format!("<e xmlns:{w}='urn:1'><f {w}x:a='1'/></e>"),
        // Namespaces
        format!("<a xmlns='{w}' b='1'><b xmlns='{w}x'/><a xmlns=''/>{w}</a>"),
        format!("<p:a xmlns:p='{w}' p:x='{w}'><b xmlns='{w}'/></p:a>"),
    ]
}
