//! Rename rules, from their description: split the identifier into words, join them in the style

pub fn rename_field(rule: &str, ident: &str) -> String {
    let ident = ident.strip_prefix("r#").unwrap_or(ident);
    let words: Vec<&str> = ident.split('_').collect();
    let cap = |w: &str| {
        let mut cs = w.chars();
        match cs.next() {
            Some(c) => c.to_ascii_uppercase().to_string() + cs.as_str(),
            None => String::new(),
        }
    };
    match rule {
        // Fields are in snake case to begin with
        "" | "lowercase" | "snake_case" => ident.to_owned(),
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => ident.to_ascii_uppercase(),
        "PascalCase" => words.iter().map(|w| cap(w)).collect(),
        "camelCase" => {
            let s: String = words.iter().map(|w| cap(w)).collect();
            let mut cs = s.chars();
            match cs.next() {
                Some(c) => c.to_ascii_lowercase().to_string() + cs.as_str(),
                None => s,
            }
        }
        "kebab-case" => words.join("-"),
        "SCREAMING-KEBAB-CASE" => words.join("-").to_ascii_uppercase(),
        _ => panic!("unknown rule"),
    }
}

pub fn rename_variant(rule: &str, ident: &str) -> String {
    // Words of a variant start at its capitals
    let mut words: Vec<String> = Vec::new();
    for c in ident.chars() {
        if words.is_empty() || c.is_uppercase() {
            words.push(String::new());
        }
        words.last_mut().unwrap().push(c);
    }
    match rule {
        "" | "PascalCase" => ident.to_owned(),
        "lowercase" => ident.to_ascii_lowercase(),
        "UPPERCASE" => ident.to_ascii_uppercase(),
        "camelCase" => {
            let mut cs = ident.chars();
            match cs.next() {
                Some(c) => c.to_ascii_lowercase().to_string() + cs.as_str(),
                None => String::new(),
            }
        }
        "snake_case" => words.join("_").to_ascii_lowercase(),
        "SCREAMING_SNAKE_CASE" => words.join("_").to_ascii_uppercase(),
        "kebab-case" => words.join("-").replace('_', "-").to_ascii_lowercase(),
        "SCREAMING-KEBAB-CASE" => words.join("-").replace('_', "-").to_ascii_uppercase(),
        _ => panic!("unknown rule"),
    }
}
