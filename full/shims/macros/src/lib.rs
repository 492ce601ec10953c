use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn identity(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

/// Name and body of a struct or enum without type parameters
fn item(input: TokenStream) -> (String, Group) {
    let mut tokens = input.into_iter().peekable();
    let mut name = String::new();
    while let Some(token) = tokens.next() {
        match token {
            TokenTree::Ident(word) if matches!(word.to_string().as_str(), "struct" | "enum") => {
                name = tokens.next().unwrap().to_string();
            }
            TokenTree::Group(body) if !name.is_empty() && body.delimiter() == Delimiter::Brace => {
                return (name, body);
            }
            _ => {}
        }
    }
    panic!("a struct or enum with a body")
}

/// Splits a body at its commas outside of `<…>`
fn parts(body: &Group) -> Vec<Vec<TokenTree>> {
    let mut parts = vec![Vec::new()];
    let mut depth = 0;
    for token in body.stream() {
        match &token {
            TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
            TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => {
                parts.push(Vec::new());
                continue;
            }
            _ => {}
        }
        parts.last_mut().unwrap().push(token);
    }
    parts.retain(|part| !part.is_empty());
    parts
}

/// The part's own name: its first word after attributes and visibility
fn name(part: &[TokenTree]) -> (String, Option<Delimiter>) {
    let mut words = part.iter().peekable();
    while let Some(word) = words.next() {
        match word {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                words.next();
            }
            TokenTree::Ident(word) if word.to_string() == "pub" => {
                if matches!(words.peek(), Some(TokenTree::Group(_))) {
                    words.next();
                }
            }
            TokenTree::Ident(word) => {
                let body = match words.next() {
                    Some(TokenTree::Group(body)) => Some(body.delimiter()),
                    _ => None,
                };
                return (word.to_string(), body);
            }
            _ => {}
        }
    }
    panic!("a name")
}

#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(input: TokenStream) -> TokenStream {
    let (ty, body) = item(input);
    let arms: String = parts(&body)
        .iter()
        .map(|part| {
            let (name, body) = name(part);
            let pattern = match body {
                Some(Delimiter::Parenthesis) => "(..)",
                Some(_) => "{..}",
                None => "",
            };
            format!("{ty}::{name}{pattern} => \"{name}\",\n")
        })
        .collect();
    format!(
        "impl From<&{ty}> for &'static str {{ fn from(it: &{ty}) -> &'static str {{ match it {{ {arms} }} }} }}
         impl From<{ty}> for &'static str {{ fn from(it: {ty}) -> &'static str {{ (&it).into() }} }}"
    )
    .parse()
    .unwrap()
}

#[proc_macro_derive(FieldNamesAsArray, attributes(field_names_as_array))]
pub fn field_names_as_array(input: TokenStream) -> TokenStream {
    let (ty, body) = item(input);
    let names: Vec<String> = parts(&body).iter().map(|part| format!("{:?}", name(part).0)).collect();
    format!(
        "impl {ty} {{ pub(crate) const FIELD_NAMES_AS_ARRAY: [&'static str; {}] = [{}]; }}
         impl struct_field_names_as_array::FieldNamesAsArray for {ty} {{}}",
        names.len(),
        names.join(", ")
    )
    .parse()
    .unwrap()
}
