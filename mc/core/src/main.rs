mod codec;
mod directives;
mod gitignore;
mod line_endings;
mod paths;
mod patterns;
mod resolver;
mod ungrammar;
mod values;

fn main() {
    mc::run(&[
        &line_endings::Normalize,
        &line_endings::Infer,
        &directives::Directives,
        &resolver::Resolver,
        &values::Values,
        &values::Lists,
        &patterns::Exclude,
        &patterns::Defaults,
        &paths::Paths,
        &codec::Codec,
        &ungrammar::Ungrammar,
    ])
}
