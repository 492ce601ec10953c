//! W01: path resolution
//!
//! All histories of operations on a small universe of directories that are prefixes,
//! siblings and near-prefixes of each other; after every operation every query path is
//! compared with a map that is searched component by component.

use std::collections::BTreeMap;

use mc::{ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};
use wsmods::resolve::PathResolver;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Add(String),
    Remove(String),
    Clear,
    /// Changes the value of every match of the path in place
    Update(String),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case(Vec<Op>);

/// `/a-b` and `/a.R` sort between `/a` and `/a/b` as text, but not by components
const DIRS: &[&str] = &["/a", "/a/b", "/a/b/c", "/a-b", "/a/b.d", "/", "/b", "a", "/a/c"];
/// Other spellings of the same directories
const SPELLINGS: &[&str] = &["/a/", "/a//b", "/a/./b/c"];
const QUERIES: &[&str] = &[
    "/", "/a", "/a/", "/a/x.R", "/a/b", "/a/b/x.R", "/a/b/c/x.R", "/a/b/c/d/x.R", "/a.R", "/a-b", "/a-b/c/x.R",
    "/a/b.d/x.R", "/a/b.R", "/a/b-x/c", "/b/a/b", "/c/x.R", "a", "a/b/c", "x.R", "", "/a/bc/x.R", "/a/./b/x.R",
    "/a/c/x.R", "/ab/c", "/A/b",
];

type Components = Vec<String>;

/// Component by component; the root is a component of its own
fn components(path: &str) -> Components {
    let mut out = Vec::new();
    if path.starts_with('/') {
        out.push("/".to_string());
    }
    for (i, part) in path.split('/').enumerate() {
        if part.is_empty() || (part == "." && !(i == 0)) {
            continue;
        }
        out.push(part.to_string());
    }
    out
}

fn is_prefix(dir: &Components, path: &Components) -> bool {
    dir.len() <= path.len() && dir.iter().zip(path).all(|(a, b)| a == b)
}

const FALLBACK: u32 = 999;

fn check_all(resolver: &mut PathResolver<u32>, model: &BTreeMap<Components, u32>, extra: &[String]) -> Result<(), String> {
    if resolver.len() != model.len() || resolver.is_empty() != model.is_empty() {
        return Err(format!("{} directories are registered, expected {}", resolver.len(), model.len()));
    }
    let mut items: Vec<(Components, u32)> = resolver
        .items()
        .iter()
        .map(|item| (components(item.path().to_str().unwrap()), *item.value()))
        .collect();
    items.sort();
    let want: Vec<(Components, u32)> = model.iter().map(|(k, v)| (k.clone(), *v)).collect();
    if items != want {
        return Err(format!("registered directories are {items:?}, expected {want:?}"));
    }
    // Beside the fixed queries, ones around every directory that was ever registered
    let mut queries: Vec<String> = QUERIES.iter().map(|q| q.to_string()).collect();
    for dir in extra {
        queries.push(dir.clone());
        queries.push(format!("{dir}/x.R"));
        queries.push(format!("{dir}-x/x.R"));
        queries.push(format!("{dir}/y/z/x.R"));
    }
    for query in &queries {
        let path = components(query);
        let mut ancestors: Vec<(&Components, u32)> =
            model.iter().filter(|(dir, _)| is_prefix(dir, &path)).map(|(k, v)| (k, *v)).collect();
        ancestors.sort_by_key(|(dir, _)| dir.len());
        let want = ancestors.last().map(|(dir, value)| ((*dir).clone(), *value));
        let got = resolver.resolve(query).map(|item| (components(item.path().to_str().unwrap()), *item.value()));
        if got != want {
            return Err(format!("{query:?} resolves to {got:?}, expected {want:?}"));
        }
        let value = *resolver.resolve_or_fallback(query);
        let want_value = want.map_or(FALLBACK, |(_, value)| value);
        if value != want_value {
            return Err(format!("{query:?} resolves to value {value}, expected {want_value}"));
        }
        let want: Vec<u32> = ancestors.iter().map(|(_, value)| *value).collect();
        let got: Vec<u32> = resolver.matches(query).map(|item| *item.value()).collect();
        if got != want {
            return Err(format!("{query:?} is matched by {got:?}, expected {want:?}"));
        }
        let got: Vec<u32> = resolver.matches_mut(query).map(|item| *item.value_mut()).collect();
        if got != want {
            return Err(format!("{query:?} is matched mutably by {got:?}, expected {want:?}"));
        }
    }
    if *resolver.fallback() != FALLBACK {
        return Err("the fallback value changed".to_string());
    }
    Ok(())
}

pub struct Resolver;

fn alphabet() -> Vec<Op> {
    let mut ops = Vec::new();
    for dir in DIRS.iter().take(7) {
        ops.push(Op::Add(dir.to_string()));
    }
    for dir in DIRS.iter().take(6) {
        ops.push(Op::Remove(dir.to_string()));
    }
    for dir in SPELLINGS {
        ops.push(Op::Add(dir.to_string()));
    }
    ops.push(Op::Remove("/a/b/".to_string()));
    ops.push(Op::Clear);
    ops.push(Op::Update("/a/b/c/x.R".to_string()));
    ops
}

impl Check for Resolver {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W01"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all histories of length {} over {} operations (add, replace, remove, clear, update in place on 9 directories and other spellings of them), all {} queries after each step; all orders of adding every subset of the 9 directories up to size {} followed by every single removal; up to {} nested, sibling and near-prefix directories in 4 orders, with removals, updates and replacements; all histories of length {} of adding and removing 4 directories; every character (about 700) in directory names; names of up to 5000 characters",
            tier.pick(4, 5),
            alphabet().len(),
            QUERIES.len(),
            tier.pick(5, 7),
            tier.pick(70, 140),
            tier.pick(5, 7),
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let ops = alphabet();
        let depth = tier.pick(4, 5);
        // every prefix of a history is judged on the way
        for len in [1, 2, depth] {
            mc::words_of(ops.len(), len, &mut |word| emit(Case(word.iter().map(|i| ops[*i].clone()).collect())));
        }
        // Longer histories on three nested directories and a sibling
        let few: Vec<Op> = ["/a", "/a/b", "/a/b/c", "/a-b"]
            .iter()
            .flat_map(|dir| [Op::Add(dir.to_string()), Op::Remove(dir.to_string())])
            .collect();
        let long = tier.pick(5, 7);
        mc::words_of(few.len(), long, &mut |word| emit(Case(word.iter().map(|i| few[*i].clone()).collect())));
        // Every character in names
        for c in mc::characters().filter(|c| !matches!(c, '/' | '.')) {
            let names = ["/a".to_string(), format!("/a{c}"), format!("/a{c}/b"), "/a/b".to_string(), format!("/{c}"), format!("/{c}{c}/a")];
            for rotate in 0..names.len() {
                let mut history: Vec<Op> = names.iter().map(|name| Op::Add(name.clone())).collect();
                history.rotate_left(rotate);
                for name in &names[..3] {
                    history.push(Op::Remove(name.clone()));
                    emit(Case(history.clone()));
                }
            }
        }
        // Long names
        for length in [60, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 5000] {
            let name = "n".repeat(length);
            let names = [format!("/{name}"), format!("/{name}/{name}"), format!("/{}", &name[1..]), format!("/{name}x"), format!("/a/{name}")];
            for rotate in 0..names.len() {
                let mut history: Vec<Op> = names.iter().map(|name| Op::Add(name.clone())).collect();
                history.rotate_left(rotate);
                emit(Case(history.clone()));
                history.push(Op::Remove(names[0].clone()));
                emit(Case(history));
            }
        }
        // Many directories: chains, siblings and near-prefixes, in several orders
        for size in 13..=tier.pick(70, 140) {
            for shape in 0..3 {
                let dirs: Vec<String> = (0..size)
                    .map(|i| match shape {
                        0 => format!("/{}", vec!["d"; i + 1].join("/")),
                        1 => format!("/a/b{i}"),
                        _ => format!("/{}", "d".repeat(i + 1)),
                    })
                    .collect();
                for stride in [1, size - 1, 5, 7] {
                    if size % stride == 0 && stride > 1 {
                        continue;
                    }
                    let added: Vec<Op> = (0..size).map(|i| Op::Add(dirs[i * stride % size].clone())).collect();
                    emit(Case(added.clone()));
                    for last in [0, size / 2, size - 1] {
                        let mut history = added.clone();
                        history.push(Op::Remove(dirs[last].clone()));
                        emit(Case(history.clone()));
                        history.push(Op::Update(format!("{}/x.R", dirs[size - 1])));
                        history.push(Op::Add(dirs[0].clone()));
                        emit(Case(history));
                    }
                }
            }
        }
        // Orders of insertion
        let max = tier.pick(5, 7);
        let mut order: Vec<usize> = Vec::new();
        fn orders(n: usize, max: usize, order: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
            if order.len() == max {
                f(order);
                return;
            }
            for i in 0..n {
                if !order.contains(&i) {
                    order.push(i);
                    orders(n, max, order, f);
                    order.pop();
                }
            }
        }
        orders(DIRS.len(), max, &mut order, &mut |order| {
            for remove in 0..order.len() {
                let mut history: Vec<Op> = order.iter().map(|i| Op::Add(DIRS[*i].to_string())).collect();
                history.push(Op::Remove(DIRS[order[remove]].to_string()));
                emit(Case(history));
            }
        });
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let mut resolver = PathResolver::new(FALLBACK);
        let mut model: BTreeMap<Components, u32> = BTreeMap::new();
        let mut next = 0;
        let mut extra: Vec<String> = Vec::new();
        let known = |path: &str| DIRS.contains(&path) || SPELLINGS.contains(&path);
        if case.0.iter().any(|op| matches!(op, Op::Add(path) if !known(path))) {
            extra = case.0.iter().filter_map(|op| match op { Op::Add(path) => Some(path.clone()), _ => None }).collect();
        }
        let insertion_run = case.0.len() > 5;
        for (i, op) in case.0.iter().enumerate() {
            match op {
                Op::Add(path) => {
                    next += 1;
                    let got = resolver.add(path.as_str(), next);
                    let want = model.insert(components(path), next);
                    ensure_eq!(got, want, "value replaced by adding {path:?}");
                }
                Op::Remove(path) => {
                    let got = resolver.remove(path.as_str());
                    let want = model.remove(&components(path));
                    ensure_eq!(got, want, "value returned by removing {path:?}");
                }
                Op::Clear => {
                    resolver.clear();
                    model.clear();
                }
                Op::Update(path) => {
                    let key = components(path);
                    for item in resolver.matches_mut(path.as_str()) {
                        *item.value_mut() += 100;
                    }
                    for (dir, value) in model.iter_mut() {
                        if is_prefix(dir, &key) {
                            *value += 100;
                        }
                    }
                }
            }
            ctx.step(1);
            ctx.state(&model.keys().collect::<Vec<_>>());
            // insertion orders share their prefixes: judge the last two states only
            if insertion_run && i + 2 < case.0.len() {
                continue;
            }
            if let Err(what) = check_all(&mut resolver, &model, &extra) {
                return Err(format!("after {:?}: {what}", &case.0[..=i]).into());
            }
        }
        ctx.outcome(&format!("{} directories", model.len()));
        Ok(())
    }
}
