//! For looking around: classes of violations, with the shortest example of each.
use std::collections::{BTreeMap, VecDeque};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

use mc::{Check, Ctx, Tier};

pub fn survey<C: Check>(check: &C, tier: Tier, limit: usize, show: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let classes: Mutex<BTreeMap<String, (usize, String)>> = Mutex::default();
    let queue = Mutex::new(VecDeque::<Vec<C::Case>>::new());
    let (done, total) = (AtomicBool::new(false), AtomicU64::new(0));
    let start = std::time::Instant::now();
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (queue, done, classes, total) = (&queue, &done, &classes, &total);
            let work = move || {
                let mut ctx = Ctx::default();
                loop {
                    let batch = queue.lock().unwrap().pop_front();
                    let Some(batch) = batch else {
                        if done.load(Ordering::SeqCst) {
                            return;
                        }
                        std::thread::sleep(std::time::Duration::from_millis(1));
                        continue;
                    };
                    for case in batch {
                        total.fetch_add(1, Ordering::Relaxed);
                        let verdict = match mc::guard(|| check.judge(&case, &mut ctx)) {
                            Ok(verdict) => verdict,
                            Err(panic) => Err(mc::Failure { key: panic.clone(), what: panic + &serde_json::to_string(&case).unwrap() }),
                        };
                        if let Err(failure) = verdict {
                            let key = if failure.key.is_empty() { check.key(&case) } else { failure.key };
                            let mut classes = classes.lock().unwrap();
                            let e = classes.entry(key).or_insert((0, String::new()));
                            e.0 += 1;
                            if e.1.is_empty() || failure.what.len() < e.1.len() {
                                e.1 = failure.what;
                            }
                        }
                    }
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, work).unwrap();
        }
        let mut batch = Vec::new();
        let mut n = 0;
        check.explore(tier, &mut |case| {
            n += 1;
            if n > limit {
                return;
            }
            batch.push(case);
            if batch.len() == 256 {
                while queue.lock().unwrap().len() > 200 {
                    std::thread::sleep(std::time::Duration::from_millis(1))
                }
                queue.lock().unwrap().push_back(std::mem::take(&mut batch));
            }
        });
        queue.lock().unwrap().push_back(batch);
        done.store(true, Ordering::SeqCst);
    });
    println!("{} cases, {:.1} s", total.into_inner(), start.elapsed().as_secs_f64());
    let mut classes: Vec<_> = classes.into_inner().unwrap().into_iter().collect();
    classes.sort_by_key(|c| c.1.1.len());
    println!("{} classes", classes.len());
    for (class, (n, what)) in classes.iter().take(show) {
        println!("{n:8} {class}\n         {what}");
    }
}
