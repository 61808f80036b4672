use interval_tree::{IntervalTree, range};
use serde_json::{Value, json};

fn n(v: &Value) -> u64 {
    v.as_u64().unwrap()
}

pub fn run(req: &Value) -> Value {
    let mut t = IntervalTree::<u64, u64>::new();
    for op in req["ops"].as_array().unwrap() {
        match op["op"].as_str().unwrap() {
            "ins" => t.insert(range(n(&op["s"]), n(&op["e"])), n(&op["v"])),
            "rem" => t.remove(range(n(&op["s"]), n(&op["e"]))),
            "mrg" => {
                let mut o = IntervalTree::new();
                for i in op["with"].as_array().unwrap() {
                    o.insert(range(n(&i["s"]), n(&i["e"])), n(&i["v"]));
                }
                t.merge(o);
            },
            _ => panic!("bad op"),
        }
    }
    let pair = |(k, v): (&interval_tree::RangeInclusive<u64>, &[u64])| json!([k.start, k.end, v]);
    let max = n(&req["max"]);
    let mut queries = Vec::new();
    let mut gets = Vec::new();
    for a in 0..=max {
        for b in a..=max {
            queries.push(json!(
                t.range(range(a, b)).map(|(k, _)| json!([k.start, k.end])).collect::<Vec<_>>()
            ));
            gets.push(json!([t.get(range(a, b)), t.contains(range(a, b)), t.get_or(range(a, b), &[])]));
        }
    }
    // A consuming iteration yields one (interval, value) pair per value.
    let consumed: Vec<Value> = t.clone().into_iter().map(|(k, v)| json!([k.start, k.end, v])).collect();
    json!({
        "content": t.iter().map(|(k, v)| json!([k.start, k.end, v])).collect::<Vec<_>>(),
        "consumed": consumed,
        "queries": queries,
        "gets": gets,
        "min": t.min().map(pair),
        "max": t.max().map(pair),
        "empty": t.is_empty(),
        "height": t.height(),
    })
}
