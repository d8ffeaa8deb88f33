mod dict;
mod fw;
mod gen;
mod model;
#[path = "../../probe/src/ops.rs"]
mod ops;
mod print;
mod props;
mod re;
mod rec;
mod rng;
mod run;
mod s;
mod san;
mod syn;
mod val;

#[global_allocator]
static ALLOC: san::Counting = san::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props::all().iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    match a.get(1).map(String::as_str) {
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            fw::worker(find(&a[2]), n(3), n(4), n(5), n(6), n(7), n(8), std::path::Path::new(&a[9]));
        }
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(fw::check(find(&a[2]), seed, a.get(3).map_or("quick", String::as_str)));
        }
        Some("case") => {
            std::process::exit(fw::replay(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap()));
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let p = find(j["property"].as_str().unwrap());
            std::process::exit(fw::replay(p, j["seed"].as_u64().unwrap(), j["idx"].as_u64().unwrap()));
        }
        Some("dict") => print!("{}", dict::dump()),
        Some("aux") => std::process::exit(props::aux(&a[2..])),
        _ => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
    }
}
