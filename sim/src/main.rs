mod doc;
mod engine;
mod env;
mod heap;
mod props;
mod oracle;
mod rmodel;
mod rt;
mod sinks;
mod templates;
mod val;
mod zoo_derive;
mod zoo_node;

use std::path::Path;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

fn main() {
    let args = std::env::args().collect::<Vec<_>>();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {:?}", id);
        std::process::exit(2)
    });
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var("OPGSIM_ROOT").unwrap_or_else(|_| "/verif".to_owned());
    let code = match arg(1) {
        "check" => {
            let runs = args.get(4).and_then(|s| s.parse().ok());
            let jobs = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8);
            engine::check(find(arg(2)), arg(3), seed, Path::new(&root), runs, jobs)
        }
        "worker" => {
            engine::worker(find(arg(2)), num(3), num(4), num(5), num(6), num(7), Path::new(arg(8)));
            0
        }
        "exec" => {
            // exec <prop> <index>: one run with its trace
            let prop = find(arg(2));
            let run = engine::run_seed(seed, prop.id, num(3));
            let result = engine::Runner::new().run(prop.run, engine::Input::Seed(run), true);
            for line in &result.trace {
                println!("{}", line);
            }
            println!("samples {:#?}", result.samples);
            println!("counters {:?}", result.counters);
            println!("status {} {} {} hash {:x} choices {}", result.status, result.class, result.message, result.trace_hash, result.choices.len());
            0
        }
        "golden" => {
            // schemas of the derived types as the current tree gives them; for a person to review
            let all = zoo_derive::TYPES.iter().map(|t| {
                let model = rt::quiet(|| (t.schema)(&mut opg::Components::new()));
                (t.name.to_owned(), serde_json::to_value(&model).expect("a schema serializes"))
            });
            println!("{:#}", serde_json::Value::Object(all.collect()));
            0
        }
        "replay" => engine::replay(&props, Path::new(arg(2))),
        "list" => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: opgsim check <property> quick|thorough [runs] | exec <property> <index> | replay <file>");
            2
        }
    };
    std::process::exit(code)
}
