#![allow(dead_code)]
//! mone: monitors for the navmesh editor: fetching a scene, building its navmesh, drawing it.
#[path = "../../core/src/fw.rs"]
#[macro_use]
mod fw;
#[path = "../../core/src/rng.rs"]
mod rng;
#[path = "../../bevy/src/gens.rs"]
mod gens;
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
mod scene;

use fw::*;

#[global_allocator]
static A: fw::Guard = fw::Guard;

static PROPS: &[Prop] = &[
    Prop { id: "B10", run: scene::b10, quick: 1500, thorough: 60_000, rule: "one case = up to 4 scenes fetched from a game and built, some answers damaged; non-trivial = a navmesh came out; distinct by affectors and visuals" },
    Prop { id: "B11", run: scene::b11, quick: 3000, thorough: 100_000, rule: "one case = a history of builds and display switches; non-trivial = something was drawn; distinct by what was drawn" },
];

fn main() {
    scene::init();
    let a: Vec<String> = std::env::args().collect();
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let usage = "mone <PROP> <quick|thorough> [seed] | mone replay <PROP> <tier> <seed> <case>";
    let get = |id: &str| {
        PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
            println!("unknown property {id}; {usage}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => fw::replay(get(&a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some(id) => fw::main_run(get(id), a.get(2).map(|s| s.as_str()).unwrap_or("quick"), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(env_seed)),
        None => {
            println!("{usage}");
            2
        }
    };
    std::process::exit(code);
}
