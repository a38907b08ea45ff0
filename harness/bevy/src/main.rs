#![allow(dead_code)]
//! monb: monitors for the Bevy side of rerecast (backends, conversions, editor transmission).
#[path = "../../core/src/fw.rs"]
#[macro_use]
mod fw;
#[path = "../../core/src/rng.rs"]
mod rng;
mod backends;
mod brp;
mod colliders;
mod convert;
mod gens;

use fw::*;

#[global_allocator]
static A: fw::Guard = fw::Guard;

static PROPS: &[Prop] = &[
    Prop { id: "B01", run: convert::b01, quick: 200000, thorough: 5000000, rule: "one case = one Bevy mesh converted; non-trivial = triangles came out; distinct by geometry" },
    Prop { id: "B02", run: backends::b02, quick: 8000, thorough: 400000, rule: "one case = a history of up to 40 world edits with the backend run after each; non-trivial = affectors came out; distinct by affector lists" },
    Prop { id: "B03", run: backends::b03, quick: 8000, thorough: 400000, rule: "one case = a history of up to 40 world edits with the collider backend run after each; non-trivial = affectors came out while others were left out; distinct by affector lists" },
    Prop { id: "B04", run: colliders::b04, quick: 10000, thorough: 400000, rule: "one case = one collider taken through the collider backend; non-trivial = triangles came out; distinct by geometry" },
    Prop { id: "B05", run: convert::b05, quick: 60000, thorough: 1500000, rule: "one case = one Bevy mesh sent and received; non-trivial = it had attributes; distinct by content" },
    Prop { id: "B06", run: convert::b06, quick: 60000, thorough: 2000000, rule: "one case = one image sent and received; all count; distinct by content" },
    Prop { id: "B07", run: convert::b07, quick: 20000, thorough: 800000, rule: "one case = up to 5 materials over a pool of images sent and received; non-trivial = some textures used; distinct by content" },
    Prop { id: "B08", run: convert::b08, quick: 20000, thorough: 400000, rule: "one case = one payload round trip and one damaged payload; all count; distinct by payload" },
    Prop { id: "B09", run: brp::b09, quick: 4000, thorough: 80000, rule: "one case = a world queried through the remote method after each of a few edits; non-trivial = visuals and affectors came out; distinct by response" },
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let usage = "monb <PROP> <quick|thorough> [seed] | monb replay <PROP> <tier> <seed> <case>";
    let get = |id: &str| {
        PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
            println!("unknown property {id}; {usage}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => fw::replay(get(&a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some(id) => fw::main_run(get(id), a.get(2).map(|s| s.as_str()).unwrap_or("quick"), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(env_seed)),
        None => {
            println!("{usage}");
            2
        }
    };
    std::process::exit(code);
}
