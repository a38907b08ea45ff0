#![allow(dead_code, clippy::all)]
#![allow(unused, unexpected_cfgs)]
#![recursion_limit = "256"]
mod fw;
mod r#gen;
mod model;
mod p_cfg;
mod p_detail;
mod p_e2e;
mod p_inv;
mod p_mesh;
mod p_ref;
mod p_reg;
mod p_vox;
mod p_sym;
mod pipe;
mod refdetail;
mod refmesh;
mod refvox;
mod rng;
use fw::Prop;

#[global_allocator]
static A: fw::Guard = fw::Guard;

static PROPS: &[Prop] = &[
    Prop { id: "V01", run: p_vox::v01, quick: 48000, thorough: 600_000, rule: "one case = up to 12 triangles on a seeded grid; non-trivial = the triangle touched a column; distinct by resulting field" },
    Prop { id: "V02", run: p_vox::v02, quick: 48000, thorough: 600_000, rule: "one case = an insertion history of up to 40 triangles replayed against the column model; non-trivial = at least one merge; distinct by final field" },
    Prop { id: "V03", run: p_vox::v03, quick: 40000, thorough: 2_000_000, rule: "one case = a triangle soup around the threshold slope; non-trivial = some marked and some kept; distinct by geometry" },
    Prop { id: "V04", run: p_vox::v04, quick: 96000, thorough: 600_000, rule: "one case = a field and parameters; non-trivial = some areas changed, not all; distinct by field and parameters" },
    Prop { id: "V05", run: p_vox::v05, quick: 96000, thorough: 600_000, rule: "one case = a field and parameters; non-trivial = some areas changed, not all; distinct by field and parameters" },
    Prop { id: "V06", run: p_vox::v06, quick: 96000, thorough: 600_000, rule: "one case = a field and parameters; non-trivial = some areas changed, not all; distinct by field and parameters" },
    Prop { id: "V07", run: p_vox::v07, quick: 96000, thorough: 600_000, rule: "one case = a field compacted; non-trivial = more than one open span; distinct by field" },
    Prop { id: "V08", run: p_vox::v08, quick: 96000, thorough: 600_000, rule: "one case = a field compacted; non-trivial = links both present and absent; distinct by field" },
    Prop { id: "V09", run: p_vox::v09, quick: 12000, thorough: 200_000, rule: "one case = 1-2 erosions of a field; non-trivial = some but not all walkable spans eroded; distinct by field and radius" },
    Prop { id: "V10", run: p_vox::v10, quick: 80000, thorough: 400_000, rule: "one case = up to 4 volumes marked on a field; non-trivial = spans inside and outside; distinct by resulting field" },
    Prop { id: "V11", run: p_vox::v11, quick: 40000, thorough: 400_000, rule: "one case = a built field plus accessor sweep of a random one; distinct by dimensions" },
    Prop { id: "T01", run: p_vox::t01, quick: 20000, thorough: 600_000, rule: "one case = up to 6 soups concatenated; non-trivial = more than 3 triangles over 2+ parts; distinct by vertices" },
    Prop { id: "C01", run: p_cfg::c01, quick: 400000, thorough: 20_000_000, rule: "one case = a set of world measures turned into a configuration; non-trivial = the agent has a radius and a climb; distinct by cell counts" },
    Prop { id: "R01", run: p_reg::r01, quick: 30000, thorough: 600_000, rule: "one case = the distance field of a generated field; non-trivial = inner spans with distance above 2; distinct by field and distances" },
    Prop { id: "R02", run: p_reg::r02, quick: 90000, thorough: 600_000, rule: "one case = a field partitioned; non-trivial = more than one region; distinct by resulting partition" },
    Prop { id: "R03", run: p_reg::r03, quick: 90000, thorough: 600_000, rule: "one case = a field partitioned with and without removal/merging; non-trivial = spans removed or regions merged; distinct by resulting partition" },
    Prop { id: "K01", run: p_mesh::k01, quick: 120000, thorough: 600_000, rule: "one case = the contours of a partitioned field; non-trivial = more than one contour; distinct by partition and parameters" },
    Prop { id: "K02", run: p_mesh::k02, quick: 120000, thorough: 600_000, rule: "one case = the contours of a partitioned field; non-trivial = raw vertices dropped; distinct by partition and parameters" },
    Prop { id: "K03", run: p_mesh::k03, quick: 120000, thorough: 600_000, rule: "one case = the contours of a partitioned field; non-trivial = a region with holes was joined; distinct by partition and parameters" },
    Prop { id: "P01", run: p_mesh::p01, quick: 80000, thorough: 400_000, rule: "one case = a mesh built from generated or drawn contours; non-trivial = more than one polygon checked; distinct by mesh" },
    Prop { id: "P02", run: p_mesh::p02, quick: 80000, thorough: 400_000, rule: "one case = a mesh built from generated or drawn contours; non-trivial = more than one polygon; distinct by mesh" },
    Prop { id: "P03", run: p_mesh::p03, quick: 80000, thorough: 400_000, rule: "one case = a mesh built from generated or drawn contours; non-trivial = at least one link; distinct by mesh" },
    Prop { id: "P04", run: p_mesh::p04, quick: 80000, thorough: 400_000, rule: "one case = a mesh built from generated or drawn contours; non-trivial = border vertices removed; distinct by mesh" },
    Prop { id: "D01", run: p_detail::d01, quick: 12000, thorough: 200_000, rule: "one case = the detail mesh of a generated navmesh; non-trivial = vertices were added; distinct by mesh and heights" },
    Prop { id: "D02", run: p_detail::d02, quick: 12000, thorough: 200_000, rule: "one case = the detail mesh of a generated navmesh; non-trivial = vertices were added; distinct by mesh and heights" },
    Prop { id: "E04", run: p_inv::e04, quick: 6000, thorough: 100_000, rule: "one case = a world built several times, alone and next to other threads; non-trivial = a polygon mesh came out; distinct by all outputs" },
    Prop { id: "E05", run: p_sym::e05, quick: 30000, thorough: 1_000_000, rule: "one case = a world built twice, moved, turned, mirrored or scaled the second time; non-trivial = several polygons or links came out; distinct by mesh or field" },
    Prop { id: "E06", run: p_inv::e06, quick: 12000, thorough: 100_000, rule: "one case = a world built through saved and loaded stages; non-trivial = polygons came out; distinct by polygon mesh" },
    Prop { id: "E07", run: p_ref::e07, quick: 6, thorough: 60, rule: "one case = one recorded level, geometry handed over whole, in parts or unindexed; all count; distinct by level and cut" },
    Prop { id: "E01", run: p_e2e::e01, quick: 60000, thorough: 1_500_000, rule: "one case = the navmesh of an arena with known obstacles; non-trivial = obstacles present and the radius exceeds the rounding allowance; distinct by mesh" },
    Prop { id: "E02", run: p_e2e::e02, quick: 60000, thorough: 1_500_000, rule: "one case = the navmesh of an arena with known obstacles; non-trivial = more than 4 cells have to be covered, not all; distinct by mesh" },
    Prop { id: "E03", run: p_inv::e03, quick: 100000, thorough: 2_000_000, rule: "one case = a hostile scene and configuration taken through the whole pipeline; non-trivial = polygons came out; distinct by mesh" },
    Prop { id: "E08", run: p_sym::e08, quick: 20000, thorough: 600_000, rule: "one case = a world and two neighbouring tiles of it; non-trivial = the cut can be crossed somewhere; distinct by the two meshes" },
    Prop { id: "E09", run: p_e2e::e09, quick: 40000, thorough: 1_500_000, rule: "one case = the navmesh of an arena with known walls; non-trivial = several parts or more than 8 polygons; distinct by mesh" },
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let usage = "mon <PROP> <quick|thorough> [seed] | mon replay <PROP> <tier> <seed> <case>";
    let get = |id: &str| PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        println!("unknown property {id}; {usage}");
        std::process::exit(2)
    });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => fw::replay(get(&a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        Some(id) => fw::main_run(get(id), a.get(2).map(|s| s.as_str()).unwrap_or("quick"), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(env_seed)),
        None => {
            println!("{usage}");
            2
        }
    };
    std::process::exit(code);
}
