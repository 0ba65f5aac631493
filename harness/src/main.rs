mod fw;
mod c20;
mod c23;
mod c28;
mod c29;
mod egorun;
mod c01;
mod c03;
mod c04;
mod c09;
mod c11;
mod c16;
mod c18;
mod gpref;
mod la;
use fw::*;

fn props() -> Vec<Prop> {
    vec![
        c01::prop01(), c01::prop02(), c03::prop03(), c04::prop04(), c04::prop05(), c04::prop06(), c04::prop07(),
        c04::prop08(), c09::prop09(), c04::prop10(), c11::prop11(), c11::prop12(), c11::prop13(), c11::prop14(), c11::prop15(),
        c16::prop16(), c16::prop17(), c18::prop18(), c18::prop19(), c20::prop20(), c20::prop21(), c20::prop22(), c23::prop23(), c23::prop24(), c23::prop25(), c23::prop26(), c20::prop27(), c28::prop28(), c29::prop29(),
    ]
}

fn main() {
    unsafe {
        std::env::set_var("EGOBOX_LOG", "off");
    }
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => {
            let id = args.get(2).expect("property id");
            let tier = match std::env::var("VERIF_TIER").unwrap_or_default().as_str() {
                "thorough" => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let mult = std::env::var("VPBT_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let ps = props();
            let p = ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            });
            run_prop(p, &RunCfg { tier, seed, only: args.get(3).cloned(), mult })
        }
        "replay" => replay(&props(), args.get(2).expect("replay file")),
        "child" => egorun::child(),
        "list" => {
            for p in props() {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick * fw::quick_mult(p.id), s.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: vpbt check <ID> [sub] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
