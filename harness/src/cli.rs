//! Running a property from the command line: seeds, evidence, replay files.

use crate::engine::*;
use std::fs;
use std::io::Write;
use std::path::PathBuf;

pub struct Plan {
    pub units: Vec<Unit>,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// The run enumerates a finite space completely.
    pub exhaustive: bool,
    pub threads: usize,
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

pub fn tier() -> String {
    match env("VERIF_TIER").as_deref() {
        Some("thorough") => "thorough".to_string(),
        _ => "quick".to_string(),
    }
}

/// How much more work than the quick tier.
pub fn scale() -> usize {
    if let Some(s) = env("VERIF_SCALE") {
        return s.parse().expect("VERIF_SCALE");
    }
    if tier() == "thorough" { 30 } else { 1 }
}

fn root() -> PathBuf {
    PathBuf::from(env("VERIF_ROOT").unwrap_or_else(|| "/verif".to_string()))
}

/// `<bin> <id>` runs a property; `<bin> replay <file>` re-runs one case;
/// `<bin> units <id>` lists the units.
pub fn main(plan: fn(&str, usize) -> Option<Plan>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") if args.len() == 3 => std::process::exit(replay(plan, &args[2])),
        Some("units") if args.len() == 3 => {
            for u in plan(&args[2], 1).expect("no such property").units {
                println!("{} {}", u.name, u.cases);
            }
        }
        Some("literals") => {
            print!("{}", crate::literals::listing(&root()));
        }
        Some(id) if args.len() == 2 => std::process::exit(check(plan, id)),
        _ => {
            eprintln!("usage: {} <property> | replay <file> | units <property>", args[0]);
            std::process::exit(2);
        }
    }
}

fn check(plan: fn(&str, usize) -> Option<Plan>, id: &str) -> i32 {
    let seed: u64 = env("VERIF_SEED").map(|s| s.parse().expect("VERIF_SEED")).unwrap_or(1);
    // A hang is no verdict: end with an error, never with a violation.
    let limit: u64 = env("VERIF_LIMIT").map(|s| s.parse().expect("VERIF_LIMIT")).unwrap_or(if tier() == "quick" { 800 } else { 14_000 });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: no result after {} s", limit);
        std::process::exit(3);
    });
    let p = match plan(id, scale()) {
        Some(p) => p,
        None => {
            eprintln!("{}: no such property here", id);
            return 2;
        }
    };
    if let Err(e) = crate::oracle::self_test() {
        eprintln!("the reference arithmetic fails its own test: {}", e);
        return 2;
    }
    crate::literals::load(&root());
    let lits = crate::literals::text();
    let rep = run_units(&p.units, seed, p.threads);
    let mut code = 0;
    let mut replay_path = None;
    for b in &rep.broken {
        eprintln!("HARNESS ERROR: {}", b);
        code = 2;
    }
    if let Some(f) = rep.failures.first() {
        let dir = root().join("replays");
        fs::create_dir_all(&dir).expect("replays directory");
        let path = dir.join(format!("{}-{}-{}.txt", id, seed, f.unit.replace(|ch: char| !ch.is_ascii_alphanumeric() && ch != '-', "_")));
        let mut o = fs::File::create(&path).expect("replay file");
        writeln!(o, "property {}", id).unwrap();
        writeln!(o, "unit {}", f.unit).unwrap();
        writeln!(o, "seed {}", seed).unwrap();
        if let Some(p) = env("VERIF_PROFILE") {
            writeln!(o, "profile {}", p).unwrap();
        }
        for (unit, ch) in &f.past {
            let ch: Vec<String> = ch.iter().map(|c| c.to_string()).collect();
            writeln!(o, "before {}: {}", unit, ch.join(" ")).unwrap();
        }
        let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
        if !lits.is_empty() {
            writeln!(o, "literals {}", lits).unwrap();
        }
        writeln!(o, "choices {}", ch.join(" ")).unwrap();
        writeln!(o, "reason {}", f.why.replace('\n', " ")).unwrap();
        for t in &f.text {
            writeln!(o, "# {}", t.replace('\n', " ")).unwrap();
        }
        println!("unit {}: {}", f.unit, f.why);
        for t in &f.text {
            println!("    {}", t);
        }
        println!("VIOLATION property={} replay={}", id, path.display());
        replay_path = Some(path);
        code = 1;
    }
    evidence(id, seed, &p, &rep, &replay_path);
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, {}",
        id,
        rep.evaluations,
        rep.distinct,
        rep.wall,
        match code {
            0 => "held",
            1 => "violated",
            _ => "harness error",
        }
    );
    println!("digest {:016x}", rep.digest);
    code
}

fn evidence(id: &str, seed: u64, p: &Plan, rep: &Report, replay: &Option<PathBuf>) {
    let dir = PathBuf::from(env("VERIF_EVIDENCE").map(PathBuf::from).unwrap_or_else(|| root().join("evidence")));
    fs::create_dir_all(&dir).expect("evidence directory");
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n", jstr(id), jstr(&tier()), seed);
    s += " \"level\": \"exploration\",\n \"coverage\": {\n";
    s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", rep.evaluations, rep.distinct);
    s += &format!("  \"rule\": {},\n", jstr(&format!("{} Distinct cases are counted up to 150000 per unit and thread.", p.rule)));
    if p.exhaustive && rep.failures.is_empty() {
        s += "  \"exhaustive\": true,\n";
    }
    s += &format!("  \"nontrivial\": {},\n", rep.nontrivial);
    if let Some(n) = env("VERIF_NOTE") {
        s += &format!("  \"note\": {},\n", jstr(&n));
    }
    let join = |v: Vec<String>| v.join(",\n   ");
    s += &format!(
        "  \"labels\": {{\n   {}\n  }},\n",
        join(rep.labels.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect())
    );
    s += &format!(
        "  \"cases_per_unit\": {{\n   {}\n  }},\n",
        join(rep.per_unit.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect())
    );
    let samples = if rep.samples.is_empty() {
        rep.failures.iter().map(|f| (f.unit.clone(), f.text.clone())).collect()
    } else {
        rep.samples.clone()
    };
    s += &format!(
        "  \"samples\": [\n   {}\n  ]\n }},\n",
        join(
            samples
                .iter()
                .map(|(u, t)| {
                    let t: Vec<String> = t.iter().take(40).map(|x| jstr(x)).collect();
                    format!("{{\"unit\": {}, \"case\": [{}]}}", jstr(u), t.join(", "))
                })
                .collect()
        )
    );
    s += &format!(
        " \"assumptions\": [{}],\n",
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", ")
    );
    if let Some(r) = replay {
        s += &format!(" \"replay\": {},\n", jstr(&r.display().to_string()));
    }
    s += &format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", rep.wall, rep.failures.len());
    fs::write(dir.join(format!("{}.json", id)), s).expect("evidence file");
}

fn replay(plan: fn(&str, usize) -> Option<Plan>, file: &str) -> i32 {
    let text = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        text.lines()
            .find(|l| l.starts_with(k) && l[k.len()..].starts_with(' '))
            .map(|l| l[k.len() + 1..].to_string())
            .unwrap_or_default()
    };
    let (id, unit) = (get("property"), get("unit"));
    let choices: Vec<u64> = get("choices").split_whitespace().map(|x| x.parse().expect("choice")).collect();
    crate::literals::set(&get("literals"));
    let p = plan(&id, 1).expect("no such property here");
    let u = match p.units.iter().find(|u| u.name == unit) {
        Some(u) => u,
        None => {
            eprintln!("no unit {} in {}", unit, id);
            return 2;
        }
    };
    for l in text.lines().filter(|l| l.starts_with("before ")) {
        if let Some((name, ch)) = l[7..].split_once(": ") {
            let ch: Vec<u64> = ch.split_whitespace().map(|x| x.parse().expect("choice")).collect();
            if let Some(u) = p.units.iter().find(|u| u.name == name) {
                let _ = run_case(&u.prop, &mut Ctx::fixed(&ch, false));
            }
        }
    }
    let mut c = Ctx::fixed(&choices, true);
    let r = run_case(&u.prop, &mut c);
    for t in &c.text {
        println!("    {}", t);
    }
    match r {
        Outcome::Pass => {
            println!("replay of {}: the property holds on this case", file);
            0
        }
        Outcome::Fail(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Outcome::Broken(m) => {
            eprintln!("HARNESS ERROR: {}", m);
            2
        }
    }
}
