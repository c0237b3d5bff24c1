mod core; mod io; mod model; mod s_frame; mod s_msg; mod s_rx; mod s_hs; mod s_srv; mod s_err;
use crate::core::*;
#[global_allocator]
static A: Counting = Counting;

fn all() -> Vec<Section> { let mut v = s_frame::sections(); v.extend(s_msg::sections()); v.extend(s_rx::sections()); v.extend(s_hs::sections()); v.extend(s_srv::sections()); v.extend(s_err::sections()); v }
fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

/// replay check PID TIER SEED SLOTFILE   |   replay one PID SECTION CASE SEED TIER   |   replay list
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let secs = all();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for s in &secs { println!("{} {:?} quick={} thorough={}", s.name, s.props, s.quick, s.thorough) },
        Some("rules") => { let v: Vec<String> = secs.iter().map(|s| format!("{{\"name\":{},\"props\":{},\"rule\":{}}}", esc(s.name), list(&s.props.iter().map(|p| p.to_string()).collect::<Vec<_>>()), esc(s.rule))).collect(); println!("[{}]", v.join(",")) }
        Some("one") => {
            hook();
            let s = secs.iter().find(|s| s.name == a[3]).expect("section");
            let (fails, _, trace) = run_case(s, &a[2], a[5].parse().unwrap(), a[4].parse().unwrap(), a.get(6).map_or(false, |t| t == "thorough"));
            for t in &trace { println!("case: {}", t) }
            for f in &fails { println!("FAIL: {}", f) }
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        Some("check") => {
            let thorough = a[3] == "thorough";
            let only: Vec<&str> = a.get(6).map_or(vec![], |s| s.split(',').collect());
            let secs: Vec<Section> = if only.is_empty() { secs } else { secs.into_iter().filter(|s| only.contains(&s.name)).collect() };
            let rep = run(&secs, &a[2], a[4].parse().unwrap(), thorough, std::path::Path::new(&a[5]), 8, 40);
            let ss: Vec<String> = rep.sections.iter().map(|(n, e, d)| format!("{{\"section\":{},\"evaluations\":{},\"distinct\":{}}}", esc(n), e, d)).collect();
            let fl = match &rep.failure { None => "null".into(), Some(f) => format!("{{\"section\":{},\"case\":{},\"messages\":{},\"trace\":{}}}", esc(&f.section), f.case, list(&f.msgs), list(&f.trace)) };
            println!("{{\"evaluations\":{},\"distinct\":{},\"sections\":[{}],\"samples\":{},\"failure\":{}}}", rep.evaluations, rep.distinct, ss.join(","), list(&rep.samples), fl);
            std::process::exit(if rep.failure.is_some() { 1 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}
