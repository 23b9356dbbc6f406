//! Bounded executable contracts, run against the real crates of /repo.
//!   rv-harness <property> <seed> <quick|thorough> <budget seconds> [known finding keys...]
mod core;
mod model;
mod p_asset;
mod p_cbor;
mod p_cel;
mod p_cert;
mod p_hash_tree;
mod p_http;
mod p_nested;
mod p_paths;
mod p_rb;
mod p_resp;
mod refhttp;

use crate::core::Ctx;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "HOSTILE-CBOR" {
        p_cbor::hostile_child(a[2].parse().unwrap());
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    let budget = std::time::Duration::from_secs_f64(a[4].parse().unwrap());
    let mut c = Ctx::new(&a[1], seed, thorough, budget, a[5..].to_vec());
    let run = move || {
        match c.prop.as_str() {
            "C01" => p_hash_tree::c01(&mut c),
            "C02" => p_hash_tree::c02(&mut c),
            "C03" => p_rb::c03(&mut c),
            "C04" => p_rb::c04(&mut c),
            "C05" => p_rb::c05(&mut c),
            "C06" => p_nested::c06(&mut c),
            "C07" => p_nested::c07(&mut c),
            "C08" => p_http::c08(&mut c),
            "C09" => p_cbor::c09(&mut c),
            "C10" => p_cbor::c10(&mut c),
            "C11" => p_cert::c11(&mut c),
            "C12" => p_cert::c12(&mut c),
            "C13" => p_cert::c13(&mut c),
            "C14" => p_http::c14(&mut c),
            "C15" => p_http::c15(&mut c),
            "C16" => p_cel::c16(&mut c),
            "C17" => p_paths::c17(&mut c),
            "C18" => p_paths::c18(&mut c),
            "C19" => p_resp::c19(&mut c),
            "C20" => p_resp::c20(&mut c),
            "C21" => p_resp::c21(&mut c),
            "C22" => p_resp::c22(&mut c),
            "C24" => p_asset::c24(&mut c),
            "C25" => p_asset::c25(&mut c),
            "C28" => p_asset::c28(&mut c),
            "C26" => p_resp::c26(&mut c),
            "C27" => p_resp::c27(&mut c),
            "C23" => p_http::c23(&mut c),
            p => {
                eprintln!("no bounded check for {p}");
                std::process::exit(3);
            }
        }
        let v = match &c.violation {
            None => "null".to_string(),
            Some(v) => format!("{{\"key\":{},\"what\":{},\"case\":{}}}", esc(&v.key), esc(&v.what), esc(&v.case)),
        };
        let k: Vec<String> = c.known_hit.iter().map(|(k, w)| format!("[{},{}]", esc(k), esc(w))).collect();
        println!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":{},\"rules\":{},\"exhaustive_parts\":{},\"known\":[{}],\"violation\":{},\"wall_s\":{:.2}}}",
            c.evaluations, c.distinct.len(), list(&c.samples), list(&c.rules), list(&c.exhaustive_parts), k.join(","), v, c.start.elapsed().as_secs_f64()
        );
    };
    // a call that does not come back is a violation too
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let g = core::WATCH.lock().unwrap();
        if let Some((t, key, case)) = g.as_ref() {
            if t.elapsed() > core::STUCK_AFTER {
                let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (case.0)())).unwrap_or_default();
                println!(
                    "{{\"evaluations\":0,\"distinct_nontrivial\":0,\"samples\":[],\"rules\":[],\"exhaustive_parts\":[],\"known\":[],\"violation\":{{\"key\":{},\"what\":{},\"case\":{}}},\"wall_s\":0}}",
                    esc(&format!("{key}-stuck")), esc(&format!("no answer after {} s", core::STUCK_AFTER.as_secs())), esc(&c)
                );
                std::process::exit(1);
            }
        }
    });
    // a large stack, so that recursion of the reference code is never the limit
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
