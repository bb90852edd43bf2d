use snips_nlu_lib::utils::extract_nlu_engine_zip_archive;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use vx_harness::*;

fn tree(root: &Path, at: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in fs::read_dir(at).unwrap() {
        let p = e.unwrap().path();
        let k = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
        if p.is_dir() { out.insert(k, None); tree(root, &p, out); } else { out.insert(k, Some(fs::read(&p).unwrap())); }
    }
}
fn sanitised(name: &str) -> Vec<String> {
    let n = name.split('\0').next().unwrap().replace('\\', "/");
    n.split('/').filter(|c| !c.is_empty() && *c != "." && *c != "..").map(|c| c.to_string()).collect()
}
fn main() {
    let mut h = H::new();
    // absolute names stay below this directory and the destination lies deep below it, so that even code that
    // ignores the destination or climbs out of it can only write in here
    let dir = tempfile::Builder::new().prefix("c30").tempdir().unwrap();
    fs::create_dir_all(dir.path().join("w1/w2/w3/w4/cwd")).unwrap();
    std::env::set_current_dir(dir.path().join("w1/w2/w3/w4/cwd")).unwrap();
    let comps = ["engine", "a", "b", "..", ".", "", "é", "nlu_engine.json", "x y", "a\\b"];
    let mut k = 0;
    while h.more() {
        k += 1;
        let first = h.rng.pick(&["engine/", "engine/nlu_engine.json", "engine\\nlu_engine.json", "../engine/a", "nlu_engine.json", "@/engine/", "./", "..", "é/x", "engine", "", "@/", "\0"]).to_string();
        let mut entries: Vec<(String, Vec<u8>)> = vec![];
        for i in 0..h.rng.range(0, 6) {
            let name = if i == 0 && h.rng.chance(2, 3) { first.clone() } else {
                let mut s = String::new();
                if h.rng.chance(1, 10) { s.push_str("@/"); }
                let n = h.rng.range(1, 4);
                for j in 0..n { if j > 0 { s.push('/'); } let c: &&str = h.rng.pick(&comps); s.push_str(c); }
                if h.rng.chance(1, 5) { s.push('/'); }
                s
            };
            let data: Vec<u8> = (0..h.rng.below(6)).map(|_| h.rng.below(256) as u8).collect();
            entries.push((name, data));
        }
        let sub = dir.path().join(format!("t{}", k % 4));
        for e in entries.iter_mut() { e.0 = e.0.replace("@", &sub.join("absolute").to_string_lossy()); }
        let mut bytes = zip::build(&entries.iter().map(|(n, d)| (&**n, &**d)).collect::<Vec<_>>());
        let damaged = h.rng.chance(1, 12);
        if damaged { let cut = h.rng.range(0, bytes.len().saturating_sub(1)); bytes.truncate(cut); }
        h.case(&format!("entries {:?} truncated to {:?}", entries, if damaged { Some(bytes.len()) } else { None }), entries.len() > 1, || {
            let _ = fs::remove_dir_all(&sub);
            let dest = sub.join("u1/u2/u3/u4/dest");
            fs::create_dir_all(&dest).unwrap();
            fs::write(sub.join("u1/u2/u3/u4/outside"), b"untouched").unwrap();
            // expected result
            let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
            let mut fails = false;
            for (n, d) in &entries {
                let c = sanitised(n);
                let is_dir = n.ends_with('/') || n.ends_with('\\');
                let mut p = String::new();
                for (j, x) in c.iter().enumerate() {
                    if !p.is_empty() { p.push('/'); }
                    p.push_str(x);
                    let last = j + 1 == c.len();
                    if !last || is_dir { if let Some(Some(_)) = want.get(&p) { fails = true; } else { want.insert(p.clone(), None); } }
                    else if want.get(&p) == Some(&None) { fails = true } else if !fails { want.insert(p.clone(), Some(d.clone())); }
                    if fails { break; }
                }
                if c.is_empty() && !is_dir { fails = true; }
                if fails { break; }
            }
            let got = extract_nlu_engine_zip_archive(std::io::Cursor::new(bytes), &dest);
            // nothing outside the destination
            let mut all = BTreeMap::new();
            tree(&sub, &sub, &mut all);
            for k in all.keys() { ensure(k == "u1/u2/u3/u4/outside" || "u1/u2/u3/u4/dest".starts_with(&**k) || k.starts_with("u1/u2/u3/u4/dest/"), format!("{} written outside the destination", k))?; }
            ensure(fs::read_dir(".").map_err(|e| e.to_string())?.next().is_none(), "something written in the working directory")?;
            expect_eq("file beside the destination", all.get("u1/u2/u3/u4/outside").cloned(), Some(Some(b"untouched".to_vec())))?;
            if damaged { return ensure(got.is_err(), "a truncated archive was accepted"); }
            let root = entries.get(0).and_then(|e| sanitised(&e.0).get(0).cloned());
            if fails || root.is_none() { return ensure(got.is_err(), "an archive that cannot be unpacked, or without directory, was accepted"); }
            let got = got.map_err(|e| format!("error {}", e))?;
            expect_eq("engine directory", got, dest.join(PathBuf::from(root.unwrap())))?;
            let mut have = BTreeMap::new();
            tree(&dest, &dest, &mut have);
            expect_eq("unpacked files", have, want)
        });
    }
    h.finish("archives with hostile, nested, conflicting and truncated entries, unpacked in a scratch directory; non-trivial: several entries");
}
