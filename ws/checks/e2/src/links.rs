//! Lists of files offered by servers.
use std::{collections::HashMap, sync::Arc};

use e2store::utils::{get_e2hs_files, get_e2ss_files, get_era1_files, get_era_files, get_shuffled_era1_files};
use vcommon::{json, Ctx};

const URLS: [(&str, &str, &str); 4] = [
    ("era", "https://mainnet.era.nimbus.team/", "era"),
    ("e2hs", "https://e2hs.ethportal.net/index.html", "e2hs"),
    ("era1", "https://era1.ethportal.net/index.html", "era1"),
    ("e2ss", "https://e2ss.ethportal.net/index.html", "e2ss"),
];

pub fn link_lists(c: &mut Ctx) {
    c.rule("the list of files has exactly the offered links by epoch, and lists with gaps or of the wrong size are refused");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    for i in 0..c.n(120, 1500) {
        let mut r = c.rng.fork(&format!("links{i}"));
        let which = (i % 4) as usize;
        let (kind, url, ext) = URLS[which];
        let n = match (kind, r.below(4)) {
            ("era1", 0) => 1896,
            ("era1", 1) => 1898,
            ("era1", _) => 1897,
            (_, 0) => 0,
            (_, 1) => 1,
            _ => r.index(60),
        };
        let mut epochs: Vec<u64> = (0..n as u64).collect();
        let mut gap = false;
        if r.chance(1, 3) && n > 1 {
            // one missing, the last one shifted so that the number stays
            let k = r.index(n);
            epochs[k] = n as u64 + r.below(5);
            gap = epochs[k] != k as u64;
        }
        r.shuffle(&mut epochs);
        let mut page = String::from("<html><body><a href=\"../\">up</a><a href='other.txt'>x</a>");
        let mut want = HashMap::new();
        let base = &url[..url.rfind('/').expect("a path") + 1];
        for e in &epochs {
            let name = format!("mainnet-{e:05}-{:08x}.{ext}", r.u32());
            let href = match r.below(3) {
                0 => format!("./{name}"),
                1 => format!("{base}{name}"),
                _ => name.clone(),
            };
            page += &format!("<a class=\"x\" href=\"{href}\">{name}</a><br>");
            want.insert(*e, format!("{base}{name}"));
        }
        let fail = r.chance(1, 10);
        let asked = Arc::new(std::sync::Mutex::new(vec![]));
        let (p, a) = (page.clone(), asked.clone());
        reqwest::answered_by(Some(Arc::new(move |_, u, _| {
            a.lock().unwrap().push(u.to_string());
            (!fail).then(|| (200, p.clone().into_bytes()))
        })));
        let http = reqwest::Client::new();
        let what = || format!("{kind} list of {n}, gap {gap}, failing {fail}");
        let got = c.no_panic("links-panic", what, || {
            rt.block_on(async {
                match kind {
                    "era" => get_era_files(&http).await,
                    "e2hs" => get_e2hs_files(&http).await,
                    "era1" => get_era1_files(&http).await,
                    _ => get_e2ss_files(&http).await,
                }
            })
        });
        let Some(got) = got else { continue };
        c.eval("list", &(kind, n, gap, fail));
        let ok = !fail
            && match kind {
                "e2ss" => true,
                "era1" => n == 1897 && !gap,
                _ => n > 0 && !gap,
            };
        c.check_eq(&got.is_ok(), &ok, if ok { "list-refused" } else { "list-accepted" }, what);
        c.event(if ok { "accepted list" } else { "refused list" });
        if let Ok(g) = got {
            c.check(g == want, "links", what);
        }
        c.check_eq(&*asked.lock().unwrap(), &vec![url.to_string()], "asked", what);
        if kind == "era1" {
            let s = rt.block_on(get_shuffled_era1_files(&http));
            c.check_eq(&s.is_ok(), &ok, "shuffled-list", what);
            if let Ok(s) = s {
                let mut a = s;
                a.sort();
                let mut b: Vec<String> = want.into_values().collect();
                b.sort();
                c.check(a == b, "shuffled-links", what);
            }
        }
    }
    reqwest::answered_by(None);
    c.sample("lists", || json!("see events"));
    c.require("accepted list", 20);
    c.require("refused list", 10);
}
