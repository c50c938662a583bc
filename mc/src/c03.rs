//! Profiles: names compared without case, and selection by history.

use figment::{Figment, Profile};
use crate::c02::reads;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

fn check(cx: &mut Cx, f: &Figment, c: &Conf) -> R {
    cx.checked(1);
    ensure!(f.profile() == c.profile.as_str(), "selected",
        "selected profile is {:?}, expected {:?}", f.profile(), c.profile);
    let mut got: Vec<String> = f.profiles().map(|p| p.as_str().as_str().to_ascii_lowercase()).collect();
    got.sort();
    let want: Vec<String> = c.data.keys().cloned().collect();
    ensure_eq!(got, want, "profiles", "profiles()");
    reads(cx, f, c)
}

const NAMES: [&str; 7] = ["one", "ONE", "oNe", "two", "Default", "GLOBAL", "none"];

fn data(p: &str, i: usize) -> std::collections::BTreeMap<String, Tree> {
    let mut t = one("k", N::i(i as i64));
    t.insert(format!("own{i}"), N::s(p));
    [(p.to_string(), t)].into_iter().collect()
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];

    let max = tier.sel(3, 4);
    v.push(Scenario::new(
        "histories",
        format!("every history of up to {max} steps: selecting one of 7 names (in case variants), \
            or adding by any operation a source without selection, a source with one, or a \
            configuration with one, with data in a profile of any of the names"),
        move |cx| {
            let mut f = Figment::new();
            let mut c = Conf::new();
            let n = cx.pick(max) + 1;
            let mut id = 0;
            for i in 0..n {
                let name = *cx.of(&NAMES);
                match cx.pick(13) {
                    0 => {
                        cx.op(|| format!("select {name}"));
                        f = f.select(name);
                        c.profile = name.to_ascii_lowercase();
                    }
                    k => {
                        let op = OPS[(k - 1) % 4];
                        id += 1;
                        // Data goes elsewhere than where the selection points.
                        let (at, sel) = match (k - 1) / 4 {
                            0 => (name, None),
                            _ => (["one", "two", "ONE"][i % 3], Some(name)),
                        };
                        let s = Source {
                            id, data: Ok(data(at, i)), profile: sel.map(|s| s.to_string()),
                        };
                        if (k - 1) / 4 == 2 {
                            cx.op(|| format!("{op:?} configuration selecting {name}: {at}"));
                            let mut inner = Conf::new();
                            let s = Source { profile: None, ..s };
                            inner.add(&s, Op::Merge);
                            inner.profile = name.to_ascii_lowercase();
                            let fi = Figment::new().merge(P::of(&s)).select(name);
                            id += 1;
                            f = op.apply(f, fi);
                            c.add_conf(&inner, id, op);
                        } else {
                            cx.op(|| format!("{op:?} {s:?}"));
                            f = op.apply(f, P::of(&s));
                            c.add(&s, op);
                        }
                    }
                }
                cx.state(&c);
            }
            cx.outcome(&(c.profile.clone(), c.effective()));
            check(cx, &f, &c)
        }
    ));

    v.push(Scenario::new(
        "case",
        "profile names of every ASCII character and its other case, at every position of names of \
         up to 4 characters, and 8 non-ASCII ones: equal without ASCII case, everywhere",
        |cx| {
            let pos = cx.pick(4);
            let len = pos + 1 + cx.pick(4 - pos);
            let i = cx.pick(128 + 8);
            let c: char = if i < 128 {
                i as u8 as char
            } else {
                ['é', 'É', 'ß', 'İ', 'ı', 'K', 'Σ', 'ς'][i - 128]
            };
            let flip = |c: char| match c {
                c if c.is_ascii_uppercase() => c.to_ascii_lowercase(),
                c => c.to_ascii_uppercase(),
            };
            let name: String = (0..len).map(|j| if j == pos { c } else { 'x' }).collect();
            let other: String = match cx.pick(3) {
                0 => name.chars().map(flip).collect(),
                1 => name.chars().enumerate().map(|(j, c)| if j == pos { flip(c) } else { c }).collect(),
                _ => name.chars().enumerate()
                    .map(|(j, c)| if j == pos { std::char::from_u32(c as u32 ^ 0x20).unwrap_or('?') } else { c })
                    .collect(),
            };
            let equal = name.eq_ignore_ascii_case(&other);
            cx.op(|| format!("{name:?} vs {other:?}: {equal}"));
            cx.state(&(&name, &other));
            cx.outcome(&equal);
            let (a, b) = (Profile::new(&name), Profile::from(other.as_str()));
            cx.checked(8);
            ensure!((a == b) == equal, "eq", "{a:?} == {b:?}");
            ensure!((&a == b) == equal && (a == &b) == equal, "eq", "&: {a:?} == {b:?}");
            ensure!((a == *other.as_str()) == equal && (a == other.as_str()) == equal, "eq", "str");
            ensure!((*other.as_str() == a) == equal && (other.as_str() == a) == equal, "eq", "str");
            ensure!((a.cmp(&b) == std::cmp::Ordering::Equal) == equal, "ord", "{a:?} cmp {b:?}");
            ensure!(hash(&a) == hash(&b) || !equal, "hash", "hashes of {a:?} and {b:?}");
            ensure!(a.to_string().eq_ignore_ascii_case(&name), "display", "{a} for {name:?}");
            ensure!(String::from(a.clone()).eq_ignore_ascii_case(&name), "string", "{a:?}");

            let d = |p: &str| P::ok(1, p, &one("k", N::s("v")));
            let f = Figment::new().merge(d(&name)).select(other.as_str());
            ensure!(f.contains("k") == equal, "select",
                "data in {name:?} is seen when {other:?} is selected: {}", f.contains("k"));
            let f = f.merge(d(&other));
            ensure!(f.profiles().count() == if equal { 1 } else { 2 }, "profiles",
                "data in {name:?} and {other:?}: {:?}", f.profiles().collect::<Vec<_>>());
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "names",
        "kind of profile, prefix tests and serialization of names",
        |cx| {
            let names = ["default", "DEFAULT", "Default", "global", "gLOBAL", "Global", "defaul",
                "defaultx", "globals", "globa", "", "x", "custom", "a b", "é"];
            let n = *cx.of(&names);
            let p = Profile::new(n);
            cx.op(|| format!("{n:?}"));
            cx.state(n);
            let lower = n.to_ascii_lowercase();
            cx.checked(5);
            ensure!(p.is_custom() == (lower != "default" && lower != "global"), "custom", "{n:?}");
            ensure!((p == Profile::Default) == (lower == "default"), "default", "{n:?}");
            ensure!((p == Profile::Global) == (lower == "global"), "global", "{n:?}");
            for i in 0..=n.len() {
                if !n.is_char_boundary(i) { continue; }
                let pre = n[..i].to_ascii_uppercase();
                ensure!(p.starts_with(&pre), "starts_with", "{n:?} starts with {pre:?}");
                ensure!(!p.starts_with(&format!("{pre}!")), "starts_with", "{n:?} {pre:?}!");
            }
            let v = figment::value::Value::serialize(&p).unwrap();
            ensure!(v.as_str() == Some(n), "serialize", "{n:?} serialized as {v:?}");
            let q: Profile = v.deserialize().unwrap();
            ensure!(p == q, "deserialize", "{n:?} -> {q:?}");
            ensure!(Figment::new().profile() == Profile::Default, "initial", "initial profile");
            ensure!(Profile::default() == Profile::Default, "default()", "Profile::default()");
            let c = p.collect(figment::value::Dict::new());
            ensure!(c.len() == 1 && c.contains_key(&p), "collect", "{c:?}");
            Ok(())
        }
    ));

    v.push(Scenario::new(
        "env",
        "a profile from an environment variable: 4 spellings of the variable, 6 of the name asked \
         for, 6 values, set or not, among other variables",
        |cx| {
            for k in ["MC_PROF", "mc_prof", "Mc_Prof", " MC_PROF ", "MC_PROF2", "XMC_PROF"] {
                std::env::remove_var(k);
            }
            let var = *cx.of(&["MC_PROF", "mc_prof", "Mc_Prof", " MC_PROF "]);
            let ask = *cx.of(&["MC_PROF", "mc_prof", "mC_pRoF", "MC_PRO", "MC_PROF ", "C_PROF"]);
            let val = *cx.of(&["one", "ONE", "", " x ", "default", "é"]);
            let set = cx.flag();
            let other = cx.flag();
            if other {
                std::env::set_var("MC_PROF2", "other");
                std::env::set_var("XMC_PROF", "other");
            }
            if set { std::env::set_var(var, val); }
            cx.op(|| format!("{var:?}={val:?} set={set}, ask {ask:?}"));
            cx.state(&(var, ask, val, set, other));
            let want = (set && var.trim().eq_ignore_ascii_case(ask)).then(|| val);
            let got = Profile::from_env(ask);
            cx.outcome(&want);
            cx.checked(2);
            ensure_eq!(got.as_ref().map(|p| p.as_str().as_str()), want, "from_env", "from_env({ask:?})");
            let got = Profile::from_env_or(ask, "fallback");
            ensure_eq!(got.as_str().as_str(), want.unwrap_or("fallback"), "from_env_or", "from_env_or");
            Ok(())
        }
    ));

    v
}
