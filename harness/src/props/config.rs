//! C19: the configuration the real server starts with.

use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Outcome, Prop, Stats, Tier};
use crate::scratch::Scratch;
use crate::ensure;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Given {
    pub value: Vec<u8>,
    /// --flag=value instead of --flag value
    pub eq: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Start {
    pub db: Option<Given>,
    pub port: Option<Given>,
    pub seeds: Option<Given>,
    pub env_db: Option<Vec<u8>>,
    pub env_port: Option<Vec<u8>>,
    pub env_seeds: Option<Vec<u8>>,
    /// order of the flags
    pub order: u8,
    /// an argument the server does not know
    pub stray: Option<(String, u8)>,
}

pub struct Settings;

const FLAGS: [&str; 3] = ["--db-path", "--gossip-port", "--seeds"];
const ENVS: [&str; 3] = ["MK_DB_PATH", "MK_GOSSIP_PORT", "MK_SEEDS"];

fn port_of(v: &[u8]) -> Option<u16> {
    let s = std::str::from_utf8(v).ok()?;
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

fn list(line: &str) -> Option<Vec<u8>> {
    line.trim()
        .strip_prefix('[')?
        .strip_suffix(']')?
        .split(',')
        .map(|x| x.trim())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().ok())
        .collect()
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// No value may look like a flag when it stands alone, nor be empty after '='.
fn word() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        5 => "[a-zA-Z0-9_./]{1,12}",
        2 => "[a-z ='\",]{1,10}",
        2 => "\\PC{1,10}",
        1 => Just("/nonexistent/meerkat data".to_string()),
        1 => "[a-z]{100,300}",
    ]
    .prop_map(|s| s.into_bytes())
    .boxed()
}

fn path() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => word(),
        // any bytes but NUL
        2 => vec(1u8..=255, 1..=10),
        1 => Just(b"-rf".to_vec()),
        1 => Just(b" lead and trail ".to_vec()),
    ]
    .boxed()
}

fn port() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => any::<u16>().prop_map(|p| p.to_string()),
        2 => prop_oneof![
            Just("0"), Just("1"), Just("80"), Just("255"), Just("256"), Just("32767"), Just("32768"), Just("65535"),
            Just("7775"), Just("7776"),
        ].prop_map(|s| s.to_string()),
        // malformed or out of range
        3 => prop_oneof![
            Just(""), Just("65536"), Just("65537"), Just("70000"), Just("131071"), Just("4294967296"),
            Just("4295043071"), Just("18446744073709551616"), Just("18446744073709551617"),
            Just("99999999999999999999999999"), Just("-1"), Just("-0"), Just("abc"), Just("80a"),
            Just("a80"), Just("1.5"), Just("0x50"), Just(" 80"), Just("80 "), Just("8 0"), Just("1e3"), Just("７"),
            Just("7,775"), Just("7775,"), Just("7775/tcp"), Just("1_000"), Just("\u{0}"),
        ].prop_map(|s| s.replace('\0', "x")),
        1 => (65_536u64..=u64::MAX).prop_map(|n| n.to_string()),
    ]
    .prop_map(|s| s.into_bytes())
    .boxed()
}

fn seeds() -> BoxedStrategy<Vec<u8>> {
    let entry = prop_oneof![
        4 => "[a-z0-9.-]{1,10}",
        1 => "[a-z0-9]{1,5}:[0-9]{1,4}",
        1 => "[a-z]{1,4} [a-z]{1,4}",
        1 => "\\[[0-9a-f:]{1,8}\\]:1",
        1 => "[;|/]{1,3}",
        1 => "[é漢]{1,3}",
        2 => Just(String::new()),
    ];
    let pad = prop_oneof![
        4 => Just(""), 2 => Just(" "), 1 => Just("\t"), 1 => Just("\n"), 1 => Just("   "), 1 => Just("\r\n"),
    ];
    let one = (pad.clone(), entry, pad).prop_map(|(a, b, c)| format!("{}{}{}", a, b, c));
    prop_oneof![
        9 => vec(one, 0..=6).prop_map(|v| v.join(",")),
        1 => (1usize..400).prop_map(|n| (0..n).map(|i| format!("h{}", i)).collect::<Vec<_>>().join(",")),
        1 => ",{0,5}".prop_map(|s| s),
    ]
    .prop_map(|s| s.into_bytes())
    .boxed()
}

fn given(v: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Given> {
    (v, any::<bool>())
        .prop_map(|(value, eq)| {
            let mut eq = eq;
            if value.first() == Some(&b'-') {
                eq = true;
            }
            // clap drops further '=' after the first
            if value.is_empty() || value[0] == b'=' {
                eq = false;
            }
            Given { value, eq }
        })
        .boxed()
}

impl Start {
    /// None: the server must not start.
    fn expected(&self) -> Option<(Vec<u8>, u16, Vec<String>)> {
        if self.stray.is_some() {
            return None;
        }
        let db = self.db.as_ref().map(|g| &g.value).or(self.env_db.as_ref())?;
        let port = match self.port.as_ref().map(|g| &g.value).or(self.env_port.as_ref()) {
            None => 7775,
            Some(v) => port_of(v)?,
        };
        let seeds = self
            .seeds
            .as_ref()
            .map(|g| &g.value)
            .or(self.env_seeds.as_ref())
            .map(|v| text(v))
            .unwrap_or_default();
        let seeds = seeds
            .split(',')
            .map(|s| s.trim().to_string())
            .filter(|s| !s.is_empty())
            .collect();
        Some((db.clone(), port, seeds))
    }
    fn args(&self) -> Vec<OsString> {
        let mut groups: Vec<Vec<Vec<u8>>> = vec![];
        for (flag, g) in FLAGS.iter().zip([&self.db, &self.port, &self.seeds]) {
            if let Some(g) = g {
                if g.eq {
                    let mut a = format!("{}=", flag).into_bytes();
                    a.extend_from_slice(&g.value);
                    groups.push(vec![a]);
                } else {
                    groups.push(vec![flag.as_bytes().to_vec(), g.value.clone()]);
                }
            }
        }
        if groups.len() > 1 {
            let n = groups.len();
            groups.rotate_left(self.order as usize % n);
            if self.order & 0x80 != 0 {
                groups.swap(0, n - 1);
            }
        }
        if let Some((s, at)) = &self.stray {
            let at = *at as usize % (groups.len() + 1);
            groups.insert(at, vec![s.as_bytes().to_vec()]);
        }
        groups.into_iter().flatten().map(OsString::from_vec).collect()
    }
}

impl Settings {
    fn overridden_malformed(&self, c: &Start) -> bool {
        c.port.is_some() && c.env_port.as_ref().map_or(false, |v| port_of(v).is_none())
    }
}

impl Prop for Settings {
    type Case = Start;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "A case is a combination of --db-path, --gossip-port and --seeds, each given or not, in either form and any order, \
         with MK_DB_PATH, MK_GOSSIP_PORT and MK_SEEDS, each set or not, with generated values (Unicode and raw bytes, blank \
         and padded seeds, malformed and out-of-range ports), sometimes with an argument the server does not know. The real \
         server binary is started with it and reports the configuration it hands to the server. Non-trivial: a flag and an \
         environment variable are both given, or the start must fail."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "no flag is given twice, values starting with '-' are given as --flag=value, those starting with '=' as --flag value, \
             seeds are UTF-8",
            "an empty data directory, a port written with a sign or leading zeros, a malformed variable \
             overridden by a good flag stopping the start: not judged",
        ]
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Start> {
        let env_seeds = seeds();
        (
            prop::option::weighted(0.7, given(path())),
            prop::option::weighted(0.5, given(port())),
            prop::option::weighted(0.5, given(seeds())),
            prop::option::weighted(0.5, path()),
            prop::option::weighted(0.4, port()),
            prop::option::weighted(0.4, env_seeds),
            any::<u8>(),
            prop::option::weighted(
                0.06,
                (
                    prop_oneof![
                        Just("--nope"), Just("--port=1"), Just("stray"), Just("--db_path=x"), Just("-x"), Just("--gossip-por=7"),
                    ]
                    .prop_map(|s| s.to_string()),
                    any::<u8>(),
                ),
            ),
        )
            .prop_map(|(db, port, seeds, env_db, env_port, env_seeds, order, stray)| {
                // a port with leading zeros is not judged
                let plain = |v: &Vec<u8>| v.len() < 2 || v[0] != b'0' || port_of(v).is_none();
                Start {
                    db,
                    port: port.filter(|g| plain(&g.value)),
                    seeds,
                    env_db,
                    env_port: env_port.filter(plain),
                    env_seeds,
                    order,
                    stray,
                }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 400_000,
        }
    }
    fn run(&self, c: &Start) -> Outcome {
        let server = std::env::var_os("VERIF_MEERKAT").expect("VERIF_MEERKAT");
        let dir = Scratch::new();
        let mut cmd = Command::new(server);
        cmd.args(c.args())
            .env_clear()
            .current_dir(dir.path())
            .stdin(Stdio::null());
        for (k, v) in ENVS.iter().zip([&c.env_db, &c.env_port, &c.env_seeds]) {
            if let Some(v) = v {
                cmd.env(k, OsString::from_vec(v.clone()));
            }
        }
        let out = cmd.output().expect("server");
        let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
        let lines: Vec<&str> = stdout.lines().filter_map(|l| l.strip_prefix("VERIF ")).collect();
        let mut s = Stats::default();
        let both = (c.db.is_some() && c.env_db.is_some())
            || (c.port.is_some() && c.env_port.is_some())
            || (c.seeds.is_some() && c.env_seeds.is_some());
        match c.expected() {
            None => {
                ensure!(
                    !out.status.success(),
                    "the settings are not acceptable but the server ended with success: {:?}",
                    lines
                );
                ensure!(
                    lines.is_empty(),
                    "the settings are not acceptable but the server started with {:?}",
                    lines
                );
                s.nontrivial = true;
                s.class(true, "start refused");
            }
            // a flag overrides a malformed variable: whether that stops the start is not judged
            Some(_) if self.overridden_malformed(c) && !out.status.success() => {
                ensure!(
                    lines.is_empty(),
                    "the server started with {:?} and ended with failure",
                    lines
                );
                s.class(true, "flag over malformed environment");
            }
            Some((db, port, seeds)) => {
                ensure!(
                    out.status.success(),
                    "acceptable settings are refused: {} {}",
                    out.status,
                    text(&out.stderr)
                );
                let get = |k: &str| -> Vec<&str> {
                    lines
                        .iter()
                        .filter_map(|l| l.strip_prefix(k))
                        .collect()
                };
                let (d, p, q) = (get("db_path "), get("gossip_port "), get("seed "));
                ensure!(
                    d.len() == 1 && p.len() == 1,
                    "the server reports {:?}",
                    lines
                );
                let got = list(d[0]).unwrap_or_default();
                ensure!(
                    got == db,
                    "data directory {:?} instead of {:?}",
                    text(&got),
                    text(&db)
                );
                ensure!(
                    p[0] == port.to_string(),
                    "gossip port {} instead of {}",
                    p[0],
                    port
                );
                let got: Vec<String> = q
                    .iter()
                    .map(|l| text(&list(l).unwrap_or_default()))
                    .collect();
                ensure!(got == seeds, "seeds {:?} instead of {:?}", got, seeds);
                s.nontrivial = both;
                s.class(true, "started");
                s.class(seeds.len() > 1, "several seeds");
                s.class(c.port.is_none() && c.env_port.is_none(), "default port");
            }
        }
        s.class(both, "flag over environment");
        Ok(s)
    }
}
