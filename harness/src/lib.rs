#![allow(clippy::needless_range_loop, clippy::type_complexity, clippy::too_many_arguments)]
pub mod gen;
pub mod gf;
pub mod heap;
pub mod kit;
pub mod log;
pub mod matrices;
pub mod obj;
pub mod probe;
pub mod rng;
pub mod scalar;
pub mod scen;
pub mod statics;
pub mod world;
pub mod worlds;

/// Command line arguments `name=value`.
pub struct Args(Vec<(String, String)>);
pub fn args() -> Args {
    Args(std::env::args().skip(1).map(|a| a.split_once('=').map(|(k, v)| (k.into(), v.into())).unwrap_or((a.clone(), "1".into()))).collect())
}
impl Args {
    pub fn opt(&self, k: &str) -> Option<String> {
        self.0.iter().find(|a| a.0 == k).map(|a| a.1.clone())
    }
    pub fn get(&self, k: &str) -> String {
        self.opt(k).unwrap_or_else(|| panic!("missing argument {k}="))
    }
    pub fn num(&self, k: &str, default: usize) -> usize {
        self.opt(k).map(|v| v.parse().unwrap()).unwrap_or(default)
    }
    pub fn list(&self, k: &str) -> Vec<String> {
        self.opt(k).map(|v| v.split(',').map(|s| s.to_string()).collect()).unwrap_or_default()
    }
}
