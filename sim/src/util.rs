//! Configurations, networks and small helpers shared by the scenarios.
use crate::fw::*;
use crate::sim::mix;
use config::Config;
use die_e::alphazero::alphazero::{AlphaZero, AlphaZeroConfig, OptimizerParams};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::MctsConfig;
use tch::{nn::VarStore, Tensor};

pub fn flat(t: &Tensor) -> Vec<f32> { let t = t.to_kind(tch::Kind::Float).contiguous().view([-1]); Vec::<f32>::try_from(&t).expect("tensor") }

#[derive(Clone, Debug)]
pub struct Cfg { pub temperature: f64, pub learn: i64, pub epochs: i64, pub tbatch: i64, pub sp: i64, pub nsp: i64, pub iters: i64, pub c: f64, pub limit: i64, pub alpha: f64, pub eps: f64, pub wd: f64, pub lr: f64 }
impl Default for Cfg { fn default() -> Self { Cfg { temperature: 1.25, learn: 1, epochs: 1, tbatch: 16, sp: 1, nsp: 3, iters: 3, c: 2.0, limit: 60, alpha: 0.3, eps: 0.25, wd: 0.0001, lr: 0.001 } } }
impl Cfg {
    pub fn toml(&self) -> String {
        format!("temperature = {:?}\nlearn_iterations = {}\nnum_epochs = {}\ntraining_batch_size = {}\nself_play_iterations = {}\nnum_self_play_batches = {}\niterations = {}\nexploration_const = {:?}\nsimulate_round_limit = {}\ndirichlet_alpha = {:?}\ndirichlet_epsilon = {:?}\nwd = {:?}\nlr = {:?}\n",
            self.temperature, self.learn, self.epochs, self.tbatch, self.sp, self.nsp, self.iters, self.c, self.limit, self.alpha, self.eps, self.wd, self.lr).replace("NaN", "nan")
    }
    pub fn conf(&self) -> Config { Config::builder().add_source(config::File::from_str(&self.toml(), config::FileFormat::Toml)).build().unwrap() }
    pub fn mcts(&self) -> MctsConfig { MctsConfig::from_config(&self.conf()).unwrap() }
    pub fn az<G: LearnableGame>(&self, model: Option<std::path::PathBuf>) -> AlphaZero {
        let c = self.conf(); AlphaZero::new::<G>(model, AlphaZeroConfig::from_config(&c).unwrap(), MctsConfig::from_config(&c).unwrap(), OptimizerParams::from_config(&c).unwrap())
    }
}

/// Fills the variables of a network from a seed; `ps`, `vs` scale the last policy and value layers.
pub fn fill(vs_: &VarStore, actions: i64, seed: u64, ps: f64, vs: f64) {
    tch::no_grad(|| {
        let mut vars: Vec<(String, Tensor)> = vs_.variables().into_iter().collect(); vars.sort_by(|a, b| a.0.cmp(&b.0));
        for (name, mut t) in vars {
            let size = t.size(); let n: i64 = size.iter().product(); let mut r = Rng::new(seed ^ hash_str(&name)); let fan: i64 = size.iter().skip(1).product::<i64>().max(1);
            let last_p = size.first() == Some(&actions) && size.len() <= 2; let last_v = size.first() == Some(&1) && size.len() <= 2;
            let k = if last_p { ps } else if last_v { vs } else { 1.0 };
            let v: Vec<f32> = (0..n).map(|_| { let u = r.f(); (if size.len() >= 2 { k * (2.0 * u - 1.0) * (3.0 / fan as f64).sqrt() } else if name.contains("bias") || name.contains("mean") { k * (0.6 * u - 0.3) } else { 0.5 + u }) as f32 }).collect();
            t.copy_(&Tensor::from_slice(&v).view(size.as_slice()));
        }
    })
}
/// A network whose outputs do not depend on the position: policy = softmax(logits), value = tanh(v).
pub fn fill_const(vs_: &VarStore, logits: &[f32], v: f32) {
    tch::no_grad(|| for (_, mut t) in vs_.variables() {
        let size = t.size(); let a = logits.len() as i64;
        if size.len() == 2 && (size[0] == a || size[0] == 1) { let _ = t.zero_(); }
        else if size == [a] { t.copy_(&Tensor::from_slice(logits)); } else if size == [1] { t.copy_(&Tensor::from_slice(&[v])); }
    })
}
pub fn net<G: LearnableGame>(seed: u64, ps: f64, vs: f64) -> ResNet { let n = ResNet::new::<G>(VarStore::new(tch::Device::Cpu)); fill(&n.vs, G::ACTION_SPACE_SIZE, seed, ps, vs); n }
pub fn net_const<G: LearnableGame>(logits: &[f32], v: f32) -> ResNet { let n = net::<G>(7, 1.0, 0.5); fill_const(&n.vs, logits, v); n }
pub fn weights(vs: &VarStore) -> Vec<(String, Vec<f32>)> { let mut v: Vec<_> = vs.variables().into_iter().map(|(n, t)| { let s = t.size(); (format!("{}{:?}", n, s), flat(&t)) }).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); v }
pub fn same_weights(a: &[(String, Vec<f32>)], b: &[(String, Vec<f32>)]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| p.to_bits() == q.to_bits())) }
pub fn whash(a: &[(String, Vec<f32>)]) -> u64 { let mut h = 1; for (n, v) in a { h = mix(h ^ hash_str(n) ^ hash_f32s(v)); } h }

/// The network's own evaluation (policy, value) of positions, outside the simulated run.
pub fn evals<G: LearnableGame>(net: &ResNet, states: &[G]) -> Vec<(Vec<f32>, f32)> {
    let _g = tch::no_grad_guard(); let mut r = vec![];
    for c in states.chunks(64) {
        let x = Tensor::concat(&c.iter().map(|s| s.as_tensor()).collect::<Vec<_>>(), 0);
        let (p, v) = net.forward_t(&x, false); let (p, v) = (flat(&p), flat(&v)); let a = G::ACTION_SPACE_SIZE as usize;
        for i in 0..c.len() { r.push((p[i * a..(i + 1) * a].to_vec(), v[i])); }
    }
    r
}
pub fn result_for(winner: i8, side: i8) -> f64 { if winner == 0 { 0.0 } else if winner == side { 1.0 } else { -1.0 } }
pub fn newplan() -> Plan { Plan { prop: String::new(), scen: String::new(), p: Default::default(), sim: Default::default() } }
