//! Games driven by the harness: thin recording wrappers around the real games (small networks), and a
//! synthetic game whose length, winner, passes and legal codes are chosen by the plan.
use crate::sim::{mix, yield_point};
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde::{Deserialize, Serialize};
use tch::Tensor;

pub const NONE: u32 = u32::MAX;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { New, Apply, Skip, Roll, SetId }
#[derive(Clone, Copy, Debug)]
pub struct Ev { pub parent: u32, pub root: u32, pub kind: Kind, pub code: u32, pub player: i8, pub snap: [i8; 32], pub tid: i32 }
pub struct World { pub log: Vec<Ev>, pub on: bool, pub yields: bool, pub news: u32, pub toy: ToyCfg, pub ranks: Vec<u32>, pub tensors: u64, pub depths: Vec<u32>, /// per event: when the game starting with it was first looked at (moves asked for, shown to a network)
    pub looked: Vec<u32>, /// a line of more events than this has no end in sight (0: not looked at)
    pub endless: usize }
static mut WORLD: World = World { log: vec![], on: false, yields: false, news: 0, toy: ToyCfg::DEF, ranks: vec![], tensors: 0, depths: vec![], looked: vec![], endless: 0 };
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World { unsafe { &mut WORLD } }
pub fn record(toy: ToyCfg, on: bool, yields: bool) { let w = world(); w.log.clear(); w.depths.clear(); w.looked.clear(); w.on = on; w.yields = yields; w.news = 0; w.toy = toy; w.tensors = 0; w.endless = 0;
    let n = toy.games.max(1); let mut idx: Vec<u32> = (0..n).collect(); let mut s = toy.seed; for i in (1..n as usize).rev() { s = mix(s); idx.swap(i, (s % (i as u64 + 1)) as usize); } w.ranks = idx; }
fn push(parent: u32, kind: Kind, code: u32, player: i8, snap: [i8; 32]) -> u32 {
    let w = world(); if w.yields { yield_point(1); }
    if !w.on || w.log.len() >= 12_000_000 { return NONE; }
    let i = w.log.len() as u32; let root = if parent == NONE { i } else { w.log[parent as usize].root };
    let depth = if parent == NONE { 0 } else { w.depths[parent as usize] + 1 }; w.depths.push(depth); w.looked.push(NONE); if w.endless > 0 && depth as usize > w.endless { w.on = false; panic!("a game goes on and on: {} moves made in it", depth); }
    w.log.push(Ev { parent, root, kind, code, player, snap, tid: crate::sim::tid() }); i
}
fn look(node: u32) { let w = world(); if !w.on || node == NONE { return; } let n = w.log.len() as u32; if let Some(e) = w.log.get(node as usize) { let at = &mut w.looked[e.root as usize]; if *at == NONE { *at = n; } } }
/// The events of one game in order, ending with the last event recorded for the game rooted at `root`.
pub fn true_path(root: u32) -> Vec<Ev> {
    let w = world(); let last = match w.log.iter().rposition(|e| e.root == root) { Some(i) => i, None => return vec![] };
    path_to(last as u32)
}
pub fn path_to(node: u32) -> Vec<Ev> { let w = world(); let mut v = vec![]; let mut i = node; while i != NONE { v.push(w.log[i as usize]); i = w.log[i as usize].parent; } v.reverse(); v }
/// All last events in one pass: root -> node index.
pub fn last_of_roots() -> std::collections::BTreeMap<u32, u32> { let mut m = std::collections::BTreeMap::new(); for (i, e) in world().log.iter().enumerate() { m.insert(e.root, i as u32); } m }

// ------------------------------------------------------------------ wrappers
pub trait Inner: LearnableGame { fn snap(&self) -> [i8; 32]; fn put(s: &[i8; 32]) -> Self; const EMPTY: <Self as LearnableGame>::Move; }
impl Inner for Backgammon {
    const EMPTY: Self::Move = vec![];
    fn snap(&self) -> [i8; 32] { let mut s = [0; 32]; s[..24].copy_from_slice(&self.board.0); s[24] = self.board.1 .0 as i8; s[25] = self.board.1 .1 as i8; s[26] = self.board.2 .0 as i8; s[27] = self.board.2 .1 as i8; s[28] = self.roll.0 as i8; s[29] = self.roll.1 as i8; s[30] = self.player; s[31] = self.is_second_play as i8; s }
    fn put(s: &[i8; 32]) -> Self { let mut b = [0i8; 24]; b.copy_from_slice(&s[..24]); let mut g = Backgammon::init_with_fields((b, (s[24] as u8, s[25] as u8), (s[26] as u8, s[27] as u8)), s[30], s[31] != 0); g.roll = (s[28] as u8, s[29] as u8); g }
}
impl Inner for TicTacToe {
    const EMPTY: u8 = 10;
    fn snap(&self) -> [i8; 32] { let mut s = [0; 32]; s[..9].copy_from_slice(&self.board); s[30] = self.get_player(); s }
    fn put(s: &[i8; 32]) -> Self { let mut g = <TicTacToe as LearnableGame>::new(); g.board.copy_from_slice(&s[..9]); if s[30] != g.get_player() { LearnableGame::skip_turn(&mut g); } g }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct W<G: Inner> { pub g: G, #[serde(skip, default = "none")] pub node: u32 }
fn none() -> u32 { NONE }
impl<G: Inner> W<G> { pub fn of(g: G) -> Self { let n = push(NONE, Kind::New, 0, g.get_player(), g.snap()); W { g, node: n } } }
impl<G: Inner> LearnableGame for W<G> {
    type Move = G::Move;
    const EMPTY_MOVE: G::Move = G::EMPTY;
    const IS_DETERMINISTIC: bool = G::IS_DETERMINISTIC;
    const ACTION_SPACE_SIZE: i64 = G::ACTION_SPACE_SIZE;
    const N_INPUT_CHANNELS: i64 = G::N_INPUT_CHANNELS;
    const CONV_OUTPUT_SIZE: i64 = G::CONV_OUTPUT_SIZE;
    const N_FILTERS: i64 = 4;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self { world().news += 1; Self::of(<G as LearnableGame>::new()) }
    fn name() -> String { G::name() }
    fn get_valid_moves(&self) -> Vec<G::Move> { look(self.node); if world().yields { yield_point(2); } self.g.get_valid_moves() }
    fn apply_move(&mut self, a: &G::Move) { let (p, c) = (self.g.get_player(), self.g.encode(a)); self.g.apply_move(a); self.node = push(self.node, Kind::Apply, c, p, self.g.snap()); }
    fn roll_die(&mut self) -> (u8, u8) { let r = self.g.roll_die(); self.node = push(self.node, Kind::Roll, 0, self.g.get_player(), self.g.snap()); r }
    fn skip_turn(&mut self) { let p = self.g.get_player(); self.g.skip_turn(); self.node = push(self.node, Kind::Skip, 0, p, self.g.snap()); }
    fn get_player(&self) -> i8 { self.g.get_player() }
    fn check_winner(&self) -> Option<i8> { self.g.check_winner() }
    fn as_tensor(&self) -> Tensor { look(self.node); world().tensors += 1; self.g.as_tensor() }
    fn decode(&self, a: u32) -> G::Move { self.g.decode(a) }
    fn encode(&self, a: &G::Move) -> u32 { self.g.encode(a) }
    fn get_id(&self) -> usize { self.g.get_id() }
    fn set_id(&mut self, i: usize) { self.g.set_id(i); self.node = push(self.node, Kind::SetId, i as u32, self.g.get_player(), self.g.snap()); }
    fn to_pretty_str(&self) -> String { self.g.to_pretty_str() }
}
pub type WB = W<Backgammon>;
pub type WT = W<TicTacToe>;

// ------------------------------------------------------------------ synthetic game
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct ToyCfg {
    pub seed: u64, pub branch: u32, pub len_min: u32, pub len_max: u32, pub pass_pm: u32,
    /// 0: winner by hash of the game; 1: table over game ids (k_win games won by -1, k_draw drawn, rest won by +1, of `games`); 2: decided by the last move
    pub win_kind: u8, pub k_win: u32, pub k_draw: u32, pub games: u32,
    /// per mille of games that never end
    pub inf_pm: u32, pub all_legal: bool, pub draw_pm: u32,
    /// per mille of moves after which the same side moves again (never after the last one)
    pub again_pm: u32,
}
impl ToyCfg { pub const DEF: ToyCfg = ToyCfg { seed: 1, branch: 3, len_min: 2, len_max: 5, pass_pm: 0, win_kind: 0, k_win: 0, k_draw: 0, games: 400, inf_pm: 0, all_legal: false, draw_pm: 100, again_pm: 0 }; }
pub const TOY_A: i64 = 40;
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Toy<const R: bool> { pub gid: u32, pub player: i8, pub ply: u16, pub passes: u16, pub hist: u64, pub roll: (u8, u8), pub last: u8, #[serde(skip, default = "none")] pub node: u32 }
pub type ToyD = Toy<false>;
pub type ToyR = Toy<true>;
impl<const R: bool> Toy<R> {
    fn c() -> &'static ToyCfg { &world().toy }
    pub fn len_of(gid: u32) -> u32 { let c = Self::c(); let h = mix(c.seed ^ (gid as u64) << 20 ^ 0xabc); if (h >> 40) % 1000 < c.inf_pm as u64 { return u32::MAX; } c.len_min + (h % (c.len_max.max(c.len_min) - c.len_min + 1) as u64) as u32 }
    fn again(&self) -> bool { let c = Self::c(); c.again_pm > 0 && (self.ply as u32) < Self::len_of(self.gid) && mix(c.seed.rotate_left(29) ^ self.hist) % 1000 < c.again_pm as u64 }
    /// a permutation of 0..games, so that winners are spread over both halves
    pub fn rank(gid: u32) -> u32 { let w = world(); w.ranks[gid as usize % w.ranks.len()] }
    pub fn snap(&self) -> [i8; 32] { let mut s = [0i8; 32]; s[..4].copy_from_slice(&self.gid.to_le_bytes().map(|b| b as i8)); s[4..12].copy_from_slice(&self.hist.to_le_bytes().map(|b| b as i8)); s[12] = self.ply as i8; s[13] = (self.ply >> 8) as i8; s[14] = self.passes as i8; s[15] = (self.passes >> 8) as i8; s[16] = self.roll.0 as i8; s[17] = self.roll.1 as i8; s[18] = self.last as i8; s[30] = self.player; s }
    pub fn put(s: &[i8; 32]) -> Self { let b = |i: usize| s[i] as u8; Toy { gid: u32::from_le_bytes([b(0), b(1), b(2), b(3)]), hist: u64::from_le_bytes([b(4), b(5), b(6), b(7), b(8), b(9), b(10), b(11)]), ply: b(12) as u16 | (b(13) as u16) << 8, passes: b(14) as u16 | (b(15) as u16) << 8, roll: (b(16), b(17)), last: b(18), player: s[30], node: NONE } }
    pub fn ints(&self) -> [i64; 12] { let h = self.hist; [self.gid as i64 & 4095, (self.gid >> 12) as i64, self.ply as i64, self.passes as i64, self.player as i64, (h & 4095) as i64, (h >> 12 & 4095) as i64, (h >> 24 & 4095) as i64, (h >> 36 & 4095) as i64, (h >> 48 & 4095) as i64, (h >> 60) as i64, self.roll.0 as i64 * 8 + self.roll.1 as i64] }
}
pub fn toy_ints(t: &[f32]) -> [i64; 12] { let mut r = [0; 12]; for i in 0..12 { r[i] = (t[i] * 64.0).round() as i64 } r }
impl<const R: bool> LearnableGame for Toy<R> {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = !R;
    const ACTION_SPACE_SIZE: i64 = TOY_A;
    const N_INPUT_CHANNELS: i64 = 3;
    const CONV_OUTPUT_SIZE: i64 = 12;
    const N_FILTERS: i64 = 4;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self { let w = world(); let gid = w.news; w.news += 1; let mut t = Toy { gid, player: -1, ply: 0, passes: 0, hist: 0x1234, roll: (0, 0), last: 0, node: NONE }; t.node = push(NONE, Kind::New, gid, -1, t.snap()); t }
    fn name() -> String { "toy".into() }
    fn get_valid_moves(&self) -> Vec<u8> {
        look(self.node); if world().yields { yield_point(2); }
        if R { assert!(self.roll != (0, 0), "die has not been rolled!"); }
        let c = Self::c(); let h = mix(c.seed ^ self.hist ^ (self.gid as u64) << 32 ^ (self.roll.0 as u64) << 8 ^ self.roll.1 as u64);
        if (h >> 33) % 1000 < c.pass_pm as u64 { return vec![]; }
        if c.all_legal { return (0..TOY_A as u8).collect(); }
        let n = 1 + h % c.branch.max(1) as u64; let start = (h >> 8) % TOY_A as u64; let stride = [1, 3, 7, 9, 11, 13][(h >> 20) as usize % 6];
        (0..n.min(TOY_A as u64)).map(|i| ((start + i * stride) % TOY_A as u64) as u8).collect()
    }
    fn apply_move(&mut self, a: &u8) {
        let p = self.player; self.ply += 1; self.hist = mix(self.hist ^ (*a as u64 + 1) << 17); self.last = *a; if !self.again() { self.player = -p; } if R { self.roll_quiet(); }
        self.node = push(self.node, Kind::Apply, *a as u32, p, self.snap());
    }
    fn roll_die(&mut self) -> (u8, u8) { if !R { panic!("roll_die called on deterministic game!") } self.roll_quiet(); self.node = push(self.node, Kind::Roll, 0, self.player, self.snap()); self.roll }
    fn skip_turn(&mut self) { let p = self.player; self.passes += 1; self.hist = mix(self.hist ^ 0x5555); self.player = -p; if R { self.roll_quiet(); } self.node = push(self.node, Kind::Skip, 0, p, self.snap()); }
    fn get_player(&self) -> i8 { self.player }
    fn check_winner(&self) -> Option<i8> {
        let c = Self::c(); if (self.ply as u32) < Self::len_of(self.gid) || self.ply == 0 { return None; }
        let h = mix(c.seed.rotate_left(13) ^ self.gid as u64);
        Some(match c.win_kind { 1 => { let r = Self::rank(self.gid); if r < c.k_win { -1 } else if r < c.k_win + c.k_draw { 0 } else { 1 } } 2 => if self.last % 2 == 0 { -self.player } else { self.player }, _ => if h % 1000 < c.draw_pm as u64 { 0 } else if h >> 20 & 1 == 0 { -1 } else { 1 } })
    }
    fn as_tensor(&self) -> Tensor { look(self.node); world().tensors += 1; let mut v = vec![0f32; 36]; for (i, x) in self.ints().iter().enumerate() { v[i] = *x as f32 / 64.0; } for i in 12..36 { v[i] = ((mix(self.hist.wrapping_add(i as u64)) % 64) as f32) / 64.0; } Tensor::from_slice(&v).view([1, 3, 4, 3]) }
    fn decode(&self, a: u32) -> u8 { a as u8 }
    fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { self.gid as usize }
    fn set_id(&mut self, i: usize) { self.gid = i as u32; self.node = push(self.node, Kind::SetId, i as u32, self.player, self.snap()); }
    fn to_pretty_str(&self) -> String { format!("toy {} ply {} passes {} hist {:x}", self.gid, self.ply, self.passes, self.hist) }
}
impl<const R: bool> Toy<R> { fn roll_quiet(&mut self) { use rand::Rng; let mut r = rand::thread_rng(); self.roll = (r.gen_range(1..=6), r.gen_range(1..=6)); } }

/// Uniform access for the generic checks.
pub trait Sg: LearnableGame { fn node(&self) -> u32; fn from_snap(s: &[i8; 32]) -> Self; fn snapshot(&self) -> [i8; 32]; /// snapshot without what fresh dice decide
    fn snap_no_dice(&self) -> [i8; 32]; }
impl<G: Inner> Sg for W<G> { fn node(&self) -> u32 { self.node } fn from_snap(s: &[i8; 32]) -> Self { W { g: G::put(s), node: NONE } } fn snapshot(&self) -> [i8; 32] { self.g.snap() } fn snap_no_dice(&self) -> [i8; 32] { let mut s = self.g.snap(); if !G::IS_DETERMINISTIC && s[31] == 0 { s[28] = 0; s[29] = 0; } s } }
impl<const R: bool> Sg for Toy<R> { fn node(&self) -> u32 { self.node } fn from_snap(s: &[i8; 32]) -> Self { Toy::put(s) } fn snapshot(&self) -> [i8; 32] { self.snap() } fn snap_no_dice(&self) -> [i8; 32] { let mut s = self.snap(); s[16] = 0; s[17] = 0; s } }
