//! C01-C05: lockstep refinement of whole game histories against the rules model.
use crate::ensure;
use crate::fw::*;
use crate::rules;
use crate::sim::mix;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen_bg(r: &mut Rng, _prop: &str, thorough: bool, i: usize) -> Plan {
    let mut p = Plan { prop: String::new(), scen: String::new(), p: Default::default(), sim: Default::default() };
    let style = |r: &mut Rng| r.below(7);
    p.p.insert("seed".into(), json!(r.next() >> 2));
    p.p.insert("games".into(), json!(if thorough { 12 } else { 6 }));
    p.p.insert("plies".into(), json!(400));
    p.p.insert("style_a".into(), json!(style(r)));
    p.p.insert("style_b".into(), json!(style(r)));
    p.p.insert("dice".into(), json!(if i % 3 == 0 { 0 } else { r.below(5) }));
    p.p.insert("start".into(), json!(if i % 2 == 0 { 0 } else { 1 + r.below(4) }));
    p
}
fn scatter(r: &mut Rng, n: u8, slots: &[usize], arr: &mut [u8]) { for _ in 0..n { let k = *r.pick(slots); arr[k] += 1; } }
/// Positions of late contact, closed boards and bear-offs that long games pass through.
pub fn construct(r: &mut Rng, kind: i64) -> rules::Board {
    let mut p = rules::Pos { me: [0; 26], op: [0; 25], op_bar: 0, op_off: 0 };
    let off = match kind { 1 => r.below(13) as u8, 2 => r.below(6) as u8, _ => 0 };
    p.me[0] = off; let left = 15 - off;
    let home: Vec<usize> = (1..=6).collect();
    match kind { 1 | 2 => { scatter(r, left, &home, &mut p.me) } 3 => { let k = r.below(4) as u8; scatter(r, left - k, &home, &mut p.me); if k > 0 && r.chance(400) { p.me[25] = 1; scatter(r, k - 1, &[7, 8, 9], &mut p.me) } else { scatter(r, k, &[7, 8, 12, 18], &mut p.me) } } _ => { let b = r.below(4) as u8; p.me[25] = b; let all: Vec<usize> = (1..=24).collect(); scatter(r, left - b, &all, &mut p.me) } }
    let mut n = 15u8; let ooff = if r.chance(300) { r.below(8) as u8 } else { 0 }; p.op_off = ooff; n -= ooff;
    if r.chance(400) { let b = r.below(3) as u8 + 1; p.op_bar = b.min(n); n -= p.op_bar; }
    // opposing points: anchors and blots on free points, anywhere
    let mut guard = 0; while n > 0 { guard += 1; let d = if r.chance(350) { r.range(1, 6) } else { r.range(7, 24) } as usize; if p.me[d] == 0 { let k = if guard > 60 { n } else { (1 + r.below(4) as u8).min(n) }; p.op[d] += k; n -= k; } }
    rules::to_board(&p, if r.chance(500) { -1 } else { 1 })
}
fn inject(r: &mut Rng, kind: i64, real: (u8, u8)) -> (u8, u8) {
    let d = |r: &mut Rng, a: i64, b: i64| r.range(a, b) as u8;
    match kind { 1 => { let x = d(r, 1, 6); (x, x) } 2 => (d(r, 4, 6), d(r, 4, 6)), 3 => (d(r, 1, 3), d(r, 1, 6)), 4 => if r.chance(500) { (6, d(r, 1, 6)) } else { (d(r, 1, 6), 6) }, _ => real }
}
fn score(style: i64, p: &rules::Pos, r: &mut Rng) -> i64 {
    let pip: i64 = (1..=25).map(|d| d as i64 * p.me[d] as i64).sum();
    let blots: i64 = (1..=24).filter(|&d| p.me[d] == 1).count() as i64;
    let n = (r.below(8)) as i64;
    match style { 1 => p.op_bar as i64 * 100 - blots * 3 + n, 2 => -pip * 4 + n, 3 => pip * 4 + n, 4 => -blots * 50 + n, 5 => blots * 50 + n, 6 => (p.op_bar as i64) * 100 + (1..=6).filter(|&d| p.me[d] >= 2).count() as i64 * 60 + n, _ => r.below(1 << 30) as i64 }
}

pub fn bg_planes(s: &Backgammon) -> Vec<f32> {
    let half = |a: f32, b: f32| { let mut v = vec![a; 12]; v.extend(vec![b; 12]); v };
    let mut v: Vec<f32> = s.board.0.iter().map(|&x| x as f32).collect();
    v.extend(vec![s.player as f32; 24]); v.extend(half(s.board.1 .0 as f32, s.board.1 .1 as f32)); v.extend(half(s.board.2 .0 as f32, s.board.2 .1 as f32)); v.extend(half(s.roll.0 as f32, s.roll.1 as f32)); v.extend(vec![s.is_second_play as u8 as f32; 24]); v
}
pub fn ttt_planes(b: &[i8; 9]) -> Vec<f32> { let mut v = vec![]; for k in [-1i8, 0, 1] { v.extend(b.iter().map(|&x| (x == k) as u8 as f32)); } v }
pub fn check_input(t: &tch::Tensor, size: &[i64], want: &[f32], what: &dyn Fn() -> String) -> Result<(), Viol> {
    ensure!(t.size() == size, "input-shape", "{}: the input has shape {:?}", what(), t.size());
    let got = crate::util::flat(t); let bad = (0..want.len()).find(|&i| got[i] != want[i]);
    ensure!(bad.is_none(), "input-differs", "{}: value {} of the network input is {} instead of {}", what(), bad.unwrap(), got[bad.unwrap()], want[bad.unwrap()]); Ok(())
}

/// The numbers in a piece of text, with their signs.
fn numbers(t: &str) -> Vec<i64> { let b: Vec<char> = t.chars().collect(); let mut v = vec![]; let mut i = 0; while i < b.len() { if b[i].is_ascii_digit() { let mut n = 0i64; let neg = i > 0 && b[i - 1] == '-'; while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + b[i].to_digit(10).unwrap() as i64; i += 1; } v.push(if neg { -n } else { n }); } else { i += 1; } } v }
/// C28: reads the position back from the text it is shown as.
fn check_shown(s: &Backgammon, ctx: &dyn Fn() -> String) -> Result<(), Viol> {
    let t = s.to_pretty_str(); let bad = |what: String| -> Result<(), Viol> { viol("shown-wrong", format!("{}: {} in\n{}", ctx(), what, t)) };
    let lines: Vec<&str> = t.lines().collect(); let rows: Vec<Vec<&str>> = lines.iter().filter(|l| l.starts_with('|')).map(|l| l.split('\t').filter(|c| *c != "|").collect()).collect();
    let info: Vec<&str> = lines.iter().filter(|l| !l.starts_with('|') && !l.starts_with('=')).cloned().collect(); let head = info.iter().find(|l| l.contains("turn")).cloned().unwrap_or("");
    let h = numbers(head); if h != vec![if s.player == -1 { 1 } else { 2 }, s.roll.0 as i64, s.roll.1 as i64] { return bad(format!("turn and roll are shown as {:?}", head)); }
    for (k, (bar, off)) in [(s.board.1 .0, s.board.2 .0), (s.board.1 .1, s.board.2 .1)].iter().enumerate() {
        let at = info.iter().position(|l| l.starts_with(&format!("Player {}", k + 1))); let own: Vec<&str> = match at { Some(a) => info[a + 1..].iter().take_while(|l| !l.starts_with("Player")).cloned().collect(), None => vec![] };
        let find = |w: &str| own.iter().find(|l| l.contains(w)).map(|l| numbers(l)).unwrap_or_default();
        if find("Broken") != vec![*bar as i64] || find("Collected") != vec![*off as i64] { return bad(format!("bar and borne-off checkers of player {} are shown as {:?}", k + 1, own)); }
    }
    if rows.len() < 5 { return bad("no board is shown".into()); }
    let labels = |r: &Vec<&str>| -> Vec<i64> { r.iter().map(|c| c.trim().parse().unwrap_or(-1)).collect() }; let (top, bot) = (labels(&rows[0]), labels(rows.last().unwrap())); let mid = &rows[1..rows.len() - 1]; let mut seen = BTreeSet::new();
    for (half, names) in [(0, &top), (1, &bot)] { for (c, &pt) in names.iter().enumerate() {
        if !(0..24).contains(&pt) || !seen.insert(pt) { return bad(format!("a column is labelled {}", pt)); }
        let (mut n, mut who) = (0i64, 0i64); let cells: Vec<&str> = mid.iter().enumerate().filter(|(j, _)| (*j < mid.len() / 2) == (half == 0) && !(mid.len() % 2 == 1 && *j == mid.len() / 2)).map(|(_, r)| r.get(c).cloned().unwrap_or("").trim()).collect();
        for x in cells { match x { "" => {} "x" | "o" => { let w = if x == "x" { -1 } else { 1 }; if who == -w { return bad(format!("point {} is shown with checkers of both sides", pt)); } who = w; n += 1; } _ => match x.strip_prefix('+').and_then(|y| y.parse::<i64>().ok()) { Some(m) => n += m, None => return bad(format!("point {} is shown with {:?}", pt, x)) } } }
        if n * who != s.board.0[pt as usize] as i64 { return bad(format!("point {} holds {} and is shown with {}", pt, s.board.0[pt as usize], n * who)); }
    } }
    if seen.len() != 24 { return bad(format!("{} points are shown", seen.len())); } Ok(())
}
fn check_ply(prop: &str, s: &Backgammon, moves: &[Vec<(i8, i8)>], out: &mut Out) -> Result<(), Viol> {
    let pos = rules::of_board(&s.board, s.player);
    let (k, want) = rules::legal(&pos, s.roll);
    let ctx = || format!("position {:?} player {} roll {:?}", s.board, s.player, s.roll);
    if prop == "C28" { return check_shown(s, &ctx); }
    if prop == "C27" { return check_input(&s.as_tensor(), &[1, 6, 4, 6], &bg_planes(s), &ctx); }
    let mut got: BTreeMap<rules::Pos, &Vec<(i8, i8)>> = BTreeMap::new();
    let mut codes: BTreeMap<u32, &Vec<(i8, i8)>> = BTreeMap::new();
    for m in moves {
        if prop == "C05" {
            let c = LearnableGame::encode(s, m); let c2 = s.encode(m);
            ensure!((c as i64) < Backgammon::ACTION_SPACE_SIZE, "code-out-of-range", "{}: play {:?} has code {}", ctx(), m, c);
            ensure!(c == c2, "encodings-disagree", "{}: play {:?} encodes to {} and {}", ctx(), m, c, c2);
            let d = LearnableGame::decode(s, c); let d2 = s.decode(c);
            ensure!(&d == m && &d2 == m, "decode-differs", "{}: play {:?} has code {} which decodes to {:?} / {:?}", ctx(), m, c, d, d2);
            if let Some(o) = codes.insert(c, m) { return viol("shared-code", format!("{}: plays {:?} and {:?} share code {}", ctx(), o, m, c)); }
            continue;
        }
        let mut t = *s; t.apply_move(m);
        let q = rules::of_board(&t.board, s.player);
        match prop {
            "C01" => {
                ensure!(Backgammon::get_next_state(s.board, m, s.player) == t.board, "apply-differs", "{}: play {:?} applied gives {:?}", ctx(), m, t.board);
                ensure!(want.contains(&q), "illegal-play", "{}: play {:?} is offered but leads to {:?}, which the rules do not allow ({} dice can be used)", ctx(), m, t.board, k);
                if let Some(o) = got.insert(q, m) { return viol("play-offered-twice", format!("{}: plays {:?} and {:?} lead to the same position", ctx(), o, m)); }
            }
            "C02" => {
                ensure!(rules::totals(&t.board) == (15, 15), "checkers-lost", "{}: play {:?} gives {:?} with totals {:?}", ctx(), m, t.board, rules::totals(&t.board));
                ensure!(t.board.1 .0 <= 15 && t.board.1 .1 <= 15 && t.board.2 .0 <= 15 && t.board.2 .1 <= 15, "counter-wrapped", "{}: play {:?} gives {:?}", ctx(), m, t.board);
                ensure!(q.me[0] >= pos.me[0] && q.op_off == pos.op_off, "borne-off-decreased", "{}: play {:?} gives {:?}", ctx(), m, t.board);
                let mut hits = 0u8;
                for d in 1..=24 { if q.op[d] != pos.op[d] { ensure!(pos.op[d] == 1 && q.op[d] == 0, "opponent-moved", "{}: play {:?} changes the opponent's point: {:?}", ctx(), m, t.board); hits += 1; } }
                ensure!(q.op_bar == pos.op_bar + hits, "opponent-bar", "{}: play {:?} gives {:?}", ctx(), m, t.board);
                let pip = |p: &rules::Pos| (1..=25).map(|d| d as i64 * p.me[d] as i64).sum::<i64>();
                let (a, b) = (pip(&pos), pip(&q)); let used = a - b; let max = (s.roll.0 + s.roll.1) as i64;
                ensure!(used > 0 && used <= max, "wrong-distance", "{}: play {:?} moves {} pips", ctx(), m, used);
                // reachable by moving single checkers with distinct dice of the roll
                let dice = [(s.roll.0 as usize, s.roll.1 as usize), (s.roll.1 as usize, s.roll.0 as usize)];
                let ok = dice.iter().any(|&(x, y)| steps(&pos, x).iter().any(|p1| *p1 == q || steps(p1, y).contains(&q)));
                ensure!(ok, "not-by-the-dice", "{}: play {:?} leads to {:?}, which no use of the two dice gives", ctx(), m, t.board);
            }
            "C03" => {
                let over = rules::winner(&t.board).is_some();
                ensure!((1..=6).contains(&t.roll.0) && (1..=6).contains(&t.roll.1), "bad-roll", "{}: after {:?} the roll is {:?}", ctx(), m, t.roll);
                if s.roll.0 == s.roll.1 && !s.is_second_play { ensure!(over || (t.player == s.player && t.roll == s.roll && t.is_second_play), "double-not-replayed", "{}: after the first play {:?} of a double: player {} roll {:?} second {}", ctx(), m, t.player, t.roll, t.is_second_play); }
                else { ensure!(over || (t.player == -s.player && !t.is_second_play), "turn-not-passed", "{} second {}: after {:?}: player {} second {}", ctx(), s.is_second_play, m, t.player, t.is_second_play); }
            }
            "C04" => { let (a, b) = (t.check_winner(), rules::winner(&t.board)); ensure!(a == b, "wrong-winner", "{}: after {:?} the game reports {:?}, the rules say {:?} ({:?})", ctx(), m, a, b, t.board); ensure!(Backgammon::check_win_without_player(t.board) == b && Backgammon::check_win(t.board, -1) == (b == Some(-1)) && Backgammon::check_win(t.board, 1) == (b == Some(1)), "wrong-winner", "{}: helper winners differ after {:?}", ctx(), m); }
            _ => {}
        }
    }
    if prop == "C01" { for q in &want { ensure!(got.contains_key(q), "legal-play-missing", "{}: the rules allow {:?} ({} dice usable) but only {} plays are offered: {:?}", ctx(), rules::to_board(q, s.player), k, moves.len(), moves); } }
    out.probe(match k { 0 => "no legal play", 1 => "one die only", _ => "two dice" });
    if pos.me[25] > 0 { out.probe("entering from the bar"); }
    if pos.op_bar > 0 && (7..=25).all(|d| pos.me[d] == 0) { out.probe("bear-off with opponent on the bar"); }
    if (7..=25).all(|d| pos.me[d] == 0) && (1..=6).any(|d| pos.op[d] > 0) { out.probe("bear-off with opponent anchor"); }
    Ok(())
}
/// Single-checker moves, used by C02 only for distances and hits (bear-off by a larger die allowed).
fn steps(p: &rules::Pos, die: usize) -> Vec<rules::Pos> {
    let mut r = vec![];
    for d in 1..=25usize { if p.me[d] == 0 { continue; } let mut q = *p; q.me[d] -= 1; if d > die { let t = d - die; if p.op[t] >= 2 { continue; } if p.op[t] == 1 { q.op[t] = 0; q.op_bar += 1; } q.me[t] += 1 } else { q.me[0] += 1 } r.push(q) }
    r
}

pub fn run_bg(p: &Plan, cx: &mut Ctx) -> Res {
    let (games, plies, dice, start, prop) = (p.u("games").max(1), p.u("plies"), p.i("dice"), p.i("start"), p.prop.clone());
    let styles = [p.i("style_a"), p.i("style_b")]; let seed = p.i("seed") as u64;
    cx.phase(&p.sim, |c, out| {
        c.sim(|| -> Result<(), Viol> {
            let mut r = Rng::new(seed); let mut hist = vec![];
            for g in 0..games {
                let mut s = <Backgammon as LearnableGame>::new();
                ensure!(s.board == Backgammon::get_initial_state() && rules::totals(&s.board) == (15, 15), "bad-start", "{:?}", s.board);
                if start > 0 { s.board = construct(&mut r, start); if r.chance(500) { s.player = 1 } }
                let rl = s.roll_die(); ensure!(rl == s.roll && (1..=6).contains(&rl.0) && (1..=6).contains(&rl.1), "bad-roll", "roll_die gives {:?}, state has {:?}", rl, s.roll);
                s.roll = inject(&mut r, dice, s.roll);
                let uniform = styles == [0, 0] && dice == 0 && start == 0; let cap = if uniform { 20_000 } else { plies };
                let mut n = 0;
                loop {
                    let w = rules::winner(&s.board);
                    if prop == "C04" { ensure!(s.check_winner() == w, "wrong-winner", "{:?}: reports {:?}, rules say {:?}", s.board, s.check_winner(), w); }
                    if w.is_some() { out.probe("game finished"); break; }
                    if n >= cap { if uniform && prop == "C04" { return viol("never-ends", format!("uniform random play did not end within {} plies: {:?}", cap, s)); } out.probe("history cut"); break; }
                    n += 1;
                    let before = s; let moves = s.get_valid_moves();
                    check_ply(&prop, &s, &moves, out)?;
                    out.state(mix(crate::fw::hash_str(&format!("{:?}{}{:?}", s.board, s.player, s.roll))));
                    if moves.is_empty() || (prop == "C03" && r.chance(20)) {
                        s.skip_turn();
                        ensure!(prop != "C03" || (s.player == -before.player && !s.is_second_play && (1..=6).contains(&s.roll.0) && (1..=6).contains(&s.roll.1)), "pass-protocol", "passing from {:?} gives {:?}", before, s);
                        ensure!(prop != "C02" || s.board == before.board, "pass-moves-checkers", "passing from {:?} gives {:?}", before, s);
                    } else {
                        let style = styles[(s.player == 1) as usize];
                        let m = moves.iter().max_by_key(|m| { let q = rules::of_board(&Backgammon::get_next_state(s.board, m, s.player), s.player); score(style, &q, &mut r) }).unwrap().clone();
                        if g == 0 && hist.len() < 6 { hist.push(json!({"roll": s.roll, "player": s.player, "offered": moves.len(), "play": m})); }
                        if s.is_second_play { out.probe("second play of a double"); }
                        s.apply_move(&m);
                    }
                    if s.player != before.player || !s.is_second_play { s.roll = inject(&mut r, dice, s.roll); }
                }
            }
            out.nontrivial = true; out.sample = json!({"first_plies": hist});
            Ok(())
        }).unwrap_or_else(|m| viol("panic", m))
    })?; Ok(())
}

pub fn gen_dice(r: &mut Rng, _p: &str, _t: bool, _i: usize) -> Plan { let mut p = Plan { prop: String::new(), scen: String::new(), p: Default::default(), sim: Default::default() }; p.p.insert("kind".into(), json!(r.below(5))); p.p.insert("seed".into(), json!(r.next() >> 2)); p.sim.ent_eintr_pm = *r.pick(&[0, 0, 100]); p }
pub fn run_dice(p: &Plan, cx: &mut Ctx) -> Res {
    let (kind, seed) = (p.i("kind"), p.i("seed") as u64); const N: usize = 36_000;
    cx.phase(&p.sim, |c, out| {
        // with each roll, the situation it was made in: the side to move, a checker of it on the bar, checkers borne off
        let (rolls, sit) = match c.sim(|| {
            let mut v: Vec<(u8, u8)> = Vec::with_capacity(N); let mut w: Vec<(i8, bool, bool)> = Vec::with_capacity(N); let mut s = <Backgammon as LearnableGame>::new(); let mut r = Rng::new(seed); let init = s.board; s.roll_die();
            while v.len() < N {
                let had = v.len();
                match kind { 0 => { v.push(s.roll_die()); } 1 => { s.skip_turn(); v.push(s.roll); } 4 => { s = <Backgammon as LearnableGame>::new(); v.push(s.roll_die()); } // the first roll of every game
                    _ => { let m = s.get_valid_moves(); let sec = s.roll.0 == s.roll.1 && !s.is_second_play; if m.is_empty() { s.skip_turn(); v.push(s.roll) } else { s.apply_move(r.pick(&m)); if !sec { v.push(s.roll) } } if s.check_winner().is_some() || (kind == 2 && v.len() % 8 == 0) { s.board = init; } } }
                if v.len() > had { let b = s.board; w.push((s.player, if s.player == -1 { b.1 .0 > 0 } else { b.1 .1 > 0 }, b.2 .0 > 0 || b.2 .1 > 0)); }
            }
            (v, w) }) { Ok(v) => v, Err(m) => return viol("panic", m) };
        out.nontrivial = true; out.probe_n("rolls drawn", rolls.len() as u64); out.sample = json!({"first_rolls": rolls[..12]});
        let chi = |pairs: &mut dyn Iterator<Item = (u8, u8)>| -> f64 { let mut t = [0f64; 36]; let mut n = 0.0; for (a, b) in pairs { t[(a as usize - 1) * 6 + b as usize - 1] += 1.0; n += 1.0; } let e: f64 = n / 36.0; t.iter().map(|x| (x - e) * (x - e) / e).sum() };
        ensure!(rolls.iter().all(|r| (1..=6).contains(&r.0) && (1..=6).contains(&r.1)), "bad-roll", "a die outside 1..6 was rolled");
        for (what, c2) in [("the two dice of a roll", chi(&mut rolls.iter().cloned())), ("first dice of consecutive rolls", chi(&mut rolls.windows(2).map(|w| (w[0].0, w[1].0)))), ("second dice of consecutive rolls", chi(&mut rolls.windows(2).map(|w| (w[0].1, w[1].1)))), ("a second die and the next first", chi(&mut rolls.windows(2).map(|w| (w[0].1, w[1].0)))), ("a first die and the next second", chi(&mut rolls.windows(2).map(|w| (w[0].0, w[1].1))))] {
            ensure!(c2 < 140.0, "dice-not-fair", "{}: chi-square {:.1} over 35 degrees of freedom in {} rolls (kind {})", what, c2, rolls.len(), kind);
        }
        // a roll and the one before it (or two before): how often they go together in the ways a broken die would
        let z = |n: usize, k: usize, p: f64| (k as f64 - n as f64 * p) / (n as f64 * p * (1.0 - p)).sqrt(); type R = (u8, u8); let dbl = |r: &R| r.0 == r.1;
        for lag in 1..=2 { let pairs: Vec<(R, R)> = rolls.windows(lag + 1).map(|w| (w[0], w[lag])).collect(); let n = pairs.len();
            let tests: [(&str, f64, &dyn Fn(&R, &R) -> bool); 7] = [("the same roll again", 1.0 / 36.0, &|a, b| a == b), ("the same double again", 6.0 / 1296.0, &|a, b| a == b && dbl(a)), ("a double after a double", 1.0 / 36.0, &|a, b| dbl(a) && dbl(b)), ("the same two dice in the other order", 1.0 / 36.0, &|a, b| a.0 == b.1 && a.1 == b.0), ("no die in common", 630.0 / 1296.0, &|a, b| a.0 != b.0 && a.0 != b.1 && a.1 != b.0 && a.1 != b.1), ("the same sum", 146.0 / 1296.0, &|a, b| a.0 + a.1 == b.0 + b.1), ("a higher sum", 575.0 / 1296.0, &|a, b| b.0 + b.1 > a.0 + a.1)];
            for (what, p, f) in tests { let k = pairs.iter().filter(|(a, b)| f(a, b)).count(); let zz = z(n, k, p); ensure!(zz.abs() < 9.0, "dice-dependent", "{} {} came {} times in {} rolls instead of about {:.0} (kind {})", what, if lag == 1 { "at once" } else { "one roll later" }, k, n, n as f64 * p, kind); }
        }
        if (1..4).contains(&kind) { type S = (i8, bool, bool); let groups: [(&str, &dyn Fn(&S) -> bool); 5] = [("player 1 to move", &|s| s.0 == -1), ("player 2 to move", &|s| s.0 == 1), ("the mover on the bar", &|s| s.1), ("checkers borne off", &|s| s.2), ("nobody borne off", &|s| !s.2)];
            for (what, f) in groups { let sel: Vec<R> = rolls.iter().zip(&sit).filter(|x| f(x.1)).map(|x| *x.0).collect(); if sel.len() < 1500 { continue; } out.probe(what); let c2 = chi(&mut sel.iter().cloned()); ensure!(c2 < 140.0, "dice-not-fair", "with {}: chi-square {:.1} over 35 degrees of freedom in {} rolls (kind {})", what, c2, sel.len(), kind); } }
        let mut last = (0u8, 0u8); let mut run = 0; for &r in &rolls { if r == last { run += 1; ensure!(run < 9, "dice-not-fresh", "the roll {:?} repeats {} times in a row", r, run) } else { run = 0 } last = r; }
        Ok(())
    })?; Ok(())
}

pub fn gen_ttt(r: &mut Rng, _p: &str, _t: bool, _i: usize) -> Plan { let mut p = Plan { prop: String::new(), scen: String::new(), p: Default::default(), sim: Default::default() }; p.p.insert("seed".into(), json!(r.next() >> 2)); p.p.insert("games".into(), json!(200)); p.p.insert("skip_pm".into(), json!(*r.pick(&[0, 0, 50, 300]))); p }
pub fn run_ttt(p: &Plan, cx: &mut Ctx) -> Res {
    let (games, skip, seed, prop) = (p.u("games").max(1), p.u("skip_pm") as u64, p.i("seed") as u64, p.prop.clone());
    cx.phase(&p.sim, |c, out| {
        c.sim(|| -> Result<(), Viol> {
            let mut r = Rng::new(seed); let mut first = vec![];
            for g in 0..games {
                let mut s = <TicTacToe as LearnableGame>::new(); let mut board = [0i8; 9]; let mut pl = -1i8;
                ensure!(s.board == board && s.get_player() == pl, "bad-start", "{:?}", s);
                for _ in 0..40 {
                    let w = rules::ttt_winner(&board);
                    ensure!(prop != "C04" || s.check_winner() == w, "wrong-winner", "board {:?}: reports {:?}, the rules say {:?}", board, s.check_winner(), w);
                    if w.is_some() { out.probe(match w { Some(0) => "draw", Some(-1) => "first player wins", _ => "second player wins" }); break; }
                    let mv = s.get_valid_moves();
                    let want: BTreeSet<u8> = (0..9u8).filter(|&i| board[i as usize] == 0).collect();
                    let got: BTreeSet<u8> = mv.iter().cloned().collect();
                    ensure!(prop != "C04" || (got == want && mv.len() == want.len()), "wrong-moves", "board {:?}: offers {:?}", board, mv);
                    if prop == "C28" { let t = s.to_pretty_str(); ensure!(t.lines().count() == 3 && numbers(&t) == board.iter().map(|&x| x as i64).collect::<Vec<_>>(), "shown-wrong", "board {:?} is shown as\n{}", board, t); }
                    if prop == "C27" { check_input(&s.as_tensor(), &[1, 3, 3, 3], &ttt_planes(&board), &|| format!("board {:?}", board))?; }
                    if prop == "C05" { let mut seen = BTreeSet::new(); for m in &mv { let c = s.encode(m); ensure!((c as i64) < TicTacToe::ACTION_SPACE_SIZE && s.decode(c) == *m && seen.insert(c), "code", "board {:?}: move {} has code {} decoding to {}", board, m, c, s.decode(c)); } }
                    if r.chance(skip) { s.skip_turn(); pl = -pl; } else { let m = *r.pick(&mv); if g == 0 { first.push(m) } s.apply_move(&m); board[m as usize] = pl; pl = -pl; }
                    out.state(hash_str(&format!("{:?}{}", board, pl)));
                    ensure!(prop != "C04" || (s.board == board && s.get_player() == pl), "wrong-transition", "expected {:?} player {}, got {:?}", board, pl, s);
                }
            }
            out.nontrivial = true; out.sample = json!({"first_game": first}); Ok(())
        }).unwrap_or_else(|m| viol("panic", m))
    })?; Ok(())
}
