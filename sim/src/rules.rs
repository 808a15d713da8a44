//! Independent model of the rules of backgammon (as C01-C05 state them) and tic-tac-toe.
use std::collections::BTreeSet;

/// Seen from the side to move: index = pips left to bear off (1..=24), 25 = bar, 0 = borne off.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Pos { pub me: [u8; 26], pub op: [u8; 25], pub op_bar: u8, pub op_off: u8 }
pub type Board = ([i8; 24], (u8, u8), (u8, u8));

fn dist(i: usize, player: i8) -> usize { if player == -1 { i + 1 } else { 24 - i } }
pub fn of_board(b: &Board, player: i8) -> Pos {
    let mut p = Pos { me: [0; 26], op: [0; 25], op_bar: 0, op_off: 0 };
    for i in 0..24 { let d = dist(i, player); let n = b.0[i] as i16 * player as i16; if n > 0 { p.me[d] = n as u8 } else { p.op[d] = (-n) as u8 } }
    let (mb, ob, mo, oo) = if player == -1 { (b.1 .0, b.1 .1, b.2 .0, b.2 .1) } else { (b.1 .1, b.1 .0, b.2 .1, b.2 .0) };
    p.me[25] = mb; p.me[0] = mo; p.op_bar = ob; p.op_off = oo; p
}
pub fn to_board(p: &Pos, player: i8) -> Board {
    let mut b = [0i8; 24];
    for (i, x) in b.iter_mut().enumerate() { let d = dist(i, player); *x = player * (p.me[d] as i8 - p.op[d] as i8); }
    if player == -1 { (b, (p.me[25], p.op_bar), (p.me[0], p.op_off)) } else { (b, (p.op_bar, p.me[25]), (p.op_off, p.me[0])) }
}
/// All positions after one checker is moved with one die.
pub fn single(p: &Pos, die: usize) -> Vec<Pos> {
    let mut r = vec![];
    let home = (7..=25).all(|d| p.me[d] == 0);
    for d in 1..=25usize {
        if p.me[d] == 0 || (p.me[25] > 0 && d != 25) { continue; }
        let mut q = *p;
        if d > die {
            let t = d - die; if p.op[t] >= 2 { continue; }
            if p.op[t] == 1 { q.op[t] = 0; q.op_bar += 1; }
            q.me[d] -= 1; q.me[t] += 1; r.push(q);
        } else if home && (d == die || ((d + 1)..=6).all(|e| p.me[e] == 0)) { q.me[d] -= 1; q.me[0] += 1; r.push(q); }
    }
    r
}
/// Positions the rules allow after this roll (one play: two dice), and how many dice can be used.
pub fn legal(p: &Pos, roll: (u8, u8)) -> (usize, BTreeSet<Pos>) {
    let (a, b) = (roll.0 as usize, roll.1 as usize);
    let mut two = BTreeSet::new(); let mut one = BTreeSet::new();
    for (x, y) in [(a, b), (b, a)] { for q in single(p, x) { for s in single(&q, y) { two.insert(s); } one.insert(q); } }
    if !two.is_empty() { (2, two) } else if !one.is_empty() { (1, one) } else { (0, BTreeSet::new()) }
}
pub fn winner(b: &Board) -> Option<i8> { if b.2 .0 == 15 { Some(-1) } else if b.2 .1 == 15 { Some(1) } else { None } }
pub fn totals(b: &Board) -> (i32, i32) {
    let (mut x, mut y) = (b.1 .0 as i32 + b.2 .0 as i32, b.1 .1 as i32 + b.2 .1 as i32);
    for &n in &b.0 { if n < 0 { x -= n as i32 } else { y += n as i32 } } (x, y)
}
pub fn ttt_winner(b: &[i8; 9]) -> Option<i8> {
    for s in [-1i8, 1] {
        let m = |r: usize, c: usize| b[3 * r + c] == s;
        let line = (0..3).any(|i| (0..3).all(|j| m(i, j)) || (0..3).all(|j| m(j, i))) || (0..3).all(|i| m(i, i)) || (0..3).all(|i| m(i, 2 - i));
        if line { return Some(s); }
    }
    if b.iter().all(|&x| x != 0) { Some(0) } else { None }
}
